prop("C01", "Fixed-bandwidth kernel weights follow their published kernels",
 "For a fixed bandwidth b > 0 every weight is the selected kernel (Gaussian, exponential, bisquare, tricube or boxcar) of its own distance alone: exp(-d²/2b²), exp(-d/b), (1-d²/b²)² , (1-d³/b³)³ and 1, the last three only for d < b and 0 elsewhere. Hence weights lie in [0,1], equal 1 at distance 0, never increase with distance and never decrease with the bandwidth. The result depends only on the current configuration, not on how the object was configured, copied or used before.",
 ["inputs", "configurations", "histories"], "all distances, all bandwidths, all kernels, all ways to configure or copy the weighting object",
 "The tests fit whole models with two or three bandwidths on one data set and compare rounded results.",
 [H + "spatialweight/BandwidthWeight.h", S + "spatialweight/BandwidthWeight.cpp"], [("kernel functions", H + "spatialweight/BandwidthWeight.h"), ("BandwidthWeight::weight", S + "spatialweight/BandwidthWeight.cpp")],
 "All real distances in [0,1e7] and bandwidths in [1e-3,1e7], vectors up to length 4 (one symbolic entry in vectors of 40).", ["BandwidthWeight::weight"])
prop("C02", "Adaptive bandwidths scale to the interpolated neighbour distance",
 "With an adaptive bandwidth b between 1 and the number n of observations, the kernel is applied with the linear interpolation at b of the sorted distances (the b-th nearest one when b is whole); from n upwards it is applied with b/n times the largest distance. The order of the observations, ties and earlier calls do not matter.",
 ["inputs", "configurations", "histories"], "all distance vectors (any order, with ties), all real bandwidths >= 1, all kernels",
 "The tests use whole-number adaptive bandwidths on one data set, so interpolation, ties and bandwidths above n are not reached.",
 [S + "spatialweight/BandwidthWeight.cpp"], [("order statistic and interpolation", S + "spatialweight/BandwidthWeight.cpp")],
 "All distance vectors of length 2..4 in [0,1e6], one symbolic distance in vectors of 9 and 40, real bandwidths in [1,3n].", ["BandwidthWeight::weight"])
prop("C03", "Planar, one-dimensional and Minkowski distances are the geometric ones",
 "The distance from a focus to each data point is the Euclidean, Manhattan (order 1), chessboard (order -1) or order-p Minkowski distance of their coordinates, in axes turned by the configured angle, or the absolute difference in one dimension; it is symmetric, zero only for equal points, and one value is returned per data point in the data order. The smallest and largest distance over all pairs bound all of them and are attained. Copies are independent of their original, and missing points, wrong column counts and focus numbers out of range are refused.",
 ["inputs", "configurations", "histories"], "all coordinates, orders, angles, ways to configure or copy a distance",
 "The tests compare distances of one data set with stored values; the Minkowski orders, copies and the extreme distances with a non-Euclidean metric are not reached.",
 [S + "spatialweight/CRSDistance.cpp", S + "spatialweight/MinkwoskiDistance.cpp", S + "spatialweight/OneDimDistance.cpp", H + "spatialweight/CRSDistance.h", H + "spatialweight/MinkwoskiDistance.h"], [("Euclidean", S + "spatialweight/CRSDistance.cpp"), ("Minkowski family", S + "spatialweight/MinkwoskiDistance.cpp"), ("one dimension", S + "spatialweight/OneDimDistance.cpp")],
 "All coordinates in [-1e6,1e6] for 2 foci and 3 points (1 symbolic among 20), Minkowski orders 1, -1, 2, 3, 4, any rotation angle in [0.125,3].", ["CRSDistance::distance", "MinkwoskiDistance::distance", "OneDimDistance::distance", "Distance::maxDistance", "Distance::minDistance"])
prop("C04", "Geographic coordinates use the ellipsoidal great-circle distance",
 "For longitude/latitude coordinates the distance is the great-circle distance on the WGS84 ellipsoid (first-order flattening correction), in kilometres. It is symmetric, does not change when the globe is turned or mirrored, is zero between a point and itself and across the date line at equal latitude, and each data point gets its own value.",
 ["inputs", "configurations"], "all longitudes and latitudes, all ways to switch the geographic mode on and off",
 "The tests use one list of British coordinates with stored distances.", [S + "spatialweight/CRSDistance.cpp"], [("great-circle formula", S + "spatialweight/CRSDistance.cpp")],
 "All longitudes in [-180,180] and latitudes in [-90,90]; trigonometric functions are uninterpreted up to range, parity, shift and the Pythagorean identity.", ["CRSDistance::SpGcdist", "CRSDistance::distance"])
prop("C05", "Space-time distances combine separation in space and time as configured",
 "A space-time distance is λ·s + (1-λ)·t + 2·√(λ(1-λ)st)·cos(angle) of spatial separation s and time lag t; λ = 1 gives the spatial distance, λ = 0 the time lag, and observations later than the focus are out of reach. λ outside [0,1] is refused, and copies are independent and keep the points.",
 ["inputs", "configurations", "histories"], "all λ, angles, times and separations, all copies and reconfigurations",
 "The tests fit one space-time data set with λ = 0.05; copying and the other settings are not reached.", [S + "spatialweight/CRSSTDistance.cpp", H + "spatialweight/CRSSTDistance.h"], [("orthogonal and oblique distances", S + "spatialweight/CRSSTDistance.cpp")],
 "Three points, symbolic times in [-1e3,1e3], λ in [0,0.999999999] and 1, angles in [-1.5,1.5].", ["CRSSTDistance::distance"])
prop("C09", "Each local coefficient vector solves its weighted least-squares problem",
 "At every location the estimated coefficients solve the normal equations X'W(y - Xb) = 0 with that location's weights, independent of the other locations' weights. Scaling all weights of a location, reordering the observations, and repeated or reconfigured use of one object give the coefficients of the current inputs; a location without a unique solution makes the fit fail instead of returning numbers.",
 ["inputs", "configurations", "histories"], "all responses, all regressors, all weights, all option combinations, all call sequences of bounded length",
 "The tests compare rounded summaries of one data set.", [S + "GWRBasic.cpp", H + "GWRBasic.h"], [("local solution without hat matrix", S + "GWRBasic.cpp"), ("local solution with hat matrix", S + "GWRBasic.cpp")],
 "3..6 observations, 2..3 variables; the weights of a focus, the regressors of one observation or all responses symbolic.", ["GWRBasic::fit", "GWRBasic::betas"])
prop("C10", "Hat matrix, standard errors and diagnostics follow from the local fits",
 "The hat matrix maps the responses to the fitted values; its traces, the diagonal of (I-S)'(I-S), the local operators, the standard errors σ²·CC' and the diagnostics (RSS, AIC, AICc, ENP, EDF, R², adjusted R²) are the textbook functions of the local fits. They belong to the latest fit, whatever was fitted before and whichever storage options are on.",
 ["inputs", "configurations", "histories"], "all responses, weights and storage options, repeated fits",
 "The tests compare a few rounded diagnostics on one data set and never the hat matrix, standard errors or a second fit.", [S + "GWRBasic.cpp", H + "GWRBase.h", S + "GWRBase.cpp"], [("fit with hat matrix", S + "GWRBasic.cpp"), ("diagnostics", S + "GWRBasic.cpp")],
 "4 observations with all weights of any focus symbolic; 5..6 observations, 2..3 variables with all responses symbolic.", ["GWRBasic::diagnostic", "GWRBasic::betasSE", "GWRBasic::sHat", "GWRBasic::s", "GWRBasic::c", "GWRBasic::qDiag"])
prop("C11", "Bandwidth and variable criteria are leave-one-out CV and AICc",
 "The score of a bandwidth is the leave-one-out sum of squared prediction errors (CV) or the AICc of the hat matrix under that bandwidth; the score of a variable set is the AICc of the global limit with an intercept when the model has one. A bandwidth or set without unique local solutions gets the worst score. Scoring does not change the model or the candidate, and does not depend on what was scored before.",
 ["inputs", "configurations", "histories"], "all responses and distances, all kernels, fixed and adaptive, all candidates",
 "The tests only compare the finally selected bandwidth and variable order of one data set.", [S + "GWRBasic.cpp"], [("criteria", S + "GWRBasic.cpp")],
 "5..6 observations, 2..3 variables; all responses symbolic for every kernel, one distance symbolic for Gaussian and exponential kernels.", ["GWRBasic::getCriterion"])
prop("C12", "Prediction gives the local coefficients of any new location",
 "Predicting at new locations solves the same weighted normal equations with the weights seen from each new location, one row per location, whether or not a fit was done before. Predicting at the data points equals the fit, the order of the locations does not matter, repeated predictions agree, and a location without a unique solution is refused.",
 ["inputs", "configurations", "histories"], "all locations, responses, kernels, sequences of fits and predictions",
 "The tests predict at the data points only.", [S + "GWRBasic.cpp"], [("prediction", S + "GWRBasic.cpp")],
 "4..5 observations, 1..5 new locations; symbolic location for Gaussian and exponential kernels, symbolic responses for all kernels.", ["GWRBasic::predict"])
prop("C06", "A spatial weight is an independent value",
 "The weights of a focus are the kernel of its distances, for every kind of distance. However a weighting scheme is copied, moved, assigned (also to itself), or given new pieces (by pointer, reference or temporary, also its own), every scheme stays exactly what it was last set to, no later change of one scheme or of the given pieces affects another, and no memory is misused. Empty schemes are recognisable and may be copied and filled.",
 ["inputs", "histories"], "all sequences of copy, move, assign and set operations of bounded length, all bandwidths and coordinates",
 "The tests build a scheme once and hand it to one algorithm.", [H + "spatialweight/SpatialWeight.h", S + "spatialweight/SpatialWeight.cpp"], [("copy, move and assignment", S + "spatialweight/SpatialWeight.cpp"), ("setters", H + "spatialweight/SpatialWeight.h")],
 "All sequences of 2 (thorough 3) operations out of 7 on three schemes; memory errors are found by the sanitizer build on each path's model.", ["SpatialWeight::weightVector", "SpatialWeight::isValid"])
prop("C07", "Bandwidth selection returns the best bandwidth it tried, within its bounds",
 "Whatever the criterion, the selected bandwidth lies within the given bounds, keeps kernel and kind (whole numbers when adaptive), and no bandwidth tried during the search scored better; for a criterion with a single dip the optimum lies next to it. Every acceptable candidate is listed once, sorted, with its score. The search always ends, returns the original bandwidth when stopped, refuses when no start is acceptable, and a fit uses the selected bandwidth.",
 ["inputs", "configurations", "fault_sequences"], "all criterion functions, ranges, rejected or interrupted evaluations",
 "The tests run the selection on two data sets and compare the final bandwidth.", [S + "BandwidthSelector.cpp", H + "BandwidthSelector.h", S + "GWRBasic.cpp"], [("golden section search", S + "BandwidthSelector.cpp"), ("use of the result", S + "GWRBasic.cpp")],
 "Any score function on adaptive ranges up to 6 (thorough 20) wide and fixed ranges up to 1e-3 wide, V-shaped criteria on ranges of 0.01, GWR fits with 7 observations and one symbolic response.", ["BandwidthSelector::optimize", "BandwidthSelector::bandwidthCriterion", "GWRBasic::fit"])
prop("C08", "Variable selection is greedy forward selection with the given threshold",
 "Whatever the criterion, each round scores the extension of the current set by every remaining variable once and keeps the best; the listed scores are those given, ordered by size and from worst to best within a size; the result is the last listed set that improves on its predecessor by at least the threshold, all candidates when there is none or when stopped. Any number of candidates works, and a fit uses exactly the selected variables, plus the intercept when the model has one.",
 ["inputs", "configurations", "fault_sequences"], "all criterion values (with ties), thresholds, interrupted evaluations, numbers of candidates",
 "The tests run one data set with three candidates whose scores differ clearly.", [S + "VariableForwardSelector.cpp", H + "VariableForwardSelector.h"], [("greedy selection, ordering, threshold", S + "VariableForwardSelector.cpp")],
 "0..3 (thorough 4) candidates with all scores and the threshold symbolic; GWR fits with 3 candidates and one symbolic response.", ["VariableForwardSelector::optimize", "VariableForwardSelector::indepVarsCriterion", "GWRBasic::fit"])
prop("C13", "OpenMP fits of GWR equal the serial ones under every schedule",
 "For every number of threads, every division of the locations among them and every order in which they run, the parallel fit, prediction, bandwidth criteria and variable criteria give the serial coefficients, standard errors, hat matrix, traces, diagnostics and scores. No two threads access one memory location without ordering when one of them writes, and a location without a unique solution is refused as in serial.",
 ["schedules", "inputs", "configurations"], "all partitions of the iterations among the threads, all pairwise orders of accesses, all responses",
 "The tests run the scheduler's one choice on one data set; a race or a wrong partition shows only under some schedules.", [S + "GWRBasic.cpp"], [("OpenMP variants", S + "GWRBasic.cpp")],
 "4..5 observations, 1..3 threads, every contiguous partition and both thread orders, all responses symbolic; conflicting accesses are detected independently of the order explored.", ["GWRBasic::fit", "GWRBasic::predict", "GWRBasic::getCriterion"])
prop("C14", "MPI fits of GWR equal the serial ones on every process",
 "For every number of processes (also more than there are observations), with or without OpenMP inside, and for every order in which messages arrive, a distributed fit, its bandwidth and variable scores and its selections give every process the serial coefficients, standard errors, traces, residual variances, diagnostics and scores, though only the master holds the data. All processes end; when a location has no unique solution the fit is refused on every process and a candidate gets the worst score on every process.",
 ["schedules", "inputs", "configurations", "histories"], "all numbers of processes in bounds, all arrival orders of messages, eager and synchronous sends, all responses",
 "The stable tests do not start several processes at all; the MPI tests need mpirun and check the master's diagnostics only.", [S + "GWRBasic.cpp", H + "IParallelizable.h"], [("MPI variants", S + "GWRBasic.cpp")],
 "3..6 observations, 1..4 processes, all arrival orders with 3 processes, all responses symbolic. The hat matrix is kept per process and not claimed.", ["GWRBasic::fit", "GWRBasic::getCriterion"])
prop("C16", "Local summary statistics follow their weighted definitions",
 "At every location the local mean, variance, standard deviation, skewness and coefficient of variation are the weighted moments of the values with that location's normalised weights, and the local median, interquartile range and quantile imbalance come from the weighted quantiles. They belong to the data, weights and mode of the latest run, whatever ran before.",
 ["inputs", "configurations", "histories"], "all values, all weights of a location, quantiles with any order of values, repeated and reconfigured runs",
 "The tests compare a few quantiles of the means of one data set.", [S + "GWSS.cpp", H + "GWSS.h"], [("moments and quantiles", S + "GWSS.cpp")],
 "3..5 observations, 1..3 variables with all values of one variable or all weights of one location symbolic; up to 30 observations with one symbolic value.", ["GWSS::run", "GWSS::localMean", "GWSS::localVar", "GWSS::localSkewness", "GWSS::localMedian", "GWSS::iqr", "GWSS::qi"])
prop("C17", "Local covariances and correlations follow their weighted definitions",
 "At every location and for every pair of variables (or the pairs with the first one) the local covariance is the unbiased weighted covariance, the correlation the covariance divided by the weighted deviations, the rank correlation the correlation of the ranks. Each pair has its own column in order of the variables; a single variable is refused. The results belong to the latest run.",
 ["inputs", "configurations", "histories"], "all values and orders of values, all weights, both pairings, repeated runs",
 "The tests compare a few quantiles of one data set.", [S + "GWSS.cpp", H + "GWSS.h"], [("covariance and correlation", S + "GWSS.cpp")],
 "3..5 observations, 2..4 variables with all values of one variable or one weight symbolic.", ["GWSS::run", "GWSS::localCov", "GWSS::localCorr", "GWSS::localSCorr"])
prop("C18", "Local principal components diagonalise the local covariance",
 "At every location the loadings are orthonormal principal directions of the covariance of the variables under that location's weights, largest variance first; the standard deviations are the roots of the component variances, add up to the total variance, and the percentages are shares of it. Each location is independent of the others, and a run does not depend on earlier ones.",
 ["inputs", "configurations", "histories"], "all values, all weights, any number of kept components, repeated runs",
 "The tests compare quantiles of percentages and loadings of one data set and never the standard deviations.", [S + "GWPCA.cpp", H + "GWPCA.h"], [("weighted decomposition", S + "GWPCA.cpp")],
 "3..5 observations and 2 variables with two symbolic values or one symbolic weight; 3 variables with fixed values. The singular value decomposition itself (LAPACK) is modelled exactly.", ["GWPCA::run", "GWPCA::localPV", "GWPCA::loadings", "GWPCA::sdev"])
prop("C19", "Robust regression down-weights outliers by its stated rule and nothing else",
 "With filtering, observations whose studentised residual of an ordinary fit exceeds 3 get weight 0; without, weights (1 up to 2 root mean squares, (1-(u-2)^2)^2 up to 3, 0 beyond) are iterated until the mean square changes by at most 1e-5 relative or 20 rounds passed. Coefficients, standard errors, hat matrix and diagnostics are those of the weighted regression with the final weights times the spatial ones, follow shifts and scale of the response, do not depend on threads or on earlier fits, and a response without residuals is fitted exactly.",
 ["inputs", "configurations", "histories", "schedules"], "every response, size and sign of an outlier, shift and scale; thread counts and schedules; repeated fits",
 "The tests compare quantiles of one data set.", [S + "GWRRobust.cpp", H + "GWRRobust.h"], [("robust weights", S + "GWRRobust.cpp")],
 "4..12 observations, 1..2 variables; one or two symbolic responses, or symbolic shifts and scale of fixed residuals while weights iterate (arithmetic then in doubles with cancellation at 1e-12). Predictions of the robust model are not covered.", ["GWRRobust::fit", "GWRRobust::setFiltered", "GWRRobust::s", "GWRRobust::diagnostic"])
prop("C20", "Density regression multiplies the weights of all dimensions",
 "The weight of an observation is the product over the dimensions of the kernel of the one-dimensional distance with that dimension's bandwidth; coefficients, standard errors, hat matrix, diagnostics and the scores of bandwidths (CV, AICc) and of variables (AICc, global when bandwidths are still unknown) are those of the regression with these weights. Optimisation starts from the given bandwidths and chooses those of the best point visited, rounded only when adaptive. Candidates or fits without unique local solution are refused, with and without threads.",
 ["inputs", "configurations", "histories", "schedules"], "every response, coordinate, bandwidth vector, kernel, search path of the minimiser, thread schedule",
 "The tests compare quantiles on one data set.", [S + "GWDR.cpp", H + "GWDR.h"], [("weights, fits, scores and optimisation", S + "GWDR.cpp")],
 "4..8 observations, 1..2 variables, 1..3 dimensions. The minimiser of the GNU Scientific Library is replaced by one that visits any of up to 2 points; predict() is unimplemented in the repository.", ["GWDR::fit", "GWDR::bandwidthCriterion", "GWDR::getCriterion", "GWDR::spatialWeights"])
prop("C21", "Multiscale regression back-fits every variable with its own bandwidth",
 "Starting from an ordinary fit, every round regresses, variable by variable, the partial residuals on that variable alone with that variable's weights; it ends when the change of the residual sum of squares (absolute or relative) is within the threshold or the rounds are used up. The hat matrix follows the same recursion and gives the diagnostics; centring applies to the requested predictors only; unspecified bandwidths are selected per variable by its own criterion within the given bounds or the extent of the data, never one without local solution. Threads and earlier fits do not change the result.",
 ["inputs", "configurations", "histories", "schedules"], "every response, bandwidths, initialisation types, criteria, rounds; thread schedules; repeated fits",
 "The tests compare quantiles of one data set.", [S + "GWRMultiscale.cpp", H + "GWRMultiscale.h"], [("back-fitting", S + "GWRMultiscale.cpp")],
 "4..6 observations, 1..3 variables, up to 3 rounds, one or two symbolic responses or symbolic scale.", ["GWRMultiscale::fit", "GWRMultiscale::diagnostic", "GWRMultiscale::spatialWeights"])
prop("C22", "Multiscale regression over MPI equals the serial one on every process",
 "For any number of processes, including more than there are blocks of locations, every process obtains the coefficients, selected bandwidths and diagnostics of the serial fit, in any arrival order of messages; a fit that fails is refused by all processes instead of hanging. The distributed matrix product gives every process its rows of the product.",
 ["inputs", "configurations", "histories", "schedules"], "1..4 processes, message orders, all responses, criteria, initialisation types, repeated fits",
 "The MPI tests run on one data set whose partition is even.", [S + "GWRMultiscale.cpp", S + "utils/armampi.cpp"], [("distributed back-fitting", S + "GWRMultiscale.cpp"), ("distributed product", S + "utils/armampi.cpp")],
 "4..6 observations (1..6 rows for the product), 1..4 processes; MPI itself is modelled.", ["GWRMultiscale::fit", "mat_mul_mpi"])
prop("C23", "Space-time regression weights by space-time distance and optimises it",
 "Every location's coefficients are those of the regression weighted by the kernel of lambda s + (1-lambda) t + 2 sqrt(lambda (1-lambda) s t) (the last term times the cosine of the angle when one is given), observations later than the location having no influence unless lambda is 1; standard errors, hat matrix and diagnostics are those of that regression. The bandwidth chosen is the best of those scored by the criterion the object reports, the lambda chosen lies in [0,1] and explains the data best when R2 has one peak, and the fit uses both. Threads and earlier fits do not change the result; a location without unique solution is refused.",
 ["inputs", "configurations", "histories", "schedules"], "every response, lambda, angle, times with and without ties, criteria, thread schedules, repeated fits",
 "The tests compare the diagnostics of one data set for two values of lambda.", [S + "GTWR.cpp", H + "GTWR.h", S + "spatialweight/CRSSTDistance.cpp"], [("fit, scores and searches", S + "GTWR.cpp"), ("space-time distance", S + "spatialweight/CRSSTDistance.cpp")],
 "4..7 observations at 1..3 times, 1..2 variables; all responses symbolic (fit, scores) or one scale (searches). Prediction is not covered: the interface has no times for the new locations.", ["GTWR::fit", "GTWR::getCriterion", "GTWR::bandwidthSelectionCriterionList", "GTWR::diagnostic"])
prop("C24", "Discriminant analysis classifies every location by its neighbours alone",
 "At every location the score of a class is half the squared Mahalanobis distance to the weighted mean of the class, less the logarithm of its weighted share, plus a term that depends on the spread of the class only (the same for all classes in linear analysis, whose covariance is pooled by class sizes); the observation itself is left out, and each of means, covariances and shares is global when asked for. The class with the best score is assigned and is the most probable one; probabilities are in the ratio of the scores and sum to one, entropy is relative to equal probabilities, and the rate is the share of right assignments. Threads and earlier runs do not change the result.",
 ["inputs", "configurations", "histories", "schedules"], "all values, groupings, weights, choices of global parts, thread schedules, repeated runs",
 "The tests compare one rate each for linear and quadratic analysis of one data set.", [S + "GWDA.cpp", H + "GWDA.h"], [("scores and classification", S + "GWDA.cpp")],
 "6..9 observations in 2..3 classes, 2 variables; a shift of one class, one value, one weight or all values (moments) symbolic. The quadratic spread term is compared between data sets, not with a formula.", ["GWDA::run", "GWDA::res", "GWDA::group", "GWDA::probs", "GWDA::entropy", "GWDA::correctRate"])
prop("C25", "Locally compensated ridge regression shrinks by the stated local term",
 "At every location the coefficients minimise the weighted squared residuals plus lambda times the squared coefficients in units of their variables' deviations; with compensation, where the condition number of the weighted design with unit columns exceeds the threshold, lambda brings it to the threshold. Without ridge the diagnostics are those of the weighted regression. Bandwidth scores leave the scored observation out, the best of those scored is used, a singular candidate is rejected and a singular location refused, and predictions, threads and earlier fits follow the same rule.",
 ["inputs", "configurations", "histories", "schedules"], "every response, ridge term, threshold, locations, thread schedules, repeated fits",
 "The tests check that a fit does not throw and one selected bandwidth; the multithreaded test is commented out.", [S + "GWRLocalCollinearity.cpp", H + "GWRLocalCollinearity.h"], [("ridge solution and compensation", S + "GWRLocalCollinearity.cpp")],
 "4..5 observations, 2..3 variables, all responses and the ridge term symbolic, concrete weights; compensation at 2 variables. Diagnostics with a ridge term use the unpenalised traces and are not claimed.", ["GWRLocalCollinearity::fit", "GWRLocalCollinearity::predict", "GWRLocalCollinearity::getCriterion"])
prop("C26", "Scalable regression fits the multiscale kernel it optimised",
 "At every location the coefficients minimise the squared residuals weighted by the penalty plus, over the nearest neighbours the bandwidth names, the polynomial of the chosen kernel with the chosen scale; the scale and penalty reported and used are the best among those the optimiser visited. The leave-out score equals the squared errors of the pooled local fits. Predictions follow the same rule from the new locations, and repeated fits ignore earlier ones.",
 ["inputs", "configurations", "histories"], "every response, scale, penalty, polynomial degree, neighbour count, optimiser path and earlier fit",
 "The tests compare the coefficients of one data set at one setting to three digits.", [S + "GWRScalable.cpp", H + "GWRScalable.h"], [("moments and pooled local fits", S + "GWRScalable.cpp")],
 "5..7 observations, 1..2 variables, degree 0..4; the library minimiser replaced by one that ends at an arbitrary point. Trace-based diagnostics and the neighbour set of the score (which includes the scored observation, as the tests pin) are not claimed.", ["GWRScalable::fit", "GWRScalable::predict", "GWRScalable::Loocv"])
prop("C27", "Generalized regression iterates local weighted fits to its stop rule",
 "For Poisson and binomial responses the coefficients at each location are the local weighted fit of the working response with the working weights, iterated until the relative change of the log-likelihood is below the tolerance or the limit is reached. Deviance, AIC, AICc, pseudo R2 and the global model's figures follow from that fit; bandwidth scores leave the scored observation out or are its AICc, the best scored bandwidth is used, and one without a local solution gets the worst score. Predictions, fits without diagnostics, threads and repeated fits follow the same rule.",
 ["inputs", "configurations", "histories", "schedules"], "every response, weights, tolerance, iteration limit, thread schedule and earlier fit",
 "The Poisson assertions of the tests are commented out; predictions, fits without diagnostics and multithreaded scores have no oracle.", [S + "GWRGeneralized.cpp", H + "GWRGeneralized.h"], [("local reweighted fits and scores", S + "GWRGeneralized.cpp")],
 "3..6 observations, 1..2 variables, 1 iteration with symbolic data, up to 4 with a symbolic tolerance. Separate regression points (setRegressionData) and binomial responses outside [0,1] are not claimed.", ["GWRGeneralized::fit", "GWRGeneralized::predict", "GWRGeneralized::getCriterion"])
prop("C28", "Generalized linear models use their families' exact formulas",
 "The Poisson and binomial families' links, inverse links, derivatives, variances, starting means, validity tests, deviance residuals and likelihoods are the textbook ones for every mean, response and prior weight, and the links are inverse to each other. The global fit iterates reweighted least squares from the starting means to the relative deviance tolerance; its deviance, null deviance and AIC are those of the fitted means.",
 ["inputs"], "every response, mean, linear predictor, weight and regressor",
 "No test covers the families or the global model; they are only reached through one local fit.", [S + "GeneralizedLinearModel.cpp", S + "PoissonModel.cpp", S + "BinomialModel.cpp", H + "GeneralizedLinearModel.h"], [("global fit", S + "GeneralizedLinearModel.cpp"), ("families", S + "BinomialModel.cpp")],
 "2 observations for the families, 2..4 for 1..2 symbolic iterations, 6 to convergence; means above the machine epsilon. The two-column binomial response and step halving at infinite deviance are not claimed.", ["GeneralizedLinearModel::fit", "BinomialModel::devResids", "PoissonModel::devResids"])
prop("C15", "Cancelling ends a run at once and leaves the object usable",
 "Whatever the moment at which the telegram starts asking to stop, fit, predict or run returns without an exception, its status is Terminated exactly when the request was seen, and no further local computation is started after it. A run during which no stop was asked has status Success and the results of a run without telegram. The run after a cancelled one, with the same settings, has status Success and the results of a fresh object.",
 ["schedules"], "every poll of the telegram at which the request may start",
 "The tests stop a run at a handful of progress values and look at the status only, never at what the object does next.", [S + "GWRBasic.cpp", S + "GWRMultiscale.cpp", S + "GWRRobust.cpp", S + "GWRGeneralized.cpp", S + "GTWR.cpp", S + "GWDR.cpp", S + "GWRLocalCollinearity.cpp", S + "GWRScalable.cpp", S + "GWSS.cpp", S + "GWPCA.cpp", S + "BandwidthSelector.cpp", S + "VariableForwardSelector.cpp", H + "Algorithm.h"], [("stop macros", H + "Algorithm.h"), ("bandwidth search", S + "BandwidthSelector.cpp"), ("variable search", S + "VariableForwardSelector.cpp")],
 "5..6 observations, 1..3 variables, every poll of every run; serial and two threads (chunks one after another). Discriminant analysis never asks; the initial fit inside multiscale regression does not either.", ["fit", "predict", "run", "status", "setTelegram"])
prop("C29", "Progress reports stay within their range and reach the end",
 "Every report of progress a computation sends to its telegram is in range: a count never exceeds its total, a share lies within [0, 1]. Serial counts of one total never go backwards before they are complete, and when the computation succeeds the last count equals its total; predictions count the locations they predict for. This holds again for every further run of the object.",
 ["inputs", "configurations", "histories"], "every response, number of locations, algorithm, configuration, thread count, path of a search and earlier run",
 "The tests print the reports of a few runs or count them to trigger a stop; none looks at their values.", [S + "GWRBasic.cpp", S + "GWRScalable.cpp", S + "GWRGeneralized.cpp", S + "GWRMultiscale.cpp", S + "GWRRobust.cpp", S + "GWRLocalCollinearity.cpp", S + "GTWR.cpp", S + "GWDR.cpp", S + "GWSS.cpp", S + "GWPCA.cpp", H + "Algorithm.h"], [("reports", H + "Algorithm.h")],
 "4..6 observations, 1..3 variables, 1..6 locations; most paths have concrete data, the criteria and predictions symbolic. Discriminant analysis sends no reports.", ["ITelegram::progress", "fit", "predict", "run"])
prop("C30", "Automatic selection fits the model of the settings it reports",
 "A fit that selects its variables, its bandwidth or both gives the coefficients, standard errors, traces and diagnostics of a fit configured with the selected variables and bandwidth, and predictions made afterwards by the same object use them too. The bandwidth is selected for the selected variables.",
 ["inputs", "configurations", "histories"], "every response, selection, criterion, intercept choice, thread count and following prediction",
 "The tests compare the selected variables or bandwidth of one data set with stored ones; none compares the resulting model with an explicit one or predicts after a selection.", [S + "GWRBasic.cpp", S + "GWRRobust.cpp", S + "GWDR.cpp", S + "GTWR.cpp", S + "GWRLocalCollinearity.cpp", S + "GWRGeneralized.cpp", S + "BandwidthSelector.cpp", S + "VariableForwardSelector.cpp"], [("selection stages", S + "GWRBasic.cpp"), ("selection stages", S + "GWRGeneralized.cpp")],
 "6 observations, up to 3 candidates; a response symbolic for variable selection, three data sets for golden sections (their forks are too many with symbolic data).", ["fit", "predict", "selectedVariables", "spatialWeight", "setIsAutoselectBandwidth"])
P.sort(key=lambda p: p["id"])
