// Included inside namespace arma (see mkoverlay.py): models of the dense decompositions.
extern "C" int symla_inv(double* a, unsigned long n, int spd);
extern "C" double symla_det(const double* a, unsigned long n);
extern "C" int symla_logdet(const double* a, unsigned long n, double* val, double* sign);
extern "C" int symla_solve(double* a, double* b, unsigned long n, unsigned long m);
extern "C" void symla_svd(const double* a, unsigned long m, unsigned long n, double* u, double* s, double* v);
extern "C" int symla_eigsym(const double* a, unsigned long n, double* e, double* v);
namespace symla {
template<typename eT> struct only { static void chk() { static_assert(sizeof(eT) > 0, ""); } };
template<typename eT> inline double* dp(eT*) { return nullptr; }
inline double* dp(double* p) { return p; }
inline const double* dp(const double* p) { return p; }
template<typename eT> inline bool inv(Mat<eT>& A) { if (A.n_rows == 0) return true; return symla_inv(dp(A.memptr()), A.n_rows, 0); }
template<typename eT> inline bool inv_sympd(Mat<eT>& A) { if (A.n_rows == 0) return true; return symla_inv(dp(A.memptr()), A.n_rows, 1); }
template<typename eT> inline eT det(const Mat<eT>& A) { return eT(symla_det(dp(const_cast<eT*>(A.memptr())), A.n_rows)); }
template<typename eT, typename T> inline bool log_det(eT& v, T& s, const Mat<eT>& A) { double a = 0, b = 0; int r = symla_logdet(dp(const_cast<eT*>(A.memptr())), A.n_rows, &a, &b); v = eT(a); s = T(b); return r; }
template<typename eT> inline bool solve(Mat<eT>& X, Mat<eT>& A, Mat<eT>& B) { if (A.n_rows == 0) { X.zeros(A.n_cols, B.n_cols); return true; } if (!symla_solve(dp(A.memptr()), dp(B.memptr()), A.n_rows, B.n_cols)) return false; X = B; return true; }
template<typename eT> inline bool svdvals(Col<eT>& S, Mat<eT>& A) { unsigned long long k = A.n_rows < A.n_cols ? A.n_rows : A.n_cols; S.zeros(k); if (k) symla_svd(dp(A.memptr()), A.n_rows, A.n_cols, nullptr, dp(S.memptr()), nullptr); return true; }
template<typename eT> inline bool svd(Mat<eT>& U, Col<eT>& S, Mat<eT>& V, Mat<eT>& A) { unsigned long long k = A.n_rows < A.n_cols ? A.n_rows : A.n_cols; U.zeros(A.n_rows, A.n_rows); V.zeros(A.n_cols, A.n_cols); S.zeros(k); if (k) symla_svd(dp(A.memptr()), A.n_rows, A.n_cols, dp(U.memptr()), dp(S.memptr()), dp(V.memptr())); return true; }
template<typename eT> inline bool svd_econ(Mat<eT>& U, Col<eT>& S, Mat<eT>& V, Mat<eT>& A) { Mat<eT> u, v; Col<eT> s; bool r = svd(u, s, v, A); unsigned long long k = s.n_elem; U = u.head_cols(k); S = s; V = v.head_cols(k); return r; }
template<typename eT> inline bool eig_sym(Col<eT>& e, Mat<eT>& v, const Mat<eT>& A) { unsigned long long n = A.n_rows; e.zeros(n); v.zeros(n, n); return n == 0 || symla_eigsym(dp(const_cast<eT*>(A.memptr())), n, dp(e.memptr()), dp(v.memptr())); }
template<typename eT> inline bool eig_sym(Col<eT>& e, const Mat<eT>& A) { Mat<eT> v; return eig_sym(e, v, A); }
}
