#!/usr/bin/env python3
"""Overlay of the Armadillo headers for the symbolic build.

Armadillo is third-party: its dense decompositions (LAPACK) are replaced by exact
models (symla.h / linalg.cpp); everything else of the headers is used as is.
"""
import os, re, sys
src, out = "/usr/include", sys.argv[1]
os.makedirs(out + "/armadillo_bits", exist_ok=True)

def rd(p): return open(os.path.join(src, p)).read()
def wr(p, s): open(os.path.join(out, p), "w").write(s)
def sub1(s, pat, rep, what, cnt=1):
    n, k = re.subn(pat, rep, s, count=cnt, flags=re.S)
    if not k: sys.exit("mkoverlay: pattern not found: " + what)
    return n

m = rd("armadillo")
m = sub1(m, r'(#include "armadillo_bits/arma_forward.hpp")', r'\1\n#include "symla.h"', "main")
wr("armadillo", m)
s = rd("armadillo_bits/op_inv_gen_meat.hpp")
s = sub1(s, r'(op_inv_gen_full::apply_direct\(Mat<typename T1::elem_type>& out, const Base.*?arma_debug_check\( \(out\.is_square\(\) == false\), caller_sig[^\n]*\n)', r'\1  return symla::inv(out);\n', "inv")
wr("armadillo_bits/op_inv_gen_meat.hpp", s)
s = rd("armadillo_bits/op_inv_spd_meat.hpp")
s = sub1(s, r'(op_inv_spd_full::apply_direct\(Mat<typename T1::elem_type>& out, const Base.*?arma_debug_check\( \(out\.is_square\(\) == false\), "inv_sympd[^\n]*\n)', r'\1  return symla::inv_sympd(out);\n', "inv_sympd")
wr("armadillo_bits/op_inv_spd_meat.hpp", s)
s = rd("armadillo_bits/op_det_meat.hpp")
s = sub1(s, r'(  if\(N == 1\)  \{ out_val =  A\[0\]; return true; \}\n)', r'\1  out_val = symla::det(A); return true;\n', "det")
wr("armadillo_bits/op_det_meat.hpp", s)
s = rd("armadillo_bits/op_log_det_meat.hpp")
s = sub1(s, r'(op_log_det::apply_direct\(.*?arma_debug_check\( \(A\.is_square\(\) == false\)[^\n]*\n)', r'\1  return symla::log_det(out_val, out_sign, A);\n', "log_det")
wr("armadillo_bits/op_log_det_meat.hpp", s)
s = rd("armadillo_bits/glue_solve_meat.hpp")
s = sub1(s, r'(glue_solve_gen_full::apply\(Mat<eT>& actual_out, const Base<eT,T1>& A_expr, const Base<eT,T2>& B_expr, const uword flags\)\n  \{\n)', r'\1  { Mat<eT> sA = A_expr.get_ref(); Mat<eT> sB = B_expr.get_ref(); if(sA.n_rows == sA.n_cols) { arma_debug_check(sA.n_rows != sB.n_rows, "solve(): number of rows in given matrices must be the same"); return symla::solve(actual_out, sA, sB); } }\n', "solve")
wr("armadillo_bits/glue_solve_meat.hpp", s)
s = rd("armadillo_bits/auxlib_meat.hpp")
s = sub1(s, r'(\nauxlib::svd_dc\(Col<eT>& S, Mat<eT>& A\)\n  \{\n)', r'\1  return symla::svdvals(S, A);\n', "svd_dc vals")
s = sub1(s, r'(\nauxlib::svd_dc\(Mat<eT>& U, Col<eT>& S, Mat<eT>& V, Mat<eT>& A\)\n  \{\n)', r'\1  return symla::svd(U, S, V, A);\n', "svd_dc")
s = sub1(s, r'(\nauxlib::svd\(Mat<eT>& U, Col<eT>& S, Mat<eT>& V, Mat<eT>& A\)\n  \{\n)', r'\1  return symla::svd(U, S, V, A);\n', "svd")
s = sub1(s, r'(\nauxlib::svd_dc_econ\(Mat<eT>& U, Col<eT>& S, Mat<eT>& V, Mat<eT>& A\)\n  \{\n)', r'\1  return symla::svd_econ(U, S, V, A);\n', "svd_dc_econ")
s = sub1(s, r'(\nauxlib::eig_sym\(Col<eT>& eigval, Mat<eT>& A\)\n  \{\n)', r'\1  return symla::eig_sym(eigval, A);\n', "eig_sym vals")
s = sub1(s, r'(\nauxlib::eig_sym\(Col<eT>& eigval, Mat<eT>& eigvec, const Mat<eT>& X\)\n  \{\n)', r'\1  return symla::eig_sym(eigval, eigvec, X);\n', "eig_sym")
s = sub1(s, r'(\nauxlib::eig_sym_dc\(Col<eT>& eigval, Mat<eT>& eigvec, const Mat<eT>& X\)\n  \{\n)', r'\1  return symla::eig_sym(eigval, eigvec, X);\n', "eig_sym_dc")
wr("armadillo_bits/auxlib_meat.hpp", s)
