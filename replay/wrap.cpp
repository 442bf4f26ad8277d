// Batch entry points to the real library (C++ / C / Fortran) for replay.
// Every function works on arrays so that long double needs no conversion.
#include "Cl.hpp"
#include "Cl1.hpp"
#include "Cl2.hpp"
#include "Cl3.hpp"
#include "Cl4.hpp"
#include "Cl5.hpp"
#include "Cl6.hpp"
#include "Li.hpp"
#include "Li2.hpp"
#include "Li3.hpp"
#include "Li4.hpp"
#include "Li5.hpp"
#include "Li6.hpp"
#include "Sl.hpp"
#include "eta.hpp"
#include "factorial.hpp"
#include "harmonic.hpp"
#include "zeta.hpp"
#include <complex>
#include <cstdint>

using namespace polylogarithm;
template <typename T> using C = std::complex<T>;

#define R1(name, T, F) extern "C" void name(const T* x, T* y, long n) { \
   for (long i = 0; i < n; i++) y[i] = F(x[i]); }
#define C1(name, T, F) extern "C" void name(const T* x, T* y, long n) { \
   for (long i = 0; i < n; i++) { const C<T> r = F(C<T>(x[2*i], x[2*i+1])); y[2*i] = r.real(); y[2*i+1] = r.imag(); } } \
   /* argument object after the call */ \
   extern "C" void name##_arg(const T* x, T* y, long n) { \
   for (long i = 0; i < n; i++) { C<T> a(x[2*i], x[2*i+1]); C<T>* volatile p = &a; const C<T> r = F(*p); (void)r; y[2*i] = p->real(); y[2*i+1] = p->imag(); } }

R1(cpp_Li2_f, float, Li2) R1(cpp_Li2_d, double, Li2) R1(cpp_Li2_l, long double, Li2)
R1(cpp_Li3_d, double, Li3) R1(cpp_Li4_d, double, Li4)
R1(cpp_Cl1_d, double, Cl1)
R1(cpp_Cl2_d, double, Cl2) R1(cpp_Cl2_l, long double, Cl2)
R1(cpp_Cl3_d, double, Cl3) R1(cpp_Cl3_l, long double, Cl3)
R1(cpp_Cl4_d, double, Cl4) R1(cpp_Cl4_l, long double, Cl4)
R1(cpp_Cl5_d, double, Cl5) R1(cpp_Cl5_l, long double, Cl5)
R1(cpp_Cl6_d, double, Cl6) R1(cpp_Cl6_l, long double, Cl6)
C1(cpp_Li2_cf, float, Li2) C1(cpp_Li2_cd, double, Li2) C1(cpp_Li2_cl, long double, Li2)
C1(cpp_Li3_cd, double, Li3) C1(cpp_Li3_cl, long double, Li3)
C1(cpp_Li4_cd, double, Li4) C1(cpp_Li4_cl, long double, Li4)
C1(cpp_Li5_cd, double, Li5) C1(cpp_Li5_cl, long double, Li5)
C1(cpp_Li6_cd, double, Li6) C1(cpp_Li6_cl, long double, Li6)

extern "C" void cpp_Li_cd(const int64_t* k, const double* x, double* y, long n) {
   for (long i = 0; i < n; i++) { const C<double> r = Li(k[i], C<double>(x[2*i], x[2*i+1])); y[2*i] = r.real(); y[2*i+1] = r.imag(); } }
extern "C" void cpp_Li_cd_arg(const int64_t* k, const double* x, double* y, long n) {
   for (long i = 0; i < n; i++) { C<double> a(x[2*i], x[2*i+1]); C<double>* volatile p = &a; const C<double> r = Li(k[i], *p); (void)r; y[2*i] = p->real(); y[2*i+1] = p->imag(); } }
extern "C" void cpp_Cl_d(const int64_t* k, const double* x, double* y, long n) {
   for (long i = 0; i < n; i++) y[i] = Cl(k[i], x[i]); }
extern "C" void cpp_Sl_d(const int64_t* k, const double* x, double* y, long n) {
   for (long i = 0; i < n; i++) y[i] = Sl(k[i], x[i]); }
#define I1(name, F) extern "C" void name(const int64_t* x, double* y, long n) { \
   for (long i = 0; i < n; i++) y[i] = F(x[i]); }
I1(cpp_zeta_i, zeta) I1(cpp_neg_eta_i, neg_eta) I1(cpp_inv_fac_i, inv_fac) I1(cpp_harmonic_i, harmonic)
