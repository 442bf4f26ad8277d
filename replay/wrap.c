#include "Cl2.h"
#include "Cl3.h"
#include "Cl4.h"
#include "Cl5.h"
#include "Cl6.h"
#include "Li2.h"
#include "Li3.h"
#include "Li4.h"
#include "Li5.h"
#include "Li6.h"
#include <complex.h>

#define R1(name, T, F) void name(const T* x, T* y, long n) { \
   for (long i = 0; i < n; i++) y[i] = F(x[i]); }
#define C1(name, T, F, MK, RE, IM) void name(const T* x, T* y, long n) { \
   for (long i = 0; i < n; i++) { const T _Complex r = F(MK(x[2*i], x[2*i+1])); y[2*i] = RE(r); y[2*i+1] = IM(r); } }
#define CF(name, F) C1(name, float, F, CMPLXF, crealf, cimagf)
#define CD(name, F) C1(name, double, F, CMPLX, creal, cimag)
#define CLD(name, F) C1(name, long double, F, CMPLXL, creall, cimagl)

R1(c_Li2_f, float, li2f) R1(c_Li2_d, double, li2) R1(c_Li2_l, long double, li2l)
R1(c_Li3_d, double, li3) R1(c_Li4_d, double, li4)
R1(c_Cl2_d, double, cl2) R1(c_Cl2_l, long double, cl2l)
R1(c_Cl3_d, double, cl3) R1(c_Cl3_l, long double, cl3l)
R1(c_Cl4_d, double, cl4) R1(c_Cl4_l, long double, cl4l)
R1(c_Cl5_d, double, cl5) R1(c_Cl5_l, long double, cl5l)
R1(c_Cl6_d, double, cl6) R1(c_Cl6_l, long double, cl6l)
CF(c_Li2_cf, cli2f) CD(c_Li2_cd, cli2) CLD(c_Li2_cl, cli2l)
CD(c_Li3_cd, cli3) CLD(c_Li3_cl, cli3l)
CD(c_Li4_cd, cli4) CLD(c_Li4_cl, cli4l)
CD(c_Li5_cd, cli5) CLD(c_Li5_cl, cli5l)
CD(c_Li6_cd, cli6) CLD(c_Li6_cl, cli6l)

/* Fortran: external procedures, called by reference as gfortran calls them */
#define FR(name, F) extern double F(double*); \
   void name(const double* x, double* y, long n) { for (long i = 0; i < n; i++) { double a = x[i]; y[i] = F(&a); } } \
   /* argument cell after the call */ \
   void name##_arg(const double* x, double* y, long n) { for (long i = 0; i < n; i++) { double a = x[i]; F(&a); y[i] = a; } }
#define FC(name, F) extern double _Complex F(double _Complex*); \
   void name(const double* x, double* y, long n) { for (long i = 0; i < n; i++) { double _Complex a = CMPLX(x[2*i], x[2*i+1]); \
      const double _Complex r = F(&a); y[2*i] = creal(r); y[2*i+1] = cimag(r); } } \
   void name##_arg(const double* x, double* y, long n) { for (long i = 0; i < n; i++) { double _Complex a = CMPLX(x[2*i], x[2*i+1]); \
      F(&a); y[2*i] = creal(a); y[2*i+1] = cimag(a); } }
FR(f_Cl2_d, dcl2_) FR(f_Cl3_d, dcl3_) FR(f_Cl4_d, dcl4_) FR(f_Cl5_d, dcl5_) FR(f_Cl6_d, dcl6_)
FR(f_Li2_d, dli2_) FR(f_Li3_d, dli3_) FR(f_Li4_d, dli4_)
FC(f_Li2_cd, cdli2_) FC(f_Li3_cd, cdli3_) FC(f_Li4_cd, cdli4_) FC(f_Li5_cd, cdli5_) FC(f_Li6_cd, cdli6_)

/* fills the dead part of the stack, so that a read of an uninitialised local becomes visible */
void paint_stack(int pattern) {
   volatile unsigned char a[65536];
   for (unsigned long i = 0; i < sizeof(a); i++) a[i] = (unsigned char)pattern;
}
