// Taylor-model symbolic domain: every floating point SSA value is a polynomial
// (degree <= D) in the symbolic box parameters s,t in [-1,1] plus an interval
// remainder that contains all rounding errors, together with an interval
// enclosure.  Coefficients are long double; the arithmetic on coefficients is
// itself accounted for in the remainder.
#pragma once
#include <cstdint>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <memory>
#include <limits>
#include <algorithm>
#include <stdexcept>
#include <quadmath.h>

typedef long double R;
typedef __float128 Q;
static const R EPS = 0x1p-64L;           // unit roundoff of the coefficient arithmetic
static const R RINF = std::numeric_limits<R>::infinity();

// ---------------------------------------------------------------- monomials
struct Basis {
   int nv = 0, D = -1, N = 0;
   std::vector<int> ei, ej, dg;
   std::vector<int> cnt;                 // cnt[d] = number of monomials with degree <= d
   std::vector<std::vector<int>> tab;    // tab[a][b] = index of product
   int idx[40][40];
   void init(int nv_, int D_) {
      if (nv == nv_ && D == D_) return;
      nv = nv_; D = D_;
      ei.clear(); ej.clear(); dg.clear(); cnt.assign(D + 1, 0); tab.clear();
      for (int d = 0; d <= D; d++) {
         for (int j = 0; j <= (nv > 1 ? d : 0); j++) {
            idx[d - j][j] = (int)ei.size();
            ei.push_back(d - j); ej.push_back(j); dg.push_back(d);
         }
         cnt[d] = (int)ei.size();
      }
      N = (int)ei.size();
      tab.resize(N);
      for (int a = 0; a < N; a++) {
         int nb = cnt[D - dg[a]];
         tab[a].resize(nb);
         for (int b = 0; b < nb; b++) tab[a][b] = idx[ei[a] + ei[b]][ej[a] + ej[b]];
      }
   }
};
extern Basis B;

struct TM {
   std::vector<R> c;
   R rem = 0;
   TM() : c(B.N, 0.0L) {}
   explicit TM(R v) : c(B.N, 0.0L) { c[0] = v; }
   R absum(bool withc0 = true) const {
      R s = 0;
      for (int i = withc0 ? 0 : 1; i < B.N; i++) s += fabsl(c[i]);
      return s*(1 + 0x1p-55L);
   }
   R mag() const { return absum() + rem; }
   void range(R& lo, R& hi) const {
      R n = 0, p = 0, a = fabsl(c[0]);
      for (int i = 1; i < B.N; i++) {
         const R x = c[i];
         if (x == 0) continue;
         a += fabsl(x);
         if ((B.ei[i] & 1) || (B.ej[i] & 1)) { n += fabsl(x); p += fabsl(x); }
         else if (x > 0) p += x; else n -= x;
      }
      const R sl = rem + a*0x1p-56L;
      lo = c[0] - n - sl; hi = c[0] + p + sl;
   }
};

inline TM tadd(const TM& a, const TM& b, int sgn = 1) {
   TM r;
   R s = 0;
   for (int i = 0; i < B.N; i++) { r.c[i] = sgn > 0 ? a.c[i] + b.c[i] : a.c[i] - b.c[i]; s += fabsl(r.c[i]); }
   r.rem = (a.rem + b.rem + EPS*s)*(1 + 0x1p-60L);
   return r;
}
inline TM tneg(const TM& a) { TM r = a; for (auto& x : r.c) x = -x; return r; }
inline TM tscale(const TM& a, R k) {
   TM r; R s = 0;
   for (int i = 0; i < B.N; i++) { r.c[i] = a.c[i]*k; s += fabsl(r.c[i]); }
   int e; const bool p2 = fabsl(frexpl(k, &e)) == 0.5L;
   r.rem = (a.rem*fabsl(k) + (p2 ? 0 : EPS*s))*(1 + 0x1p-60L);
   return r;
}
inline TM taddc(const TM& a, R k) { TM r = a; r.c[0] += k; r.rem += EPS*fabsl(r.c[0]); return r; }
inline TM tmul(const TM& a, const TM& b) {
   TM r;
   R Ad[48] = {0}, Bd[48] = {0};
   for (int i = 0; i < B.N; i++) { Ad[B.dg[i]] += fabsl(a.c[i]); Bd[B.dg[i]] += fabsl(b.c[i]); }
   R sa = 0, sb = 0; int da = 0, db = 0;
   for (int d = 0; d <= B.D; d++) { sa += Ad[d]; sb += Bd[d]; if (Ad[d] != 0) da = d; if (Bd[d] != 0) db = d; }
   const TM *x = &a, *y = &b;
   if (da > db) std::swap(x, y);
   const int dx = std::min(da, db), dy = std::max(da, db);
   for (int i = 0; i < B.cnt[dx]; i++) {
      const R ca = x->c[i];
      if (ca == 0) continue;
      const int nb = B.cnt[std::min(B.D - B.dg[i], dy)];
      const int* tb = B.tab[i].data(); const R* yb = y->c.data(); R* rc = r.c.data();
      for (int j = 0; j < nb; j++) rc[tb[j]] += ca*yb[j];
   }
   R round = 0, trunc = 0;
   for (int i = 0; i <= da; i++) if (Ad[i] != 0) for (int j = 0; j <= db; j++) {
      const R p = Ad[i]*Bd[j];
      if (i + j > B.D) trunc += p; else round += p*((i + j + 2)*(i + j + 2)/4 + 1);
   }
   r.rem = (EPS*round + trunc + sa*b.rem + sb*a.rem + a.rem*b.rem)*(1 + 0x1p-50L);
   return r;
}

// f(m + h) given Taylor coefficients ck of f at m (k = 0..K) and a bound for the
// remainder; h = a - m
inline TM tcompose(const TM& a, R m, const std::vector<R>& ck, R remainder) {
   TM h = a; h.c[0] -= m;
   const R H = h.mag();
   int K = (int)ck.size() - 1;
   TM r(ck[K]);
   for (int k = K - 1; k >= 0; k--) { r = tmul(r, h); r = taddc(r, ck[k]); }
   R e = 0, hp = 1;
   for (int k = 0; k <= K; k++) { e += fabsl(ck[k])*hp; hp *= H; }
   r.rem += remainder + 2*EPS*e;
   return r;
}

// complex quad helper
struct CQ { Q re, im; };
inline CQ operator+(CQ a, CQ b) { return {a.re + b.re, a.im + b.im}; }
inline CQ operator-(CQ a, CQ b) { return {a.re - b.re, a.im - b.im}; }
inline CQ operator*(CQ a, CQ b) { return {a.re*b.re - a.im*b.im, a.re*b.im + a.im*b.re}; }
inline CQ operator*(CQ a, Q k) { return {a.re*k, a.im*k}; }
inline CQ operator/(CQ a, CQ b) { Q n = b.re*b.re + b.im*b.im; return {(a.re*b.re + a.im*b.im)/n, (a.im*b.re - a.re*b.im)/n}; }
inline CQ operator-(CQ a) { return {-a.re, -a.im}; }
inline Q cabsq_(CQ a) { return hypotq(a.re, a.im); }
inline CQ clogq_(CQ a) {
   // accurate near |a| = 1
   Q r = hypotq(a.re, a.im);
   Q l;
   if (r > Q(0.5) && r < Q(2)) { Q t = (a.re - 1)*(a.re + 1) + a.im*a.im; l = log1pq(t)/2; }
   else l = logq(r);
   return {l, atan2q(a.im, a.re)};
}
inline CQ clog1pq_(CQ a) {
   Q t = a.re*(a.re + 2) + a.im*a.im;
   Q l = (t > Q(-0.75)) ? log1pq(t)/2 : logq(hypotq(1 + a.re, a.im));
   return {l, atan2q(a.im, 1 + a.re)};
}

// complex Taylor models
struct CT { TM re, im; };
inline CT cmul(const CT& a, const CT& b) {
   CT r;
   r.re = tadd(tmul(a.re, b.re), tmul(a.im, b.im), -1);
   r.im = tadd(tmul(a.re, b.im), tmul(a.im, b.re));
   return r;
}
// log(c + d) where c is the complex centre and d = (x - xc) + i (y - yc);
// centre value given (so that log1p keeps its relative accuracy)
inline bool clog_series(const TM& X, const TM& Y, Q cx, Q cy, CQ centre, CT& out, Q sx = 0) {
   // X,Y: argument (X may be argument minus sx), expansion point (cx,cy)
   const R n = (R)(cx*cx + cy*cy);
   if (!(n > 0)) return false;
   TM dx = X, dy = Y;
   dx.c[0] = 0; dy.c[0] = 0;           // expansion point is exactly c0 of X,Y (+sx)
   const R ix = (R)(cx/(cx*cx + cy*cy)), iy = (R)(cy/(cx*cx + cy*cy));
   CT w;
   w.re = tadd(tscale(dx, ix), tscale(dy, iy));
   w.im = tadd(tscale(dy, ix), tscale(dx, iy), -1);
   const R q = hypotl(w.re.mag(), w.im.mag())*(1 + 0x1p-50L);
   if (!(q < 0.95L)) return false;
   int K = std::max(B.D, 3);
   if (w.re.absum() + w.im.absum() == 0) K = 3;
   // relative contribution negligible?
   CT s; s.re = TM(((K & 1) ? 1.0L : -1.0L)/K); s.im = TM(0.0L);
   for (int k = K - 1; k >= 1; k--) { s = cmul(s, w); s.re = taddc(s.re, ((k & 1) ? 1.0L : -1.0L)/k); }
   s = cmul(s, w);
   const R rem = powl(q, K + 1)/((K + 1)*(1 - q)) + 8*EPS*q;
   s.re.rem += rem; s.im.rem += rem;
   const R lr = (R)centre.re, li = (R)centre.im;
   s.re = taddc(s.re, lr); s.im = taddc(s.im, li);
   s.re.rem += 4*EPS*fabsl(lr); s.im.rem += 4*EPS*fabsl(li);
   out = s;
   return true;
}
