// Independent oracle: polylogarithm of integer order in quadruple precision and
// rigorous-tail Taylor expansions of it.  (Not derived from the code under test.)
#pragma once
#include "tmx.hpp"

static const Q PIQ = 3.14159265358979323846264338327950288419716939937510Q;

struct Ref {
   static const int NZ = 700;
   bool big = false;      // order >= 200 and |z| <= 2^(order/3) : four terms of the series are exact to 1e-30
   std::vector<Q> zpos, zneg, ifac, fac, harm;
   std::map<int, std::vector<Q>> kpow;        // order -> k^-order
   Ref() {
      // zeta(s), s >= 2 (Borwein), s up to NZ
      const int n = 64;
      std::vector<Q> d(n + 1);
      Q s = 0;
      // d_k = n * sum_{i=0..k} (n+i-1)! 4^i / ((n-i)! (2i)!)
      Q term = Q(1)/n;                   // i = 0 : (n-1)!/n! = 1/n
      for (int i = 0; i <= n; i++) {
         s += term; d[i] = n*s;
         // term_{i+1}/term_i = (n+i)(n-i)*4/((2i+1)(2i+2))
         term *= Q(n + i)*Q(n - i)*4/(Q(2*i + 1)*Q(2*i + 2));
      }
      zpos.assign(NZ + 2, 1);
      for (int m = 2; m <= NZ + 1; m++) {
         if (m > 130) { zpos[m] = 1 + powq(2, -m); continue; }
         Q t = 0;
         for (int k = 0; k < n; k++) t += ((k & 1) ? -1 : 1)*(d[k] - d[n])*powq(Q(k + 1), -Q(m));
         zpos[m] = -t/(d[n]*(1 - powq(2, 1 - m)));
      }
      fac.assign(NZ + 2, 1); ifac.assign(NZ + 2, 1);
      for (int k = 1; k <= NZ + 1; k++) { fac[k] = fac[k - 1]*k; ifac[k] = ifac[k - 1]/k; }
      zneg.assign(NZ + 1, 0);                 // zneg[m] = zeta(-m)
      zneg[0] = Q(-0.5);
      for (int m = 1; m <= NZ; m += 2)
         zneg[m] = (((m + 1)/2) % 2 ? -1 : 1)*2*fac[m]*zpos[m + 1]*powq(2*PIQ, -(m + 1));
      harm.assign(NZ + 1, 0);
      for (int k = 1; k <= NZ; k++) harm[k] = harm[k - 1] + Q(1)/k;
   }
   Q zeta(int s) const { return s >= 2 ? (s <= NZ ? zpos[s] : Q(1)) : zneg[-s]; }
   const std::vector<Q>& kp(int n) {
      auto it = kpow.find(n);
      if (it != kpow.end()) return it->second;
      std::vector<Q> v(402);
      for (int k = 1; k <= 401; k++) {
         Q b = n >= 0 ? Q(1)/Q(k) : Q(k), r = 1; int e = std::abs(n);
         while (e) { if (e & 1) r *= b; b *= b; e >>= 1; }
         v[k] = r;
      }
      return kpow[n] = v;
   }
   // Li_n(z); side = -1: z real > 1 is taken as z - i0 (+1: z + i0)
   CQ li(int n, CQ z, int side) {
      const Q a = cabsq_(z);
      if (a == 0) return {0, 0};
      if (z.re == 1 && z.im == 0) return {n >= 2 ? zeta(n) : Q(1)/Q(0), 0};
      if (big) {
         CQ s = z, zk = z;
         for (int k = 2; k <= 4; k++) { zk = zk*z; s = s + zk*powq(Q(k), -Q(n)); }
         return s;
      }
      if (a <= Q(0.6)) {
         const auto& p = kp(n);
         CQ s{0, 0}, zk = z;
         for (int k = 1; k <= 400; k++) {
            CQ t = zk*p[k];
            s = s + t;
            if (k > 3 && k > -2*n && cabsq_(t) < Q(1e-37)*cabsq_(s)) break;
            zk = zk*z;
         }
         return s;
      }
      if (a <= Q(1.7)) return li_log(n, clogq_(z), z, side);
      // inversion
      CQ inv = CQ{1, 0}/z;
      CQ r = li(n, inv, -side);
      if (n % 2 == 0) r = -r;
      if (n < 0) return r;
      if (n == 0) return r - CQ{1, 0};
      CQ l = clogq_(-z);
      if (z.im == 0 && z.re > 0) l = {logq(z.re), side < 0 ? PIQ : -PIQ};
      return r - inv_poly(n, l);
   }
   // sum_{k} : (2 pi i)^n/n! B_n(1/2 + l/(2 pi i)),  l = log(-z)
   CQ inv_poly(int n, CQ l) {
      // = l^n/n! + 2 sum_{k=1}^{n/2} eta(2k) l^(n-2k)/(n-2k)!
      std::vector<CQ> pw(n + 1);
      pw[0] = {1, 0};
      for (int k = 1; k <= n; k++) pw[k] = pw[k - 1]*l;
      CQ s = pw[n]*ifac[n];
      for (int k = 1; 2*k <= n; k++) {
         Q eta = (1 - powq(2, 1 - 2*k))*zeta(2*k);
         s = s + pw[n - 2*k]*(2*eta*ifac[n - 2*k]);
      }
      return s;
   }
   CQ li_log(int n, CQ w, CQ z, int side) {
      CQ lm;                       // log(-w)
      if (z.im == 0 && z.re > 1) lm = {logq(w.re), side < 0 ? PIQ : -PIQ};
      else lm = clogq_(-w);
      CQ s{0, 0}, wk{1, 0};
      const Q tiny = Q(1e-38);
      int small = 0;
      for (int k = 0; k <= 600; k++) {
         CQ t;
         if (n >= 1 && k == n - 1) {
            t = wk*ifac[k];
            t = t*(CQ{harm[n - 1], 0} - lm);
         } else t = wk*(zeta(n - k)*ifac[k]);
         s = s + t;
         if (k > n + 2) { small = cabsq_(t) <= tiny*cabsq_(s) ? small + 1 : 0; if (small > 3) break; }
         wk = wk*w;
      }
      if (n <= 0) {
         // m! (-w)^-(m+1)
         int m = -n;
         CQ iw = CQ{1, 0}/(-w), p = iw;
         for (int k = 0; k < m; k++) p = p*iw;
         s = s + p*fac[m];
      }
      return s;
   }
   // bound of |Li_n| where |z'| <= zmax, |1-z'| >= d1, on the principal or adjacent sheet, L >= |log z'|
   R mbound(int n, R zmax, R d1, R L) const {
      if (big) return 2*zmax;
      if (n >= 2) {
         R s = 0, p = 1;
         for (int j = 0; j <= n; j++) { s += p; p *= L/(j + 1); }
         R q = 1;
         for (int j = 1; j <= n - 1; j++) q *= L/j;
         return 2 + 4*s + 4*3.15L*2*q;
      }
      if (n == 1) return fabsl(logl(d1)) + logl(2 + zmax) + 14;
      const int m = -n;
      R s = zmax*powl(std::max((R)1, zmax), (R)std::max(0, m - 1));
      for (int k = 1; k <= m; k++) s *= k;
      return s*powl(1/d1, (R)(m + 1)) + 0x1p-60L;
   }
   // Taylor coefficients b_0..b_K of Li_n(zc + d) in d; R1/M for the tail
   void taylor_z(int n, CQ zc, int side, int K, std::vector<CQ>& b, R& R1, R& M) {
      const Q a = cabsq_(zc);
      const R rad = (R)cabsq_(CQ{zc.re - 1, zc.im});
      R1 = 0.8L*rad;
      const R zmax = (R)a + R1, d1 = 0.2L*rad;
      const R L = fabsl(logl(std::max((R)1, zmax))) + 7, zlow = (R)a - R1;
      M = mbound(n, zmax, d1, L);
      // sharper: bound the j-th derivative sum_i |s(j,i)| |Li_{n-i}| / |z|^j on the disc, j <= n
      if (n >= 1 && !big && zlow > 0.15L) {
         std::vector<R> st(1, 1);                       // unsigned Stirling numbers of the first kind s(j,.)
         R fac = 1, rp = 1;
         for (int j = 1; j <= n && j <= K; j++) {
            std::vector<R> s2(j + 1, 0);
            for (int i = 0; i <= j; i++) s2[i] = (i ? st[i - 1] : 0) + (i < j ? (j - 1)*st[i] : 0);
            st = s2;
            R Mj = 0; for (int i = 1; i <= j; i++) Mj += st[i]*mbound(n - i, zmax, d1, L);
            fac *= (K + 2 - j); rp *= R1/zlow;
            const R me = Mj*rp/fac*1.0001L;
            if (me < M) M = me;
         }
      }
      b.assign(K + 1, {0, 0});
      if (a < Q(0.45)) {
         const auto& p = kp(n);
         for (int k = 0; k <= K; k++) {
            CQ s{0, 0}, zp{1, 0};
            Q binom = 1;
            const int m0 = std::max(k, 1);
            if (k == 0) zp = zc;
            for (int m = m0; m <= 400; m++) {
               CQ t = zp*(binom*p[m]);
               s = s + t;
               if (m > m0 + 3 && m > 3*k - 3*std::min(n, 0) && cabsq_(t) <= Q(1e-36)*cabsq_(s)) break;
               binom *= Q(m + 1)/Q(m + 1 - k);
               zp = zp*zc;
            }
            b[k] = s;
         }
         return;
      }
      std::vector<CQ> cur(K + 1), prev(K + 1);
      for (int m = n - K; m <= n; m++) {
         cur[0] = li(m, zc, side);
         for (int k = 1; k <= K - (n - m); k++) {
            // needs prev[k-1] of order m-1
            cur[k] = (prev[k - 1] - cur[k - 1]*Q(k - 1))/(zc*Q(k));
         }
         // orders below n-K+k only know fewer coefficients: restart the triangle
         std::swap(cur, prev);
      }
      b = prev;
   }
   // Taylor coefficients in w = log z at wc
   void taylor_w(int n, CQ wc, int side, int K, std::vector<CQ>& a, R& R1, R& M) {
      CQ zc;
      Q e = expq(wc.re);
      zc = {e*cosq(wc.im), e*sinq(wc.im)};
      if (wc.im == 0) zc.im = 0;
      Q d = cabsq_(wc);
      for (int k = -3; k <= 3; k++) d = fminq(d, cabsq_(CQ{wc.re, wc.im - 2*k*PIQ}));
      R1 = 0.8L*(R)d;
      const R L = (R)cabsq_(wc) + R1 + 7;
      if (n <= 0) {
         R f = 1; for (int k = 1; k <= -n; k++) f *= k;
         M = 8*f*std::max((R)1, powl(1/(0.2L*(R)d), 1 - n));
      } else if (big) M = 2*expl((R)wc.re + R1);
      else if (K > n + 1) M = 8*std::max((R)1, 1/(0.2L*(R)d))*powl(R1, n)/powl((R)(K + 2 - n), n);
      else M = mbound(n, expl(std::min((R)10, (R)wc.re + R1)), std::min((R)0.5, 0.1L*(R)d), L) + L;
      a.resize(K + 1);
      for (int k = 0; k <= K; k++) a[k] = li(n - k, zc, side)*ifac[k];
   }
   // Li_n(e^{i theta})
   CQ li_theta(int n, Q th) {
      Q k = nearbyintq(th/(2*PIQ)); Q t = th - k*2*PIQ;
      if (t == 0) return {n >= 2 ? zeta(n) : Q(1)/Q(0), 0};
      if (big) return li(n, {cosq(t), sinq(t)}, -1);
      CQ s = li_log(n, {0, t}, {cosq(t), sinq(t)}, -1);
      return s;
   }
   void taylor_theta(int n, Q th, int K, std::vector<CQ>& a, R& R1, R& M) {
      Q k = nearbyintq(th/(2*PIQ)); Q t = th - k*2*PIQ; R d = (R)fabsq(t);
      R1 = 0.8L*d;
      if (t == 0) { a.assign(K + 1, {0, 0}); a[0] = li_theta(n, th); M = 0; return; }
      // |Li_0(e^w)| <= 8 max(1, 1/(0.2 d)) on the disc, integrate n times
      M = 8*std::max((R)1, 1/(0.2L*d));
      if (big) { R1 = 1; M = 2*expl(R1); }
      else if (n >= 1) M *= powl(R1, n)/powl((R)std::max(1, K + 2 - n), n);
      a.resize(K + 1);
      for (int j = 0; j <= K; j++) a[j] = li_theta(n - j, t)*ifac[j];
   }
   // polynomial in the box parameters: sum c_k (hx s + i hy t)^k
   CT expand(const std::vector<CQ>& c, CQ hs, CQ ht, R R1, R M) {
      CT r; r.re = TM(0.0L); r.im = TM(0.0L);
      const int K = (int)c.size() - 1;
      const R rho = (R)(cabsq_(hs) + cabsq_(ht));
      const R rho2 = (R)sqrtq(cabsq_(hs)*cabsq_(hs) + cabsq_(ht)*cabsq_(ht));
      const R rr = std::min(rho, rho2*(1 + 0x1p-40L));   // |d| <= hypot for hs real, ht imaginary
      R tail = 0;
      std::vector<CQ> ps(B.D + 1), pt(B.D + 1);
      ps[0] = pt[0] = {1, 0};
      for (int k = 1; k <= B.D; k++) { ps[k] = ps[k - 1]*hs; pt[k] = pt[k - 1]*ht; }
      R ab = 0, ab2 = 0;
      for (int k = 0; k <= K; k++) {
         if (k > B.D) { tail += (R)cabsq_(c[k])*powl(rr, k); continue; }
         for (int j = 0; j <= (B.nv > 1 ? k : 0); j++) {
            Q bin = fac[k]*ifac[j]*ifac[k - j];
            CQ v = c[k]*(ps[k - j]*pt[j])*bin;
            const int ix = B.idx[k - j][j];
            r.re.c[ix] += (R)v.re; r.im.c[ix] += (R)v.im;
            ab += fabsl((R)v.re); ab2 += fabsl((R)v.im);
         }
      }
      const R q = rr/R1;
      if (q < 0.99L) tail += M*powl(q, K + 1)/(1 - q); else tail = RINF;
      if (rr == 0) tail = 0;
      r.re.rem += tail*1.0001L + 2*EPS*ab; r.im.rem += tail*1.0001L + 2*EPS*ab2;
      return r;
   }
};
