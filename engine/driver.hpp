// Covers, oracle comparison, z3 discharge and parallel driver.
#pragma once

struct Job {
   std::string id, func, replay, kind = "li", cover = "cplx"; int ty = F64; int64_t n = 2; R tol = 1e-13L, ymin = 0, d1min = 0; bool hasn = false, cplx = true, term = false; int cond = 0;
   int D2 = 10, D1 = 16, maxdepth = 10, jobs = 8, side = -1; R xmax = 64, rmin = 0, rmax = 0; double budget = 600;
};
struct Box { int chart; R a0, a1, b0, b1; int sx, sy; int depth; };
static Job J; static Ref* REF;
static int rn() { return J.n > 3000 ? 3000 : J.n < -3000 ? -3000 : (int)J.n; }      // order of the reference: beyond 3000 the same in quadruple precision
static void refZ(int n, CQ zc, int side, int K, std::vector<CQ>& b, R& R1, R& M) { REF->taylor_z(n, zc, side, K, b, R1, M); }
static void refW(int n, CQ wc, int side, int K, std::vector<CQ>& b, R& R1, R& M) { REF->taylor_w(n, wc, side, K, b, R1, M); }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static R nextf(int ty, R x, bool up) {
   if (ty == F32) return nextafterf((float)x, up ? 1e39f : -1e39f);
   if (ty == F64) return nextafter((double)x, up ? 1e309 : -1e309);
   return nextafterl(x, up ? RINF : -RINF);
}
struct Stats { long maxsteps = 0, boxes = 0, excl = 0, leaves = 0, queries = 0, sat = 0, splits = 0, depth = 0; double z3s = 0; R worst = 0; std::vector<std::string> inc, viol; } ST;

// ------------------------------------------------------------- real function
typedef void (*rfn)(const void*, void*, long); typedef void (*nfn)(const int64_t*, const void*, void*, long);
static void* LIBH; static void* RFN;
static void native(R x, R y, R& re, R& im) {
   alignas(16) unsigned char in[32] = {0}, out[32] = {0}; const int sz = J.ty == F32 ? 4 : J.ty == F64 ? 8 : 16;
   auto put = [&](int k, R v) { if (J.ty == F32) ((float*)in)[k] = v; else if (J.ty == F64) ((double*)in)[k] = v; else ((R*)in)[k] = v; };
   auto get = [&](int k) -> R { return J.ty == F32 ? ((float*)out)[k] : J.ty == F64 ? ((double*)out)[k] : ((R*)out)[k]; };
   put(0, x); if (J.cplx) put(1, y);
   if (J.hasn) { int64_t k = J.n; ((nfn)RFN)(&k, in, out, 1); } else ((rfn)RFN)(in, out, 1);
   re = get(0); im = J.cplx ? get(1) : 0; (void)sz;
}
static void oracle(R x, R y, Q& re, Q& im) {
   if (J.kind == "li") {
      CQ z = {(Q)x, (Q)y}; CQ v = REF->li(rn(), z, J.side);
      re = v.re; im = v.im; if ((y == 0 && x <= 1) || !J.cplx) im = 0;
   } else {
      CQ v = REF->li_theta(rn(), (Q)x);
      bool sine = (J.kind == "cl") == (J.n % 2 == 0); re = sine ? v.im : v.re; im = 0;
   }
}
static R condfac(R ax, R d1) {              // documented conditioning factor of the tolerance
   R f = 1;
   if (J.kind != "li") { f = std::max((R)1, ax); if (J.n == 1 && ax > 3) f /= std::min((R)1, d1); }
   else if (J.cond == 1) f = std::max((R)1, tgammal(1 + std::abs(J.n))*std::max((R)1, ax)/d1);   // n < 0
   else if (J.cond == 2) f = std::max((R)1, logl(ax)/32);                                      // inversion for n > 6
   return f;
}
static R distpi(R x) { const Q k = nearbyintq((Q)x/(2*PIQ)); return (R)fabsq((Q)x - k*2*PIQ); }
// error / allowed error at a point, on the real build
static R pointRatio(R x, R y, std::string* desc = nullptr) {
   R re, im; Q tr, ti; native(x, y, re, im); oracle(x, y, tr, ti);
   const R ab = J.cplx ? hypotl(x, y) : fabsl(x); const R d1 = J.kind == "li" ? hypotl(x - 1, y) : distpi(x);
   R tm = (R)hypotq(tr, ti); R sc = std::max(tm, std::min((R)1, ab))*condfac(ab, d1);
   R e = std::max(fabsl((R)((Q)re - tr)), fabsl((R)((Q)im - ti)));   // max norm
   if (!(re == re) || !(im == im)) e = RINF; R r = e/(J.tol*sc); if (!(e == e)) r = RINF;
   if (desc) { char b[400]; snprintf(b, 400, "{\"x\":\"%.21Lg\",\"y\":\"%.21Lg\",\"xa\":\"%La\",\"ya\":\"%La\",\"got\":[\"%.21Lg\",\"%.21Lg\"],\"want\":[\"%.21Lg\",\"%.21Lg\"],\"ratio\":%.4Lg}", x, y, x, y, re, im, (R)tr, (R)ti, std::min(r, (R)1e300L)); *desc = b; }
   return r;
}

// ------------------------------------------------------------- symbolic run
static z3::context* ZC; static z3::solver* ZS; static std::vector<z3::expr>* ZM; static int ZND = -1, ZNV = -1;
static void initz3() {
   if (ZND == B.D && ZNV == B.nv) return;
   delete ZS; delete ZM; if (!ZC) ZC = new z3::context();
   ZS = new z3::solver(*ZC, "QF_LRA"); ZM = new std::vector<z3::expr>();
   z3::params p(*ZC); p.set("timeout", 20000u); ZS->set(p);
   for (int i = 0; i < B.N; i++) {
      z3::expr m = ZC->real_const(("m" + std::to_string(B.ei[i]) + "_" + std::to_string(B.ej[i])).c_str());
      ZM->push_back(m); if (i == 0) ZS->add(m == 1);
      else { ZS->add(m <= 1); if (!(B.ei[i] & 1) && !(B.ej[i] & 1)) ZS->add(m >= 0); else ZS->add(m >= -1); }
   }
   ZND = B.D; ZNV = B.nv;
}
// exists a point of the box with |Dre| > bound or |Dim| > bound ?  (true = discharged)
static bool discharge(const TM* d[2], R bound, R& worst, R& ms, R& mt) {
   initz3(); ms = mt = 0;
   for (int k = 0; k < 2; k++) if (d[k] && (!(d[k]->rem < bound) || !(fabsl(d[k]->c[0]) < RINF))) { worst = RINF; return false; }
   if (!(bound > 0)) return false;
   double t0 = now(); ST.queries++;
   ZS->push(); z3::expr_vector ors(*ZC);
   const R SC = 0x1p40L; R w = 0;
   for (int k = 0; k < 2; k++) if (d[k]) {
      const TM& t = *d[k]; R slack = t.rem, sum = t.rem; z3::expr e = ZC->real_val(0); bool any = false;
      for (int i = 0; i < B.N; i++) { sum += fabsl(t.c[i]); if (t.c[i] == 0) continue; if (fabsl(t.c[i]) < 1e-4L*bound) { slack += fabsl(t.c[i]); continue; }
         R q = fabsl(t.c[i]/bound)*SC; if (!(q < 9e18L)) { ZS->pop(); worst = RINF; return false; }
         int64_t iv = (int64_t)ceill(q); slack += bound/SC; if (t.c[i] < 0) iv = -iv; e = e + ZC->real_val(std::to_string(iv).c_str())*(*ZM)[i]; any = true; }
      w = std::max(w, sum/bound);
      R rb = 1 - slack/bound*(1 + 1e-9L); if (!(rb > 0)) { ZS->pop(); worst = RINF; return false; }
      z3::expr b = ZC->real_val(std::to_string((int64_t)floorl(rb*SC)).c_str());
      ors.push_back(e > b); ors.push_back(e < -b); (void)any;
   }
   ZS->add(z3::mk_or(ors)); z3::check_result r = ZS->check();
   bool ok = r == z3::unsat;
   if (ok) worst = w;
   else { ST.sat++; worst = w; if (r == z3::sat) { z3::model m = ZS->get_model(); for (int i = 1; i < B.N; i++) if (B.dg[i] == 1) { z3::expr v = m.eval((*ZM)[i], true); double x = atof(v.get_decimal_string(12).c_str()); (B.ei[i] ? ms : mt) = x; } } }
   ZS->pop(); ST.z3s += now() - t0;
   return ok;
}

// the path condition q = 0 is solved for one variable (contraction, validated) and substituted into d
static bool onCurve(const TM& q, const TM* d[2], TM& e0, TM& e1) {
   if (B.nv < 2) return false;
   for (int var = 0; var < 2; var++) {
      const int li = var == 0 ? B.idx[1][0] : B.idx[0][1]; const R c = q.c[li]; if (c == 0) continue;
      R th = 0; for (int i = 0; i < B.N; i++) if (i != li) th += fabsl(q.c[i])*(var == 0 ? B.ei[i] : B.ej[i]); th /= fabsl(c);
      // |s| <= 1 for the true solution; g may leave [-1,1] slightly, so the contraction is required on [-4,4]
      R th2 = 0; for (int i = 0; i < B.N; i++) if (i != li) { const int e = var == 0 ? B.ei[i] : B.ej[i]; if (e) th2 += fabsl(q.c[i])*e*powl(4, e - 1); } th2 /= fabsl(c);
      if (!(th2 < 0.5L)) continue;
      auto subst = [&](const TM& p, const TM& G) {       // p(G, t) by Horner in the solved variable
         TM acc(0.0L); bool first = true;
         for (int k = B.D; k >= 0; k--) { TM row(0.0L); for (int i = 0; i < B.N; i++) if ((var == 0 ? B.ei[i] : B.ej[i]) == k) row.c[var == 0 ? B.idx[0][B.ej[i]] : B.idx[B.ei[i]][0]] += p.c[i]; if (!first) acc = tadd(tmul(acc, G), row, 1); else acc = row; first = false; }
         acc.rem += p.rem; return acc;
      };
      TM F = q; F.c[li] = 0; F.rem = 0; TM G(0.0L);
      for (int it = 0; it < B.D + 8; it++) { G = tscale(subst(F, G), -1/c); G.rem = 0; }
      TM res = tadd(tscale(subst(F, G), -1/c), G, -1); R e = (res.mag() + q.rem/fabsl(c) + 8*EPS*G.mag())/(1 - th2)*1.001L;
      if (!(G.mag() + e < 4)) continue;
      G.rem = e;
      if (d[0]) e0 = subst(*d[0], G); if (d[1]) e1 = subst(*d[1], G);
      return true;
   }
   return false;
}
static int chartvars(int c) { return (c == 2 || c == 3) ? 2 : 1; }
static void boxpoint(const Box& b, R s, R t, R& x, R& y) {
   R u = (b.a0 + b.a1)/2 + s*(b.a1 - b.a0)/2, v = (b.b0 + b.b1)/2 + t*(b.b1 - b.b0)/2;
   u = std::min(std::max(u, b.a0), b.a1); v = std::min(std::max(v, b.b0), b.b1);
   switch (b.chart) {
   case 0: x = u; y = 0; break;
   case 1: x = b.sx*expl(u); y = 0; break;
   case 2: x = u; y = v; break;
   case 3: x = b.sx*expl(u)*cosl(v); y = b.sy*expl(u)*sinl(v); break;
   case 4: x = u; y = b.sy > 0 ? 0.0L : -0.0L; break;
   default: x = b.sx*expl(u); y = b.sy > 0 ? 0.0L : -0.0L;
   }
   x = rty(J.ty, x); y = rty(J.ty, y);
}
static Val inVal(int ty, const TM& t, R lo, R hi) {
   Val v; v.k = Val::S; v.ty = ty; v.tm = P(t); v.lo = lo; v.hi = hi; v.node = (int)nodes.size(); nodes.push_back({N_IN, 0, 0, 0, 0}); nval.push_back(v); nval.back() = v; return v;
}
// initial state: the entry function applied to (order,) symbolic argument
static int setupCall(State& s, const Val& vx, const Val& vy) {
   Fn& fn = fns[fidx[J.func]]; usedfn.insert(fidx[J.func]);
   Frame f; f.f = fidx[J.func]; f.b = fn.entry; f.ip = 0; f.prev = -1; f.r.resize(fn.nreg);
   size_t p = 0; int outobj = 0; const int sz = J.ty == F32 ? 4 : J.ty == F64 ? 8 : 16;
   auto obj = [&]() { Val v; v.k = Val::P; v.ty = PTR; v.base = s.nobj++; v.i = 0; s.mem[v.base].size = 2*sz; return v; };
   int nptr = 0; for (int t : fn.pty) nptr += t == PTR;
   int inobj = 0;
   if (J.hasn && fn.pty[p] == INT) { f.r[fn.preg[p++]] = mkI(J.n); }
   if (nptr == 2 && J.cplx) { Val o = obj(); outobj = o.base; f.r[fn.preg[p++]] = o; if (J.hasn && p < fn.pty.size() && fn.pty[p] == INT) f.r[fn.preg[p++]] = mkI(J.n); }
   if (p < fn.pty.size() && fn.pty[p] == PTR) { Val o = obj(); inobj = o.base; s.mem[o.base].c[0] = vx; if (J.cplx) s.mem[o.base].c[sz] = vy; f.r[fn.preg[p++]] = o; }
   else { f.r[fn.preg[p++]] = vx; if (J.cplx) f.r[fn.preg[p++]] = vy; }
   s.fr.push_back(std::move(f));
   return outobj;
}
enum Res { PASS, SPLIT, SPLITC, VIOL };
static SplitAt lastSplit; static std::string lastReason; static bool RAWFORK = false;

// only the end of every path is asked for: each loop test must be decided within UNWIND undecided iterations, each path within STEPMAX steps
static Res evalTerm(State& s, const Val& vx, const Val& vy) {
   setupCall(s, vx, vy); std::vector<State> work; work.push_back(std::move(s));
   try {
      while (!work.empty()) {
         State st = std::move(work.back()); work.pop_back(); Leaf lf;
         if (!runState(st, work, lf)) continue;
         ST.leaves++;
      }
      if (!parked.empty()) { lastReason = "unmerged paths"; return SPLIT; }
   } catch (SplitAt& sp) { lastSplit = sp; return SPLITC; }
   catch (TooManyForks&) { lastReason = "forks"; return SPLIT; }
   catch (Unsupported& u) { lastReason = std::string("unsupported: ") + u.what(); return SPLIT; }
   ST.maxsteps = std::max(ST.maxsteps, steps);
   return PASS;
}
static Res evalBox(const Box& b) {
   ST.boxes++; nodes.clear(); nval.clear(); ncons.clear(); nconst.clear(); sbs.clear(); steps = 0; nforks = 0; parked.clear();
   const int nv = chartvars(b.chart); const bool point = b.a0 == b.a1;
   R x0, x1, y0 = 0, y1 = 0;           // interval hull of x, y
   const bool logc = b.chart == 1 || b.chart == 3 || b.chart == 5;
   const R uc = rty(F80, (b.a0 + b.a1)/2), vc = (b.b0 + b.b1)/2, hu = std::max(b.a1 - uc, uc - b.a0), hv = nv > 1 ? std::max(b.b1 - vc, vc - b.b0) : 0;
   R zmin, zmax;
   if (!logc) { x0 = b.a0; x1 = b.a1; if (nv > 1) { y0 = b.b0; y1 = b.b1; } }
   int D = nv > 1 ? J.D2 : J.D1;
   if (!logc) { R m = std::max(std::max(fabsl(x0), fabsl(x1)), std::max(fabsl(y0), fabsl(y1))); if (J.kind == "li") { if (m < 1e-10L) D = std::min(D, 3); else if (m < 1e-4L) D = std::min(D, 5); } }
   if (point && nv == 1) D = 2;
   B.init(nv, D);
   CH = Chart(); CH.kind = b.chart; CH.sx = b.sx; CH.sy = b.sy;
   State s; Val vx, vy;
   const R PI = 3.14159265358979323846264338327950288L;
   if (logc) {
      CH.u0 = b.a0; CH.u1 = b.a1; CH.v0 = b.b0; CH.v1 = b.b1;
      TM U(uc); U.c[B.idx[1][0]] = hu; U.rem = EPS*fabsl(uc); CH.U = P(U);
      if (nv > 1) { TM V(vc); V.c[B.idx[0][1]] = hv; V.rem = EPS*fabsl(vc); CH.V = P(V); }
      R e0 = expl(b.a0)*(1 - 1e-17L), e1 = expl(b.a1)*(1 + 1e-17L); R cmin = nv > 1 ? cosl(b.b1) : 1, cmax = nv > 1 ? cosl(b.b0) : 1, smin = nv > 1 ? sinl(b.b0) : 0, smax = nv > 1 ? sinl(b.b1) : 0;
      x0 = e0*cmin*(1 - 1e-16L) - (cmin <= 0 ? e1 : 0)*0; x1 = e1*cmax*(1 + 1e-16L); if (cmin < 1e-15L) x0 = -1e-15L*e1;
      if (b.sx < 0) { R t = -x0; x0 = -x1; x1 = t; }
      y0 = e0*smin*(1 - 1e-16L); y1 = e1*smax*(1 + 1e-16L); if (b.sy < 0) { R t = -y0; y0 = -y1; y1 = t; }
      x0 = std::max(x0, -FMAX[J.ty]); x1 = std::min(x1, FMAX[J.ty]); y0 = std::max(y0, -FMAX[J.ty]); y1 = std::min(y1, FMAX[J.ty]);
      if (nv > 1 && J.ymin == 0) { if (b.sy > 0) y0 = std::max(y0, DMIN[J.ty]); else y1 = std::min(y1, -DMIN[J.ty]); }
      if (x0 > x1 || y0 > y1) { ST.excl++; return PASS; }      // no such number
      PTM ex = hu <= 0.7L ? texp(U) : nullptr;
      TM tx, ty_;
      if (ex) { if (nv > 1) { PTM c = tsincos(*CH.V, true), sn = tsincos(*CH.V, false); tx = tscale(tmul(*ex, *c), b.sx); ty_ = tscale(tmul(*ex, *sn), b.sy); } else tx = tscale(*ex, b.sx); }
      vx = inVal(J.ty, tx, x0, x1); if (!ex) vx.tm = nullptr; CH.in0 = vx.node;
      if (nv > 1) { vy = inVal(J.ty, ty_, y0, y1); if (!ex) vy.tm = nullptr; CH.in1 = vy.node; }
      zmin = e0; zmax = e1;
   } else {
      if (point) { vx = mkX(J.ty, b.a0); if (nv > 1) CH.in0 = -1; }
      else { TM X(uc); X.c[B.idx[1][0]] = hu; vx = inVal(J.ty, X, x0, x1); CH.in0 = vx.node; }
      if (nv > 1) { if (b.b0 == b.b1) vy = mkX(J.ty, b.b0); else { TM Y(vc); Y.c[B.idx[0][1]] = hv; vy = inVal(J.ty, Y, y0, y1); CH.in1 = vy.node; } }
      auto mn = [](R l, R h) { return l > 0 ? l : h < 0 ? -h : (R)0; };
      zmin = hypotl(mn(x0, x1), mn(y0, y1)); zmax = hypotl(std::max(fabsl(x0), fabsl(x1)), std::max(fabsl(y0), fabsl(y1)));
   }
   if (J.cplx && nv == 1) { vy = mkX(J.ty, b.sy > 0 ? 0.0L : -0.0L); CH.in1 = nodeof(vy); if (b.chart == 4) CH.in1 = -1; }
   if (J.kind == "li" && J.n <= 1 && b.a0 == 1 && b.a1 == 1 && (nv == 1 || (b.b0 == 0 && b.b1 == 0))) { ST.excl++; return PASS; }   // the pole z = 1
   // Clausen functions of order 1 : logarithmic poles at 2 pi k (k != 0), excluded within 1e-6
   if (J.kind != "li" && J.n == 1 && fabsl(uc) > 3 && distpi(uc) + hu < 1e-6L) { ST.excl++; return PASS; }
   // ---- oracle
   if (J.term) return evalTerm(s, vx, vy);
   CT rf; R R1, M; const int K = (point && nv == 1) ? 2 : nv > 1 ? std::max(B.D + 6, 18) : B.D + 10; std::vector<CQ> co;
   if (hu == 0 && hv == 0) {
      Q a, c; oracle(b.a0, nv > 1 ? b.b0 : 0, a, c); rf.re = TM((R)a); rf.im = TM((R)c); rf.re.rem = 2*EPS*fabsl((R)a); rf.im.rem = 2*EPS*fabsl((R)c);
   } else if (J.kind == "li") {
      if (logc) {
         CQ wc; Q th = nv > 1 ? (Q)vc : 0; if (b.sx < 0) th = PIQ - th; if (b.sy < 0) th = -th; wc = {(Q)uc, th};
         CQ hs = {(Q)hu, 0}, ht = {0, (Q)(hv*b.sx*b.sy)};
         Q dd = cabsq_(wc); if ((R)dd*0.8L*0.6L < hypotl(hu, hv)) return SPLIT;
         refW(rn(), wc, J.side, K, co, R1, M); rf = REF->expand(co, hs, ht, R1, M);
         R ext = (EPS*fabsl(uc)*2 + EPS*4)*2*(R)cabsq_(co.size() > 1 ? co[1] : CQ{0, 0}); rf.re.rem += ext; rf.im.rem += ext;
      } else {
         CQ zc = {(Q)uc, nv > 1 ? (Q)vc : (Q)0}; CQ hs = {(Q)hu, 0}, ht = {0, (Q)hv};
         R rad = (R)cabsq_(CQ{zc.re - 1, zc.im}); if (0.8L*rad*0.6L < hypotl(hu, hv)) { lastReason = "radius"; if (hypotl(hu, hv) > 0x1p-50L || hu > 0) { if (!(zmax < 3 && zmin > 0.5L && hypotl(hu, hv) < 0x1p-40L)) return SPLIT; } }
         if (0.8L*rad*0.6L < hypotl(hu, hv)) {
            // lump at z = 1 : Li_n(1) for n >= 2 with the modulus of continuity
            if (J.n < 2) return SPLIT;
            R dl = rad + hypotl(hu, hv); rf.re = TM((R)REF->zeta(rn())); rf.im = TM(0.0L); R ml = J.n == 2 ? dl*(fabsl(logl(dl)) + 8) : 4*dl; rf.re.rem = rf.im.rem = ml + 2*EPS; 
         } else { const int Kz = rad < 1e-20L ? std::max(4, std::min(K, (int)(4000/-log10l(rad)))) : K; refZ(rn(), zc, J.side, Kz, co, R1, M); rf = REF->expand(co, hs, ht, R1, M); }
      }
      if (J.cplx && nv == 1) { if (x1 <= 1) rf.im = TM(0.0L); }
   } else {
      CQ wc = {0, (Q)uc}, hs = {0, (Q)hu}; Q dd = 1e30Q; { Q k = nearbyintq((Q)uc/(2*PIQ)); dd = fabsq((Q)uc - k*2*PIQ); }
      if (hu > 0 && (R)dd*0.8L*0.6L < hu) return SPLIT;
      int Kt = K; if ((R)dd < 0.1L && dd > 0) Kt = std::max(4, std::min(K, (int)(4000/-log10l((R)dd))));   // stay inside the exponent range
      REF->taylor_theta(rn(), (Q)uc, Kt, co, R1, M); rf = REF->expand(co, hs, CQ{0, 0}, R1, M);
      bool sine = (J.kind == "cl") == (J.n % 2 == 0); if (sine) rf.re = rf.im; rf.im = TM(0.0L);
   }
   if (!J.cplx) rf.im = TM(0.0L);
   // lower bound of the scale
   R l, h, il, ih; rf.re.range(l, h); rf.im.range(il, ih);
   auto mn = [](R a, R c) { return a > 0 ? a : c < 0 ? -c : (R)0; };
   R tmin = hypotl(mn(l, h), mn(il, ih)); R d1 = 1;
   if (J.kind != "li" && J.n == 1) d1 = distpi(uc) + hu;
   if (J.cond == 1) { R dx = mn(x0 - 1, x1 - 1), dy = mn(y0, y1); (void)dx; (void)dy; R mx = std::max(fabsl(x0 - 1), fabsl(x1 - 1)), my = std::max(fabsl(y0), fabsl(y1)); d1 = hypotl(mx, my); }
   R scale = std::max(tmin, std::min((R)1, zmin))*condfac(zmin, d1);
   if (!(scale > 0)) { lastReason = "scale"; return SPLIT; }
   const R bound = J.tol*scale*(1 - 1e-9L);      // each component
   if (rf.re.rem > 0.5L*bound || rf.im.rem > 0.5L*bound) { lastReason = "oracle"; return SPLIT; }
   // ---- run the code
   const int sz = J.ty == F32 ? 4 : J.ty == F64 ? 8 : 16; const int outobj = setupCall(s, vx, vy);
   std::vector<State> work; work.push_back(std::move(s));
   R mworst = 0; int nl = 0;
   try {
      while (!work.empty()) {
         State st = std::move(work.back()); work.pop_back(); Leaf lf;
         if (!runState(st, work, lf)) continue;      // parked: waits for its siblings
         ST.leaves++; nl++;
         Val re, im; if (outobj) { re = lf.mem[outobj].c[0]; im = lf.mem[outobj].c[sz]; } else { re = lf.ret[0]; if (J.cplx) im = lf.ret[1]; }
         TM dr, di; const TM* d[2] = {nullptr, nullptr};
         auto mkd = [&](const Val& v, const TM& r, TM& o) -> bool { if (!v.num() || !bounded(v)) return false; if (v.k == Val::X && v.ev != v.ev) return false; o = tadd(toTM(v), r, -1); return true; };
         if (!mkd(re, rf.re, dr)) { lastReason = "unbounded result"; return SPLIT; } d[0] = &dr;
         if (J.cplx) { if (!mkd(im, rf.im, di)) { lastReason = "unbounded result"; return SPLIT; } d[1] = &di; }
         R w, ms, mt; bool ok = discharge(d, bound, w, ms, mt);
         if (!ok) for (auto& q : lf.eq) { TM e0, e1; const TM* e[2] = {d[0] ? &e0 : nullptr, d[1] ? &e1 : nullptr}; if (!onCurve(*q, d, e0, e1)) continue; ok = discharge(e, bound, w, ms, mt); if (ok) break; }
         mworst = std::max(mworst, w);
         if (!ok) {
            if (getenv("TMX_DBG2")) { fprintf(stderr, "fail leaf: bound %Lg re: c0 %Lg sum %Lg rem %Lg | im: c0 %Lg sum %Lg rem %Lg | ref rem %Lg %Lg\n", bound, dr.c[0], dr.absum(), dr.rem, d[1] ? di.c[0] : 0, d[1] ? di.absum() : 0, d[1] ? di.rem : 0, rf.re.rem, rf.im.rem); }
            lastReason = "obligation"; 
            R px, py; boxpoint(b, ms, mt, px, py); std::string ds; R r = pointRatio(px, py, &ds); if (r > 1) { ST.viol.push_back(ds); return VIOL; }
            for (int k = -1; k <= 1; k++) { boxpoint(b, 0, k, px, py); if (nv == 2 && py == 0) py = b.b0 > 0 && b.sy > 0 ? DMIN[J.ty] : -DMIN[J.ty];
               r = pointRatio(px, py, &ds); if (r > 1) { ST.viol.push_back(ds); return VIOL; } }
            return SPLIT;
         }
      }
      if (!parked.empty()) { lastReason = "unmerged paths"; return SPLIT; }
   } catch (SplitAt& sp) { lastSplit = sp; return SPLITC; }
   catch (TooManyForks&) { lastReason = "forks"; return SPLIT; }
   catch (Unsupported& u) { lastReason = std::string("unsupported: ") + u.what();
      R px, py; std::string ds; boxpoint(b, 0, 0, px, py); R r = pointRatio(px, py, &ds); if (r > 1) { ST.viol.push_back(ds); return VIOL; }
      return SPLIT; }
   ST.worst = std::max(ST.worst, mworst);
   return PASS;
}
static std::string boxstr(const Box& b) { char t[300]; snprintf(t, 300, "chart %d sx %d sy %d [%.21Lg,%.21Lg]x[%.21Lg,%.21Lg] depth %d", b.chart, b.sx, b.sy, b.a0, b.a1, b.b0, b.b1, b.depth); return t; }
static double TSTART; static bool STOP = false;
static void process(Box b) {
   if (STOP || b.a0 > b.a1) return;
   if (now() - TSTART > J.budget) { if (ST.inc.size() < 20) ST.inc.push_back("budget: " + boxstr(b)); STOP = true; return; }
   ST.depth = std::max(ST.depth, (long)b.depth);
   lastReason.clear(); Res r = evalBox(b);
   if (getenv("TMX_DBG")) fprintf(stderr, "%s -> %d %s\n", boxstr(b).c_str(), r, r == SPLIT ? lastReason.c_str() : "");
   if (r == PASS) return;
   if (r == VIOL) { if (ST.viol.size() >= 3) STOP = true; return; }
   ST.splits++;
   if (r == SPLITC) {
      SplitAt sp = lastSplit; R c = sp.c; if (sp.var == 101) c = -c;
      Box l = b, m = b, h = b; l.depth = m.depth = h.depth = b.depth + 1;
      if (sp.var == 0 || sp.var >= 100) { l.a1 = std::min(b.a1, nextf(J.ty, c, false)); m.a0 = m.a1 = c; h.a0 = std::max(b.a0, nextf(J.ty, c, true)); if (c < b.a0 || c > b.a1) { m.a0 = 1; m.a1 = 0; } if (c <= b.a0) { l.a0 = 1; l.a1 = 0; } if (c >= b.a1) { h.a0 = 1; h.a1 = 0; } }
      else { l.b1 = std::min(b.b1, nextf(J.ty, c, false)); m.b0 = m.b1 = c; h.b0 = std::max(b.b0, nextf(J.ty, c, true)); if (c < b.b0 || c > b.b1) { m.a0 = 1; m.a1 = 0; } if (c <= b.b0) { l.a0 = 1; l.a1 = 0; } if (c >= b.b1) { h.a0 = 1; h.a1 = 0; } }
      process(l); process(m); process(h); return;
   }
   const int nv = chartvars(b.chart); const int md = nv > 1 ? J.maxdepth : 80;
   R wa = b.a1 - b.a0, wb = nv > 1 ? b.b1 - b.b0 : 0;
   bool grid = nv == 1 && (b.chart == 0 || b.chart == 4) && nextf(J.ty, b.a0, true) >= b.a1;
   if (b.depth >= md || (wa == 0 && wb == 0)) { if (ST.inc.size() < 20) ST.inc.push_back(lastReason + ": " + boxstr(b)); else ST.inc.push_back(""); if (ST.inc.size() > 400) STOP = true; return; }
   if (grid) { Box l = b, h = b; l.a1 = l.a0; h.a0 = h.a1; l.depth = h.depth = b.depth + 1; process(l); process(h); return; }
   Box l = b, h = b; l.depth = h.depth = b.depth + 1;
   const R bl = std::min(fabsl(b.b0), fabsl(b.b1)), bh = std::max(fabsl(b.b0), fabsl(b.b1));
   if (lastReason == "forks" && b.chart == 2 && bl > 0 && bh > 3*bl && (b.b0 > 0) == (b.b1 > 0)) { R m = rty(J.ty, sqrtl(bl)*sqrtl(bh)); if (b.b0 < 0) m = -m; l.b1 = m; h.b0 = m; process(l); process(h); return; }
   if (wa >= wb) { R m = b.chart == 0 || b.chart == 4 || b.chart == 2 ? rty(J.ty, (b.a0 + b.a1)/2) : (b.a0 + b.a1)/2; l.a1 = m; h.a0 = m; }
   else { R m = b.chart == 2 ? rty(J.ty, (b.b0 + b.b1)/2) : (b.b0 + b.b1)/2; l.b1 = m; h.b0 = m; }
   process(l); process(h);
}
static void cover(std::vector<Box>& v) {
   const int emin = J.ty == F32 ? -100 : -996; R rmin = J.rmin > 0 ? J.rmin : ldexpl(1, emin); const R rmaxl = J.rmax > 0 ? logl(J.rmax) : (J.ty == F32 ? 88.7228L : J.ty == F64 ? 709.7827L : 11356.0L) + (J.cover == "cplx" && J.ty != F80 ? 0.3466L : 0);   // up to the largest finite components
   auto add = [&](int c, R a0, R a1, R b0, R b1, int sx, int sy) { v.push_back({c, a0, a1, b0, b1, sx, sy, 0}); };
   const R PI = 3.14159265358979323846264338327950288L;
   const R ymin = J.ymin > 0 ? J.ymin : J.ty == F80 ? ldexpl(1, -1074) : 3*DMIN[J.ty], vmin = J.ymin > 0 ? J.ymin : std::max(DMIN[J.ty]/FMAX[J.ty], DMIN[F80]);   // smallest imaginary part, smallest angle
   if (J.cover == "cplx") {
      // shells around 0
      for (R h = 0.125L; h >= rmin; h /= 2) for (int sy = -1; sy <= 1; sy += 2) {
         auto Y = [&](R lo, R hi, R xa, R xb) { if (sy > 0) add(2, xa, xb, lo, hi, 1, 1); else add(2, xa, xb, -hi, -lo, 1, -1); };
         Y(ymin < h ? ymin : h/2, h, h, 2*h); Y(ymin < h ? ymin : h/2, h, -2*h, -h); Y(h, 2*h, h, 2*h); Y(h, 2*h, -2*h, -h); Y(h, 2*h, -h, h);
      }
      // shells around 1
      const int p = J.ty == F32 ? 22 : J.ty == F64 ? 54 : 64; R h = 0.125L;
      for (int k = 3; k <= p && h >= J.d1min; k++, h /= 2) for (int sy = -1; sy <= 1; sy += 2) {
         auto Y = [&](R lo, R hi, R xa, R xb) { if (xb > 1 && xa < 1 && J.ty != F80) {} if (sy > 0) add(2, xa, xb, lo, hi, 1, 1); else add(2, xa, xb, -hi, -lo, 1, -1); };
         Y(ymin, h, 1 + h, 1 + 2*h); Y(ymin, h, 1 - 2*h, 1 - h); Y(h, 2*h, 1 + h, 1 + 2*h); Y(h, 2*h, 1 - 2*h, 1 - h); Y(h, 2*h, 1 - h, 1 + h);
      }
      h *= 2;      // |x - 1| < h : only x = 1 is representable
      for (; h > ymin && h > J.d1min; h /= 2) { R lo = std::max(std::max(ymin, J.d1min), h/2); add(2, 1, 1, lo, h, 1, 1); add(2, 1, 1, -h, -lo, 1, -1); }
      const R g = 0.125L;
      for (R x = -4; x < 4; x += g) for (R y = 0; y < 4; y += g) {
         if (x >= -0.25L && x < 0.25L && y < 0.25L) continue; if (x >= 0.75L && x < 1.25L && y < 0.25L) continue;
         R y0 = std::max(y, ymin); add(2, x, x + g, y0, y + g, 1, 1); add(2, x, x + g, -(y + g), -y0, 1, -1);
      }
      // outside
      R u0 = logl(4.0L) - 0.01L;
      for (R u = u0; u < rmaxl;) { R w = u < 40 ? 0.35L : u*0.06L; if (w > 0.35L && u < 40) w = 0.35L; R u1 = std::min(u + w, rmaxl);
         // |z| within 16 roundoffs of the largest number is left out: hypot may or may not overflow there
         const R lm = logl(FMAX[J.ty]), gap = 16*UU[J.ty]; if (u < lm - gap && u1 > lm - gap) u1 = lm - gap; else if (u >= lm - gap && u < lm + gap) { u = lm + gap; continue; }
         const int na = u < 6 ? 5 : u < 40 ? 4 : 3;
         for (int a = 0; a < na; a++) for (int sx = -1; sx <= 1; sx += 2) for (int sy = -1; sy <= 1; sy += 2) {
            R v0 = a == 0 ? vmin : PI/2*a/na, v1 = PI/2*(a + 1)/na*(a + 1 == na ? 1 + 1e-3L : 1); add(3, u, u1, v0, v1, sx, sy); }
         u = u1; }
   }
   if (J.cover == "crow" || J.cover == "real") {
      for (int sy = -1; sy <= (J.cover == "crow" ? 1 : -1); sy += 2) {
         const int c = J.cover == "crow" ? 4 : 0; const R g = 0.0625L; const R xm = J.cover == "crow" ? 4 : J.xmax;
         for (R h = g/2; h >= rmin; h /= 2) for (int q = 0; q < 2; q++) { add(c, h*(1 + q*0.5L), h*(1.5L + q*0.5L), 0, 0, 1, sy); add(c, -h*(1.5L + q*0.5L), -h*(1 + q*0.5L), 0, 0, 1, sy); }
         for (R x = g; x < xm; ) { R w = x < 4 ? g : x/32; w = std::min(w, xm - x); R x1 = x + w; if (w < g) w = g; if (c && x < 1 + J.d1min && x1 > 1 - J.d1min && J.d1min > 0) { if (x < 1 - J.d1min) add(c, x, 1 - J.d1min, 0, 0, 1, sy); if (x1 > 1 + J.d1min) add(c, 1 + J.d1min, x1, 0, 0, 1, sy); } else add(c, x, x1, 0, 0, 1, sy); add(c, -x1, -x, 0, 0, 1, sy); x = x1; }
         for (R u = logl(xm) - 0.01L; u < rmaxl;) { R w = u < 40 ? 0.3L : u*0.05L; R u1 = std::min(u + w, rmaxl); for (int sx = -1; sx <= 1; sx += 2) add(c + 1, u, u1, 0, 0, sx, sy); u = u1; }
      }
   }
   if (J.cover == "theta") {
      const R g = 0.0625L;
      for (R h = g/2; h >= rmin; h /= 2) for (int q = 0; q < 4; q++) { add(0, h*(1 + q*0.25L), h*(1.25L + q*0.25L), 0, 0, 1, 1); add(0, -h*(1.25L + q*0.25L), -h*(1 + q*0.25L), 0, 0, 1, 1); }
      for (R x = g; x < J.xmax; x += 2*g) { add(0, x, x + 2*g, 0, 0, 1, 1); add(0, -x - 2*g, -x, 0, 0, 1, 1); }
   }
   if (J.cover.compare(0, 5, "point") == 0) {    // point:x,y - translator validation
   }
}
// translator validation : the symbolic executor on concrete inputs against the real build
static bool runPoint(R x, R y, R& re, R& im) {
   nodes.clear(); nval.clear(); ncons.clear(); nconst.clear(); sbs.clear(); steps = 0; nforks = 0; parked.clear(); B.init(1, 2); CH = Chart(); CH.kind = 0;
   State s; const int sz = J.ty == F32 ? 4 : J.ty == F64 ? 8 : 16; const int outobj = setupCall(s, mkX(J.ty, x), mkX(J.ty, y));
   std::vector<State> work; Leaf lf;
   try { if (!runState(s, work, lf) || !work.empty()) return false; } catch (SplitAt&) { return false; } catch (TooManyForks&) { return false; } catch (Unsupported&) { return false; }
   Val a, b; if (outobj) { a = lf.mem[outobj].c[0]; b = lf.mem[outobj].c[sz]; } else { a = lf.ret[0]; if (J.cplx) b = lf.ret[1]; }
   if (a.k != Val::X || (J.cplx && b.k != Val::X)) return false;
   re = a.ev; im = J.cplx ? b.ev : 0; return true;
}
static void validate(int n, uint64_t seed) {
   uint64_t sd = 88172645463325252ULL ^ (seed*0x9E3779B97F4A7C15ULL); auto rnd = [&]() { sd ^= sd << 13; sd ^= sd >> 7; sd ^= sd << 17; return (R)(sd >> 11)/(R)(1ULL << 53); };
   long ok = 0, bad = 0, fail = 0, exact = 0; R worst = 0; std::string smp, badp;
   for (int k = 0; k < n; k++) {
      R x, y = 0;
      if (J.kind == "li") { const int m = k % 4; R r = m == 0 ? rnd() : m == 1 ? 0.5L + rnd() : m == 2 ? expl((rnd() - 0.5L)*20) : 1 + ldexpl(rnd() - 0.5L, -(int)(rnd()*20)); R t = (rnd()*2 - 1)*3.14159L; if (m == 3) t *= ldexpl(1, -(int)(rnd()*20)); if (J.cplx) { x = r*cosl(t); y = k % 7 == 0 ? 0 : r*sinl(t); } else x = k & 1 ? r : -r; }
      else x = (rnd()*2 - 1)*(k & 1 ? 8 : J.xmax);
      x = rty(J.ty, x); y = rty(J.ty, y); R a, b, c, d2; native(x, y, a, b);
      if (!runPoint(x, y, c, d2)) { fail++; continue; }
      R m = hypotl(a, b), e = std::max(fabsl(a - c), fabsl(b - d2)); if (a == c && b == d2) exact++;
      R sc = std::max(m, std::min((R)1, hypotl(x, y)))*condfac(hypotl(x, y), J.kind == "li" ? hypotl(x - 1, y) : distpi(x));
      R q = e/(J.tol*sc); if (!(q <= 1) && (m == m || c == c)) { bad++; char t[200]; snprintf(t, 200, "%La,%La", x, y); badp = t; } else ok++; worst = std::max(worst, q);
      if (k < 2) { char t[300]; snprintf(t, 300, "%s[\"%.20Lg\",\"%.20Lg\",\"%.20Lg\",\"%.20Lg\"]", smp.empty() ? "" : ",", x, y, c, d2); smp += t; }
   }
   printf("{\"validated\":%ld,\"exact\":%ld,\"mismatch\":%ld,\"not_run\":%ld,\"worst\":%.3Lg,\"bad\":\"%s\",\"samples\":[%s]}\n", ok, exact, bad, fail, worst, badp.c_str(), smp.c_str());
}
static std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o; }
static void emit(FILE* o) {
   fprintf(o, "{\"maxsteps\":%ld,\"assumed\":%ld,\"steps\":%ld,\"boxes\":%ld,\"leaves\":%ld,\"queries\":%ld,\"excl\":%ld,\"sat\":%ld,\"splits\":%ld,\"depth\":%ld,\"z3_s\":%.3f,\"worst\":%.4Lg,\"ninc\":%zu,\"inc\":[", ST.maxsteps, nassumed, allsteps, ST.boxes, ST.leaves, ST.queries, ST.excl, ST.sat, ST.splits, ST.depth, ST.z3s, ST.worst, ST.inc.size());
   int k = 0; for (auto& s : ST.inc) if (!s.empty() && k < 20) fprintf(o, "%s\"%s\"", k++ ? "," : "", esc(s).c_str());
   fprintf(o, "],\"viol\":["); k = 0; for (auto& s : ST.viol) fprintf(o, "%s%s", k++ ? "," : "", s.c_str());
   fprintf(o, "],\"fns\":["); k = 0; for (int f : usedfn) fprintf(o, "%s\"%s\"", k++ ? "," : "", esc(fns[f].name).c_str());
   fprintf(o, "],\"ext\":["); k = 0; for (auto& f : usedext) fprintf(o, "%s\"%s\"", k++ ? "," : "", esc(f).c_str());
   fprintf(o, "]}\n");
}
int main(int argc, char** argv) {
   // tmx prog lib key=value...
   loadprog(argv[1]); LIBH = dlopen(argv[2], RTLD_NOW); if (!LIBH) { fprintf(stderr, "%s\n", dlerror()); return 3; }
   std::vector<Box> given; int nvalid = 0, nprobe = 0; uint64_t vseed = 1;
   for (int i = 3; i < argc; i++) {
      std::string a = argv[i]; size_t e = a.find('='); std::string k = a.substr(0, e), v = a.substr(e + 1);
      if (k == "func") J.func = v; else if (k == "replay") J.replay = v; else if (k == "kind") J.kind = v; else if (k == "cover") J.cover = v; else if (k == "ty") J.ty = tyof(v);
      else if (k == "n") J.n = atoll(v.c_str()); else if (k == "tol") J.tol = strtold(v.c_str(), 0); else if (k == "hasn") J.hasn = atoi(v.c_str()); else if (k == "cplx") J.cplx = atoi(v.c_str()); else if (k == "term") { J.term = NOASSUME = atoi(v.c_str()); if (J.term) { UNWIND = 4000; STEPMAX = 1000000; } } else if (k == "cond") J.cond = atoi(v.c_str());
      else if (k == "D2") J.D2 = atoi(v.c_str()); else if (k == "D1") J.D1 = atoi(v.c_str()); else if (k == "maxdepth") J.maxdepth = atoi(v.c_str()); else if (k == "jobs") J.jobs = atoi(v.c_str()); else if (k == "xmax") J.xmax = strtold(v.c_str(), 0); else if (k == "ymin") J.ymin = strtold(v.c_str(), 0); else if (k == "d1min") J.d1min = strtold(v.c_str(), 0); else if (k == "rmin") J.rmin = strtold(v.c_str(), 0); else if (k == "rmax") J.rmax = strtold(v.c_str(), 0); else if (k == "budget") J.budget = atof(v.c_str()); else if (k == "validate") nvalid = atoi(v.c_str()); else if (k == "probe") nprobe = atoi(v.c_str()); else if (k == "seed") vseed = atoll(v.c_str()); else if (k == "lm") LM = strtold(v.c_str(), 0);
      else if (k == "box") { Box b; b.depth = 0; sscanf(v.c_str(), "%d,%Lf,%Lf,%Lf,%Lf,%d,%d", &b.chart, &b.a0, &b.a1, &b.b0, &b.b1, &b.sx, &b.sy); given.push_back(b); }
   }
   if (!fidx.count(J.func)) { fprintf(stderr, "no function %s\n", J.func.c_str()); return 4; }
   RFN = dlsym(LIBH, J.replay.c_str()); if (!RFN) { fprintf(stderr, "no replay %s\n", J.replay.c_str()); return 3; }
   REF = new Ref(); REF->big = J.n >= 200; TSTART = now();
   if (nprobe) {     // concrete counterexample search inside undischarged boxes
      uint64_t sd = 88172645463325252ULL ^ (vseed*0x9E3779B97F4A7C15ULL); auto rnd = [&]() { sd ^= sd << 13; sd ^= sd >> 7; sd ^= sd << 17; return (R)(sd >> 11)/(R)(1ULL << 52) - 1; };
      std::string best; R br = 1; long nev = 0;
      for (auto& b : given) for (int k = 0; k < nprobe; k++) { R s = k < 9 ? k % 3 - 1 : rnd(), t = k < 9 ? k/3 - 1 : rnd(), x, y; boxpoint(b, s, t, x, y); if (J.kind == "li" && x == 1 && y == 0 && J.n <= 1) continue; std::string ds; R r = pointRatio(x, y, &ds); nev++; if (r > br) { br = r; best = ds; } }
      printf("{\"evaluated\":%ld,\"viol\":[%s]}\n", nev, best.c_str()); return 0;
   }
   if (nvalid) { validate(nvalid, vseed); return 0; }
   std::vector<Box> roots; if (given.empty()) cover(roots); else roots = given;
   if (!given.empty() || J.jobs <= 1) { for (auto& b : roots) process(b); emit(stdout); return 0; }
   // shared work index
   int* next = (int*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *next = 0;
   // interleave expensive and cheap regions deterministically
   std::vector<int> perm(roots.size()); for (size_t i = 0; i < perm.size(); i++) perm[i] = i;
   uint64_t sd = 88172645463325252ULL; for (size_t i = perm.size(); i > 1; i--) { sd ^= sd << 13; sd ^= sd >> 7; sd ^= sd << 17; std::swap(perm[i - 1], perm[sd % i]); }
   std::vector<FILE*> fs; std::vector<pid_t> pids;
   fflush(stdout);
   for (int w = 0; w < J.jobs; w++) {
      FILE* t = tmpfile(); pid_t p = fork();
      if (p == 0) {
         while (!STOP) { int k = __sync_fetch_and_add(next, 1); if (k >= (int)roots.size()) break; process(roots[perm[k]]); if (next[1] > 0) break; if (!ST.viol.empty()) { next[1] = 1; } }
         emit(t); fflush(t); _exit(0);
      }
      fs.push_back(t); pids.push_back(p);
   }
   printf("{\"roots\":%zu,\"workers\":[\n", roots.size());
   for (int w = 0; w < J.jobs; w++) { int st; waitpid(pids[w], &st, 0); rewind(fs[w]); char* line = 0; size_t n = 0; if (getline(&line, &n, fs[w]) > 0) { size_t L = strlen(line); if (L && line[L - 1] == '\n') line[L - 1] = 0; printf("%s%s", w ? ",\n" : "", line); } else printf("%s{\"crash\":%d}", w ? ",\n" : "", st); }
   printf("],\"wall\":%.2f}\n", now() - TSTART);
   return 0;
}
