// Symbolic executor over the scalarised IR of the real code: inputs are symbolic
// (a box of arguments), every float is a Taylor model (polynomial in the box
// parameters + rigorous remainder incl. rounding), undecided branches fork, the
// property "code == oracle within tolerance" is discharged by z3 at every leaf.
#include "tmx.hpp"
#include "ref.hpp"
#include <z3++.h>
#include <cfenv>
#include <cstdio>
#include <sstream>
#include <fstream>
#include <iostream>
#include <complex>
#include <chrono>
#include <set>
#include <functional>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>

Basis B;
enum { F32 = 0, F64 = 1, F80 = 2, INT = 3, PTR = 4 };
static const R UU[3] = {0x1p-24L, 0x1p-53L, 0x1p-64L};
static const R DMIN[3] = {0x1p-149L, 0x1p-1074L, 0x1p-16445L};     // smallest positive numbers
static const R ETA[3] = {0x1p-150L, 0x1p-1075L, 0x1p-16446L};
static const R FMAX[3] = {3.4028234663852885981e38L, 1.7976931348623157081e308L, std::numeric_limits<R>::max()};

struct Unsupported : std::runtime_error { using runtime_error::runtime_error; };
struct SplitAt { int var; R c; };
struct TooManyForks {};

// ------------------------------------------------------------------ program
struct Opd { char k = 'u'; int r = 0; int ty = 0; R f = 0; int64_t i = 0; int w = 64; };
enum Op { BIN, FNEG, COPY, FCMP, ICMP, CAST, SELECT, PHI, BR, CBR, SWITCH, RET, UNREACH, CALL, ALLOCA, LOAD, STORE, GEP, MEMCPY, MEMSET, UNSUP };
struct Ins {
   Op op; std::string s; int ty = 0, ty2 = 0, w = 64, w2 = 64; int dst = 0; Opd a, b, c;
   std::vector<int> dsts, dty; std::vector<Opd> args; std::vector<int> atys; std::vector<int64_t> n; std::vector<int> lab;
   int sub = 0; int fn = -2;
};
struct Blk { std::vector<Ins> ins; };
struct Fn { std::string name; int nreg, entry; std::vector<int> preg, pty, pbyval; std::vector<Blk> b; };
struct GCell { int off, ty; Opd v; };
struct Glob { int size; bool cst; std::vector<GCell> cells; };
static std::vector<Fn> fns;
static std::map<std::string, int> fidx;
static std::vector<Glob> globs;

static int tyof(const std::string& s, int* w = nullptr) {
   if (s == "f32") return F32; if (s == "f64") return F64; if (s == "f80") return F80; if (s == "ptr") return PTR;
   if (w) *w = atoi(s.c_str() + 1);
   return INT;
}
static R frombits(int ty, const std::string& hex) {
   if (ty == F80) {
      std::string h = std::string(20 - std::min<size_t>(20, hex.size()), '0') + hex;
      uint64_t hi = strtoull(h.substr(0, 4).c_str(), 0, 16), lo = strtoull(h.substr(4).c_str(), 0, 16);
      R r = 0; unsigned char b[16] = {0}; memcpy(b, &lo, 8); b[8] = hi & 255; b[9] = hi >> 8; memcpy(&r, b, 10); return r;
   }
   uint64_t v = strtoull(hex.c_str(), 0, 16);
   if (ty == F64) { double d; memcpy(&d, &v, 8); return d; }
   uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); return f;
}
static Opd popd(const std::string& s) {
   Opd o; o.k = s[0];
   if (o.k == 'r') o.r = atoi(s.c_str() + 1);
   else if (o.k == 'f') { size_t c = s.find(':'); o.ty = tyof(s.substr(1, c - 1)); o.f = frombits(o.ty, s.substr(c + 1)); }
   else if (o.k == 'i') { size_t c = s.find(':'); o.w = atoi(s.c_str() + 1); o.i = (int64_t)strtoull(s.c_str() + c + 1, 0, 10); if (s[c + 1] == '-') o.i = strtoll(s.c_str() + c + 1, 0, 10); o.ty = INT; }
   else if (o.k == 'g') { size_t c = s.find(':'); o.r = atoi(s.c_str() + 1); o.i = atoll(s.c_str() + c + 1); o.ty = PTR; }
   return o;
}
static void loadprog(const char* path) {
   std::ifstream in(path); std::string line; Fn* f = nullptr;
   while (std::getline(in, line)) {
      std::istringstream ss(line); std::string o, t; ss >> o;
      auto str = [&] { std::string x; ss >> x; return x; };
      auto num = [&]() -> long long { std::string x; ss >> x; return x[0] == '-' ? strtoll(x.c_str(), 0, 10) : (long long)strtoull(x.c_str(), 0, 10); };
      auto opd = [&] { return popd(str()); };
      if (o == "G") { Glob g; g.size = num(); g.cst = num(); int n = num(); for (int i = 0; i < n; i++) { GCell c; c.off = num(); c.ty = tyof(str()); c.v = opd(); g.cells.push_back(c); } globs.push_back(g); continue; }
      if (o == "F") { fns.emplace_back(); f = &fns.back(); f->name = str(); int np = num(); f->nreg = num(); num(); f->entry = num(); for (int i = 0; i < np; i++) { f->preg.push_back(num()); f->pty.push_back(tyof(str())); f->pbyval.push_back(num()); } fidx[f->name] = fns.size() - 1; continue; }
      if (o == "B") { f->b.emplace_back(); continue; }
      if (o == "E") continue;
      Ins i;
      if (o == "bin") { i.op = BIN; i.s = str(); i.ty = tyof(str(), &i.w); i.dst = num(); i.a = opd(); i.b = opd(); }
      else if (o == "fneg") { i.op = FNEG; i.ty = tyof(str()); i.dst = num(); i.a = opd(); }
      else if (o == "copy") { i.op = COPY; i.ty = tyof(str(), &i.w); i.dst = num(); i.a = opd(); }
      else if (o == "fcmp" || o == "icmp") { i.op = o[0] == 'f' ? FCMP : ICMP; i.s = str(); i.ty = tyof(str(), &i.w); i.dst = num(); i.a = opd(); i.b = opd(); }
      else if (o == "cast") { i.op = CAST; i.s = str(); i.ty = tyof(str(), &i.w); i.ty2 = tyof(str(), &i.w2); i.dst = num(); i.a = opd(); }
      else if (o == "select") { i.op = SELECT; i.ty = tyof(str(), &i.w); i.dst = num(); i.c = opd(); i.a = opd(); i.b = opd(); }
      else if (o == "phi") { i.op = PHI; i.ty = tyof(str(), &i.w); i.dst = num(); int n = num(); for (int k = 0; k < n; k++) { i.args.push_back(opd()); i.lab.push_back(num()); } }
      else if (o == "br") { i.op = BR; i.lab = {(int)num()}; }
      else if (o == "cbr") { i.op = CBR; i.c = opd(); int a = num(), b = num(); i.lab = {a, b}; }
      else if (o == "switch") { i.op = SWITCH; i.ty = tyof(str(), &i.w); i.a = opd(); i.lab.push_back(num()); int n = num(); for (int k = 0; k < n; k++) { i.n.push_back(num()); i.lab.push_back(num()); } }
      else if (o == "ret") { i.op = RET; int n = num(); for (int k = 0; k < n; k++) i.args.push_back(opd()); }
      else if (o == "unreachable") i.op = UNREACH;
      else if (o == "call") { i.op = CALL; i.s = str(); int n = num(); for (int k = 0; k < n; k++) { i.dsts.push_back(num()); i.dty.push_back(tyof(str())); } n = num(); for (int k = 0; k < n; k++) { i.args.push_back(opd()); i.atys.push_back(tyof(str())); } }
      else if (o == "alloca") { i.op = ALLOCA; i.dst = num(); i.n = {num()}; }
      else if (o == "load") { i.op = LOAD; i.ty = tyof(str(), &i.w); i.dst = num(); i.a = opd(); }
      else if (o == "store") { i.op = STORE; i.ty = tyof(str(), &i.w); i.a = opd(); i.b = opd(); }
      else if (o == "gep") { i.op = GEP; i.dst = num(); i.a = opd(); i.n = {num()}; int n = num(); for (int k = 0; k < n; k++) { i.args.push_back(opd()); num(); i.n.push_back(num()); } }
      else if (o == "memcpy") { i.op = MEMCPY; i.a = opd(); i.b = opd(); i.c = opd(); }
      else if (o == "memset") { i.op = MEMSET; i.a = opd(); i.b = opd(); i.c = opd(); }
      else { i.op = UNSUP; i.s = line; }
      f->b.back().ins.push_back(i);
   }
   for (auto& fn : fns) for (auto& b : fn.b) for (auto& i : b.ins) if (i.op == CALL) { auto it = fidx.find(i.s); i.fn = it == fidx.end() ? -1 : it->second; }
}

// ------------------------------------------------------------------ values
typedef std::shared_ptr<const TM> PTM;
struct Val {
   enum K : char { UND, I, P, X, S, SB, TOP } k = UND;
   signed char ty = 0;
   int base = 0; int64_t i = 0;             // int / pointer (base,off) / symbolic bool index
   R ev = 0, lo = 0, hi = 0; PTM tm; int node = -1;
   bool num() const { return k == X || k == S; }
};
struct Node { int op; int a, b, c; R v; };
enum NOp { N_IN = 1, N_CONST, N_NEG, N_ADD, N_SUB, N_MUL, N_DIV, N_LOGHYP, N_HYPOT, N_CLOGR, N_CLOGI, N_CDIVR, N_CDIVI, N_OTHER, N_CAST };
static std::vector<Node> nodes; static std::vector<Val> nval;
static std::map<std::tuple<int, int, int, int>, int> ncons; static std::map<std::pair<int, std::string>, int> nconst;
static int newnode(int op, int a, int b, int c = -1) {
   auto key = std::make_tuple(op, a, b, c);
   if (op != N_OTHER) { auto it = ncons.find(key); if (it != ncons.end()) return it->second; }
   nodes.push_back({op, a, b, c, 0}); nval.emplace_back();
   int id = nodes.size() - 1; if (op != N_OTHER) ncons[key] = id; return id;
}
static int constnode(int ty, R v) {
   std::string s((const char*)&v, 10); auto key = std::make_pair(ty, s);
   auto it = nconst.find(key); if (it != nconst.end()) return it->second;
   nodes.push_back({N_CONST, ty, -1, -1, v}); nval.emplace_back();
   return nconst[key] = nodes.size() - 1;
}
static inline R rty(int ty, R x) { return ty == F32 ? (R)(float)x : ty == F64 ? (R)(double)x : x; }
static Val mkX(int ty, R v) { Val r; r.k = Val::X; r.ty = ty; r.ev = rty(ty, v); r.lo = r.hi = r.ev; return r; }
static Val mkI(int64_t v, int w = 64) { Val r; r.k = Val::I; r.i = v; r.ty = INT; return r; }
static int nodeof(Val& v) { if (v.node < 0) { if (v.k == Val::X) v.node = constnode(v.ty, v.ev); else v.node = newnode(N_OTHER, 0, 0); } return v.node; }
static Val mkTop(int ty, int node = -1) { Val r; r.k = Val::TOP; r.ty = ty; r.node = node; return r; }
static bool bounded_(R x) { return x > -RINF && x < RINF; }
// bounds of a rounded result from the R-rounded bound of the exact one: rounding is
// monotone, so for F80 (= R) the rounded bound itself is the bound; for the narrower
// types widen (double rounding) before rounding
static inline R wlo(int ty, R x) { return x == 0 || ty == F80 || !bounded_(x) ? x : x - fabsl(x)*0x1p-61L; }
static inline R whi(int ty, R x) { return x == 0 || ty == F80 || !bounded_(x) ? x : x + fabsl(x)*0x1p-61L; }

static TM toTM(const Val& v) {
   if (v.k == Val::X) return TM(v.ev);
   if (v.tm) return *v.tm;
   TM t((v.lo + v.hi)/2); t.rem = (v.hi - v.lo)/2*(1 + 0x1p-50L); return t;
}
// result value of a floating operation: true-result Taylor model t (may be null),
// interval lo/hi of the rounded result; err = rounding error bound to be added
static Val mkS(int ty, PTM t, R lo, R hi, R relerr, R abserr, int node, R cap = RINF) {
   Val r; r.k = Val::S; r.ty = ty; r.node = node;
   if (lo != lo || hi != hi) return mkTop(ty);
   if (t) {
      R a, b; t->range(a, b);
      if (a == a && b == b && fabsl(a) < FMAX[ty] && fabsl(b) < FMAX[ty]) {
         R m = std::max(fabsl(a), fabsl(b));
         if (lo <= hi) m = std::min(m, std::max(fabsl(lo), fabsl(hi)));
         R e = std::min(relerr*m*(1 + 0x1p-40L), cap) + abserr;
         auto p = std::make_shared<TM>(*t); p->rem += e; r.tm = p;
         lo = std::max(lo, a - e - fabsl(a)*0x1p-60L); hi = std::min(hi, b + e + fabsl(b)*0x1p-60L);
         if (lo > hi) { // contradictory enclosures can only differ by slack
            if (lo - hi > 1e-3L*(fabsl(lo) + fabsl(hi))) throw Unsupported("inconsistent enclosure");
            std::swap(lo, hi);
         }
      }
   }
   if (lo == hi && lo != 0 && bounded_(lo) && rty(ty, lo) == lo) { Val x = mkX(ty, lo); x.node = node; return x; }   // rounded to a single value
   r.lo = lo; r.hi = hi;
   if (lo == -RINF && hi == RINF) r.tm = nullptr;
   return r;
}
static PTM P(const TM& t) { return std::make_shared<TM>(t); }
static bool bounded(const Val& v) { return v.lo > -RINF && v.hi < RINF; }

// chart info for raw patterns
struct Chart { int kind = 0; int in0 = -1, in1 = -1; R u0, u1, v0, v1; int sx, sy; PTM U, V; };
static Chart CH;
static bool rawpair(int a, int b, int& s0, int& s1) {
   if (CH.kind != 3 && CH.kind != 5) return false;
   auto f = [](int n, int in, int& s) { if (n == in) { s = 1; return true; } if (n >= 0 && nodes[n].op == N_NEG && nodes[n].a == in) { s = -1; return true; } return false; };
   return f(a, CH.in0, s0) && f(b, CH.in1, s1);
}
static bool raw1(int a, int& s0) {
   if (CH.kind != 1 && CH.kind != 5) return false;
   if (a == CH.in0) { s0 = 1; return true; }
   if (a >= 0 && nodes[a].op == N_NEG && nodes[a].a == CH.in0) { s0 = -1; return true; }
   return false;
}

static Val neg(Val a) {
   if (a.k == Val::TOP) return a;
   if (a.k == Val::X) return mkX(a.ty, -a.ev);
   int na = nodeof(a);
   Val r = a; r.lo = -a.hi; r.hi = -a.lo; r.tm = a.tm ? P(tneg(*a.tm)) : nullptr;
   r.node = nodes[na].op == N_NEG ? nodes[na].a : newnode(N_NEG, na, -1);
   return r;
}
static Val fabsV(const Val& a) {
   if (a.k == Val::TOP) return a;
   if (a.k == Val::X) return mkX(a.ty, fabsl(a.ev));
   if (a.lo >= 0) return a;
   if (a.hi <= 0) return neg(a);
   Val r; r.k = Val::S; r.ty = a.ty; r.lo = 0; r.hi = std::max(-a.lo, a.hi); r.node = newnode(N_OTHER, 0, 0); return r;
}

static Val log1pIdiom(int op, Val& a, Val& b, bool& ok);
static Val log1pReal(int node, int ty, bool& ok);

static Val fadd(Val a, Val b, int sg) {
   const int ty = a.ty;
   if (a.k == Val::TOP || b.k == Val::TOP) {      // the structure may still be a known idiom
      bool ok = false; nodeof(a); nodeof(b); Val r = log1pIdiom(sg > 0 ? N_ADD : N_SUB, a, b, ok); if (ok) return r;
      return mkTop(ty);
   }
   if (a.k == Val::X && b.k == Val::X) {
      Val r = ty == F32 ? mkX(ty, sg > 0 ? (float)a.ev + (float)b.ev : (float)a.ev - (float)b.ev)
            : ty == F64 ? mkX(ty, sg > 0 ? (double)a.ev + (double)b.ev : (double)a.ev - (double)b.ev)
            : mkX(ty, sg > 0 ? a.ev + b.ev : a.ev - b.ev);
      auto sym = [](const Val& v) { return v.node >= 0 && nodes[v.node].op != N_CONST; };
      if (sym(a) || sym(b)) { int p = nodeof(a), q = nodeof(b); r.node = newnode(sg > 0 ? N_ADD : N_SUB, p, q); }   // keep the structure
      return r;
   }
   if (b.k == Val::X && b.ev == 0) return a;                 // a is never a zero of relevant sign (see below)
   if (a.k == Val::X && a.ev == 0) return sg > 0 ? b : neg(b);
   const int na = nodeof(a), nb = nodeof(b);
   int node = newnode(sg > 0 ? N_ADD : N_SUB, na, nb);
   { bool ok = false; Val r = log1pIdiom(sg > 0 ? N_ADD : N_SUB, a, b, ok); if (ok) { r.node = node; return r; } }
   if (sg < 0 && na == nb && bounded(a)) return mkX(ty, 0);
   const R blo = sg > 0 ? b.lo : -b.hi, bhi = sg > 0 ? b.hi : -b.lo;
   if ((a.hi == RINF && blo == -RINF) || (a.lo == -RINF && bhi == RINF)) return mkTop(ty);
   R lo = rty(ty, wlo(ty, a.lo + blo)), hi = rty(ty, whi(ty, a.hi + bhi));
   bool exact = false;
   if (a.lo > 0 && bhi < 0) exact = -blo <= 2*a.lo && -bhi >= a.hi/2;
   if (a.hi < 0 && blo > 0) exact = bhi <= -2*a.hi && blo >= -a.lo/2;
   PTM t;
   if ((a.k == Val::X || a.tm) && (b.k == Val::X || b.tm)) t = P(tadd(toTM(a), toTM(b), sg));
   else if (bounded(a) && bounded(b)) t = P(tadd(toTM(a), toTM(b), sg));
   // both operands are representable: the rounding error is at most the smaller one
   const R cap = std::min(std::max(fabsl(a.lo), fabsl(a.hi)), std::max(fabsl(blo), fabsl(bhi)));
   return mkS(ty, t, lo, hi, exact ? 0 : UU[ty], 0, node, cap);
}
static void imul(R al, R ah, R bl, R bh, R& lo, R& hi) {
   R p[4]; R x[4] = {al, al, ah, ah}, y[4] = {bl, bh, bl, bh};
   lo = RINF; hi = -RINF;
   for (int i = 0; i < 4; i++) { p[i] = (x[i] == 0 || y[i] == 0) ? 0 : x[i]*y[i]; lo = std::min(lo, p[i]); hi = std::max(hi, p[i]); }
}
static bool ispow2(R v) { int e; return v != 0 && std::isfinite((double)1) && fabsl(frexpl(v, &e)) == 0.5L && fabsl(v) < 0x1p100L && fabsl(v) > 0x1p-100L; }
static Val fmul(Val a, Val b) {
   const int ty = a.ty;
   if (a.k == Val::TOP || b.k == Val::TOP) { int p = nodeof(a), q = nodeof(b), m = newnode(N_MUL, std::min(p, q), std::max(p, q)); bool ok = false; Val r = log1pReal(m, ty, ok); if (ok) { r.node = m; return r; } return mkTop(ty, m); }
   if (a.k == Val::X && b.k == Val::X) {
      if (ty == F32) return mkX(ty, (float)a.ev*(float)b.ev);
      if (ty == F64) return mkX(ty, (double)a.ev*(double)b.ev);
      return mkX(ty, a.ev*b.ev);
   }
   if (a.k == Val::X) std::swap(a, b);
   if (b.k == Val::X) {
      if (b.ev == 1) return a;
      if (b.ev == -1) return neg(a);
      if (b.ev != b.ev) return mkX(ty, b.ev);
      if (b.ev == 0) {
         if (!bounded(a)) return mkTop(ty);
         if (a.lo > 0) return b;
         if (a.hi < 0) return mkX(ty, -b.ev);
         { Val zv; zv.k = Val::S; zv.ty = ty; zv.tm = P(TM(0.0L)); zv.node = newnode(N_OTHER, 0, 0); return zv; }   // zero of unknown sign
      }
   }
   int na = nodeof(a), nb = nodeof(b);
   if (na > nb) std::swap(na, nb);
   int node = newnode(N_MUL, na, nb);
   { bool ok = false; Val r = log1pReal(node, ty, ok); if (ok) { r.node = node; return r; } }
   auto z = [](const Val& v) { return v.lo <= 0 && v.hi >= 0; };
   if ((z(a) && !bounded(b)) || (z(b) && !bounded(a))) return mkTop(ty, node);
   R lo, hi;
   imul(a.lo, a.hi, b.lo, b.hi, lo, hi);
   if (na == nb) { R m = std::max(fabsl(a.lo), fabsl(a.hi)), s = z(a) ? 0 : std::min(fabsl(a.lo), fabsl(a.hi)); lo = s*s; hi = m*m; }
   lo = rty(ty, wlo(ty, lo)); hi = rty(ty, whi(ty, hi));
   PTM t; bool ex = false;
   if (b.k == Val::X && std::abs(b.ev) <= FMAX[ty]) { ex = ispow2(b.ev); if (a.tm) t = P(tscale(*a.tm, b.ev)); else if (bounded(a)) t = P(tscale(toTM(a), b.ev)); }
   else if (bounded(a) && bounded(b)) t = P(tmul(toTM(a), toTM(b)));
   return mkS(ty, t, lo, hi, ex ? 0 : UU[ty], ETA[ty], node);
}
// power series in w = (a - m)/m
static TM wmodel(const TM& a, R m) { TM h = a; h.c[0] -= m; return tscale(h, 1/m); }
static bool series1(const TM& a, R m, const std::vector<R>& ck, R c0, R tailfac, TM& out) {
   TM w = wmodel(a, m); w.rem += 2*EPS*w.mag();
   const R q = w.mag();
   if (!(q < 0.9L)) return false;
   const int K = ck.size() - 1;
   TM r(ck[K]);
   for (int k = K - 1; k >= 1; k--) { r = tmul(r, w); r = taddc(r, ck[k]); }
   r = tmul(r, w);
   r.rem += tailfac*powl(q, K + 1)/(1 - q) + 4*EPS*q;
   r = taddc(r, c0); r.rem += 2*EPS*fabsl(c0);
   out = r; return true;
}
static int KS(int extra = 4) { return B.D + extra; }
static PTM tinv(const TM& a) {
   const R m = a.c[0]; if (m == 0) return nullptr;
   std::vector<R> c(KS() + 1); for (size_t k = 0; k < c.size(); k++) c[k] = (k & 1) ? -1 : 1;
   TM o; if (!series1(a, m, c, 1, 1, o)) return nullptr;
   return P(tscale(o, 1/m));
}
static PTM tlog(const TM& a) {
   const R m = a.c[0]; if (!(m > 0)) return nullptr;
   std::vector<R> c(KS() + 1); for (size_t k = 1; k < c.size(); k++) c[k] = ((k & 1) ? 1.0L : -1.0L)/k;
   TM o; if (!series1(a, m, c, 0, 1.0L/KS(), o)) return nullptr;
   const R l = (R)logq((Q)m); o = taddc(o, l); o.rem += 2*EPS*fabsl(l); return P(o);
}
static PTM tlog1p(const TM& a) {
   const R m = a.c[0]; if (!(m > -1)) return nullptr;
   TM h = a; h.c[0] = 0; TM w = tscale(h, 1/(1 + m)); w.rem += 4*EPS*w.mag(); w.c[0] += 1;
   std::vector<R> c(KS() + 1); for (size_t k = 1; k < c.size(); k++) c[k] = ((k & 1) ? 1.0L : -1.0L)/k;
   TM o; if (!series1(w, 1, c, 0, 1.0L/KS(), o)) return nullptr;
   const R l = (R)log1pq((Q)m); o = taddc(o, l); o.rem += 2*EPS*fabsl(l); return P(o);
}
static PTM tsqrt(const TM& a) {
   const R m = a.c[0]; if (!(m > 0)) return nullptr;
   std::vector<R> c(KS() + 1); R b = 1; for (size_t k = 0; k < c.size(); k++) { c[k] = b; b *= (0.5L - k)/(k + 1); }
   TM o; if (!series1(a, m, c, 1, 0.5L, o)) return nullptr;
   return P(tscale(o, sqrtl(m)));
}
static PTM texp(const TM& a) {
   const R m = a.c[0]; TM h = a; h.c[0] = 0; const R H = h.mag(); if (!(H < 3)) return nullptr;
   const int K = KS(8); std::vector<R> c(K + 1); R f = 1; for (int k = 0; k <= K; k++) { c[k] = f; f /= k + 1; }
   TM o = tcompose(h, 0, c, powl(H, K + 1)*f*expl(H));
   Q e = expq((Q)m); return P(tscale(o, (R)e));
}
static PTM tsincos(const TM& a, bool cs) {
   const R m = a.c[0]; TM h = a; h.c[0] = 0; const R H = h.mag(); if (!(H < 3)) return nullptr;
   const int K = KS(8); std::vector<R> c(K + 1); R f = 1; Q s = sinq(m), co = cosq(m);
   for (int k = 0; k <= K; k++) { Q d[4] = {s, co, -s, -co}; c[k] = (R)(d[(k + (cs ? 1 : 0)) & 3]*(Q)f); f /= k + 1; }
   return P(tcompose(h, 0, c, powl(H, K + 1)*f));
}
static Val fdiv(Val a, Val b) {
   const int ty = a.ty;
   if (a.k == Val::TOP || b.k == Val::TOP) return mkTop(ty);
   if (a.k == Val::X && b.k == Val::X) {
      if (ty == F32) return mkX(ty, (float)a.ev/(float)b.ev);
      if (ty == F64) return mkX(ty, (double)a.ev/(double)b.ev);
      return mkX(ty, a.ev/b.ev);
   }
   const int na = nodeof(a), nb = nodeof(b); int node = newnode(N_DIV, na, nb);
   if (na == nb && bounded(a) && (a.lo > 0 || a.hi < 0)) return mkX(ty, 1);
   if (b.lo <= 0 && b.hi >= 0) return mkTop(ty);
   if (!bounded(b) && !bounded(a)) return mkTop(ty);
   R lo, hi; R q[4] = {a.lo/b.lo, a.lo/b.hi, a.hi/b.lo, a.hi/b.hi};
   lo = std::min(std::min(q[0], q[1]), std::min(q[2], q[3])); hi = std::max(std::max(q[0], q[1]), std::max(q[2], q[3]));
   lo = rty(ty, wlo(ty, lo)); hi = rty(ty, whi(ty, hi));
   PTM t; int s0;
   if (b.k == Val::X) { if (bounded(a)) t = P(tscale(toTM(a), 1/b.ev)); if (t && !ispow2(b.ev)) { auto p = std::make_shared<TM>(*t); p->rem += 2*EPS*t->mag(); t = p; } }
   else if (a.k == Val::X && raw1(nb, s0) && CH.U) { PTM e = texp(tneg(*CH.U)); if (e) t = P(tscale(*e, a.ev*s0*CH.sx)); }
   else if (bounded(a) && bounded(b)) { PTM iv = tinv(toTM(b)); if (iv) t = P(tmul(toTM(a), *iv)); }
   return mkS(ty, t, lo, hi, (b.k == Val::X && ispow2(b.ev)) ? 0 : UU[ty], ETA[ty], node);
}

// ---------------------------------------------------- log1p cancellation lemma
// log(1 (+) X, Y) * ((X,Y) / ((1 (+) X) (-) 1, Y)) : the rounding error of 1 (+) X
// cancels; result is log1p(X + iY) with relative error <= 16 u (norm-wise).
static R LM = 16;
static bool matchAdd1(int n, int& x) {
   if (n < 0) return false; const Node& d = nodes[n];
   auto one = [](int m, R v) { return nodes[m].op == N_CONST && nodes[m].v == v; };
   if (d.op == N_ADD) { if (one(d.a, 1)) { x = d.b; return true; } if (one(d.b, 1)) { x = d.a; return true; } }
   if (d.op == N_SUB) { if (one(d.b, -1)) { x = d.a; return true; }
      if (one(d.a, 1)) { x = newnode(N_NEG, d.b, -1); if (nodes[d.b].op == N_NEG) x = nodes[d.b].a; return true; } }
   return false;
}
static bool matchSub1(int n, int u) {
   if (n < 0) return false; const Node& d = nodes[n];
   auto one = [](int m, R v) { return nodes[m].op == N_CONST && nodes[m].v == v; };
   return (d.op == N_SUB && d.a == u && one(d.b, 1)) || (d.op == N_ADD && ((d.a == u && one(d.b, -1)) || (d.b == u && one(d.a, -1))));
}
static bool idPair(int m, int lo_op, int dv_op, int& L, int& Dv) {
   if (m < 0 || nodes[m].op != N_MUL) return false;
   int a = nodes[m].a, b = nodes[m].b;
   if (nodes[a].op == lo_op && nodes[b].op == dv_op) { L = a; Dv = b; return true; }
   if (nodes[b].op == lo_op && nodes[a].op == dv_op) { L = b; Dv = a; return true; }
   return false;
}
static Val complexLog1p(int ty, const Val& X, const Val& Y, bool im, bool& ok);
static Val log1pIdiom(int op, Val& a, Val& b, bool& ok) {
   ok = false;
   int L1, D1, L2, D2;
   if (op == N_SUB) { if (!(idPair(a.node, N_CLOGR, N_CDIVR, L1, D1) && idPair(b.node, N_CLOGI, N_CDIVI, L2, D2))) return a; }
   else if (idPair(a.node, N_CLOGR, N_CDIVI, L1, D1) && idPair(b.node, N_CLOGI, N_CDIVR, L2, D2)) {}
   else if (idPair(b.node, N_CLOGR, N_CDIVI, L1, D1) && idPair(a.node, N_CLOGI, N_CDIVR, L2, D2)) {}
   else return a;
   const Node &l1 = nodes[L1], &l2 = nodes[L2], &d1 = nodes[D1], &d2 = nodes[D2];
   auto same = [](int p, int q) { return p == q || (nodes[p].op == N_CONST && nodes[q].op == N_CONST && nodes[p].v == 0 && nodes[q].v == 0); };
   if (l1.a != l2.a || !same(l1.b, l2.b) || d1.a != d2.a || !same(d1.b, d2.b) || d1.c != d2.c) return a;
   const int U = l1.a, Y = l1.b; int X;
   // N_CDIV*: a = re numerator, b = im numerator, c = node of (re,im) denominator pair
   if (!matchAdd1(U, X)) return a;
   const Node& dp = nodes[d1.c];
   if (d1.a != X || !same(d1.b, Y) || !same(dp.b, Y) || !matchSub1(dp.a, U)) return a;
   Val vx = nval[X], vy = nval[Y];
   if (vx.k == Val::UND && nodes[X].op == N_NEG) { vx = neg(nval[nodes[X].a]); }
   if (!vx.num() || !vy.num()) return a;
   bool k = false;
   Val r = complexLog1p(a.ty, vx, vy, op == N_ADD, k);
   if (!k) return a;
   ok = true; return r;
}
// same with an exactly zero imaginary part (all products with it vanish)
static Val log1pReal(int node, int ty, bool& ok) {
   ok = false; int L, Dv; Val bad;
   if (!idPair(node, N_CLOGR, N_CDIVR, L, Dv)) return bad;
   const Node &l = nodes[L], &d = nodes[Dv], &dp = nodes[d.c]; int X;
   auto zero = [](int m) { return nodes[m].op == N_CONST && nodes[m].v == 0; };
   if (!zero(l.b) || !zero(d.b) || !zero(dp.b) || !matchAdd1(l.a, X) || d.a != X || !matchSub1(dp.a, l.a)) return bad;
   Val vx = nval[X]; if (vx.k == Val::UND && nodes[X].op == N_NEG) vx = neg(nval[nodes[X].a]);
   if (!vx.num()) return bad;
   bool k = false; Val r = complexLog1p(ty, vx, mkX(ty, 0), false, k);
   if (!k) return bad;
   ok = true; return r;
}
static void modrange(const Val& X, const Val& Y, R& lo, R& hi) {
   auto mn = [](const Val& v) { return v.lo > 0 ? v.lo : v.hi < 0 ? -v.hi : (R)0; };
   auto mx = [](const Val& v) { return std::max(fabsl(v.lo), fabsl(v.hi)); };
   lo = hypotl(mn(X), mn(Y))*(1 - 0x1p-50L); hi = hypotl(mx(X), mx(Y))*(1 + 0x1p-50L);
}
static void argrange(const Val& X, const Val& Y, R& lo, R& hi) {
   const R PI = 3.14159265358979323846264338327950288L*(1 + 0x1p-50L);
   auto pos0 = [](R v) { return v == 0 && !std::signbit(v); };
   if (Y.lo > 0 || Y.hi < 0 || X.lo > 0) {
      R c[4] = {atan2l(Y.lo, X.lo), atan2l(Y.lo, X.hi), atan2l(Y.hi, X.lo), atan2l(Y.hi, X.hi)};
      lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4);
      lo -= fabsl(lo)*0x1p-50L; hi += fabsl(hi)*0x1p-50L; return;
   }
   lo = -PI; hi = PI;
}
static Val complexLog1p(int ty, const Val& X, const Val& Y, bool im, bool& ok) {
   ok = false;
   if (!(Y.lo > 0 || Y.hi < 0 || X.lo > -1)) return X;
   TM tx = toTM(X), ty_ = toTM(Y);
   CT o; Q cx = (Q)tx.c[0] + 1, cy = ty_.c[0];
   CQ c = clog1pq_({(Q)tx.c[0], cy});
   if (!clog_series(tx, ty_, cx, cy, c, o)) return X;
   R m = hypotl(o.re.mag(), o.im.mag());
   const TM& t = im ? o.im : o.re;
   ok = true;
   R lo = -RINF, hi = RINF;
   // relative lemma error (norm-wise)
   auto p = std::make_shared<TM>(t); p->rem += LM*UU[ty]*m + ETA[ty];
   Val r = mkS(ty, p, -FMAX[ty], FMAX[ty], 0, 0, -1);
   return r;
}

// ---------------------------------------------------- elementary functions
static void cat(int n, const Val& v) { nval[n] = v; }
// log of an exact input (2u), of a rounded modulus (2u + 3u absolute), of clog (4u)
static Val rawLog(int ty, R rel, R ab) { return mkS(ty, CH.U, -FMAX[ty], FMAX[ty], rel*UU[ty], ab*UU[ty], newnode(N_OTHER, 0, 0)); }
static Val fn_log(Val a) {
   const int ty = a.ty;
   if (a.k == Val::TOP) return mkTop(ty);
   if (a.k == Val::X) return mkX(ty, ty == F32 ? (R)logf((float)a.ev) : ty == F64 ? (R)log((double)a.ev) : logl(a.ev));
   int n = nodeof(a), s;
   if (a.lo < 0) return mkTop(ty);
   if (bounded(a) && n >= 0 && nodes[n].op == N_HYPOT && (CH.kind == 3 || CH.kind == 5)) { int s0, s1; if (rawpair(nodes[n].a, nodes[n].b, s0, s1)) return rawLog(ty, 2, 3); }
   if (raw1(n, s) && s*CH.sx > 0) return rawLog(ty, 2, 0);
   R lo = a.lo == 0 ? -RINF : logl(a.lo), hi = a.hi == RINF ? RINF : logl(a.hi);
   lo -= fabsl(lo)*2*UU[ty]; hi += fabsl(hi)*2*UU[ty];
   PTM t; if (a.tm) t = tlog(*a.tm);
   return mkS(ty, t, lo, hi, 2*UU[ty], 0, newnode(N_OTHER, 0, 0));
}
static Val fn_log1p(Val a) {
   const int ty = a.ty;
   if (a.k == Val::TOP) return mkTop(ty);
   if (a.k == Val::X) return mkX(ty, ty == F32 ? (R)log1pf((float)a.ev) : ty == F64 ? (R)log1p((double)a.ev) : log1pl(a.ev));
   if (a.lo < -1) return mkTop(ty);
   R lo = a.lo == -1 ? -RINF : log1pl(a.lo), hi = a.hi == RINF ? RINF : log1pl(a.hi);
   lo -= fabsl(lo)*2*UU[ty]; hi += fabsl(hi)*2*UU[ty];
   PTM t; if (a.tm) t = tlog1p(*a.tm);
   return mkS(ty, t, lo, hi, 2*UU[ty], 0, newnode(N_OTHER, 0, 0));
}
static Val fn_hypot(Val x, Val y) {
   const int ty = x.ty;
   if (x.k == Val::TOP || y.k == Val::TOP) return mkTop(ty);
   if (x.k == Val::X && y.k == Val::X) return mkX(ty, ty == F32 ? (R)hypotf((float)x.ev, (float)y.ev) : ty == F64 ? (R)hypot((double)x.ev, (double)y.ev) : hypotl(x.ev, y.ev));
   if (y.k == Val::X && y.ev == 0) return fabsV(x);
   if (x.k == Val::X && x.ev == 0) return fabsV(y);
   int nx = nodeof(x), ny = nodeof(y); R lo, hi; modrange(x, y, lo, hi);
   int s0, s1; PTM t; bool raw = rawpair(nx, ny, s0, s1);
   if (raw) { lo = expl(CH.u0)*(1 - 0x1p-50L); hi = expl(CH.u1)*(1 + 0x1p-50L); if (CH.U) t = texp(*CH.U); }
   else if (x.num() && y.num() && bounded(x) && bounded(y)) {
      TM a = toTM(x), b = toTM(y); R sc = std::max(fabsl(a.c[0]), fabsl(b.c[0]));
      if (sc > 0) { int e; frexpl(sc, &e); R f = ldexpl(1, -e); a = tscale(a, f); b = tscale(b, f); t = tsqrt(tadd(tmul(a, a), tmul(b, b))); if (t) t = P(tscale(*t, 1/f)); }
   }
   lo = rty(ty, lo*(1 - 4*UU[ty])); hi = rty(ty, hi*(1 + 4*UU[ty]));
   return mkS(ty, t, lo, hi, 2*UU[ty], ETA[ty], newnode(N_HYPOT, nx, ny));
}
static Val fn_atan2(Val y, Val x) {
   const int ty = x.ty; const R PI = 3.14159265358979323846264338327950288L;
   if (x.k == Val::TOP || y.k == Val::TOP) return mkTop(ty);
   if (x.k == Val::X && y.k == Val::X) return mkX(ty, ty == F32 ? (R)atan2f((float)y.ev, (float)x.ev) : ty == F64 ? (R)atan2((double)y.ev, (double)x.ev) : atan2l(y.ev, x.ev));
   if (y.k == Val::X && y.ev == 0) {
      if (x.lo > 0) return y;
      if (x.hi < 0) return mkX(ty, ty == F32 ? (R)atan2f((float)y.ev, -1) : ty == F64 ? (R)atan2((double)y.ev, -1) : atan2l(y.ev, -1));
   }
   R lo, hi; argrange(x, y, lo, hi); int s0, s1; PTM t;
   if (rawpair(nodeof(x), nodeof(y), s0, s1) && CH.V) {
      const int rx = s0*CH.sx, ry = s1*CH.sy; TM v = *CH.V; if (rx < 0) v = taddc(tneg(v), PI); if (ry < 0) v = tneg(v); t = P(v);
      if (rx < 0) { auto p = std::make_shared<TM>(*t); p->rem += 0x1p-64L; t = p; }
      R a = rx > 0 ? CH.v0 : PI - CH.v1, b = rx > 0 ? CH.v1 : PI - CH.v0; if (ry < 0) { R c = -a; a = -b; b = c; } lo = a; hi = b;
   } else if (bounded(x) && bounded(y) && (y.lo > 0 || y.hi < 0 || x.lo > 0)) {
      CT o; TM a = toTM(x), b = toTM(y); CQ c = {0, atan2q((Q)b.c[0], (Q)a.c[0])};
      if (clog_series(a, b, a.c[0], b.c[0], c, o)) t = P(o.im);
   }
   lo -= fabsl(lo)*3*UU[ty]; hi += fabsl(hi)*3*UU[ty];
   if (ty == F80) { if (lo > 0 && lo < 0x1p-16382L) lo = 0; if (hi < 0 && hi > -0x1p-16382L) hi = 0; }      // y/x may underflow
   return mkS(ty, t, rty(ty, lo), rty(ty, hi), 2*UU[ty], ETA[ty], newnode(N_OTHER, 0, 0));
}
static void fn_clog(Val x, Val y, Val& re, Val& im) {
   const int ty = x.ty;
   if (x.k == Val::TOP || y.k == Val::TOP) { re = im = mkTop(ty); return; }
   if (x.k == Val::X && y.k == Val::X) {
      if (ty == F32) { auto c = std::log(std::complex<float>(x.ev, y.ev)); re = mkX(ty, c.real()); im = mkX(ty, c.imag()); }
      else if (ty == F64) { auto c = std::log(std::complex<double>(x.ev, y.ev)); re = mkX(ty, c.real()); im = mkX(ty, c.imag()); }
      else { auto c = std::log(std::complex<R>(x.ev, y.ev)); re = mkX(ty, c.real()); im = mkX(ty, c.imag()); }
      return;
   }
   int nx = nodeof(x), ny = nodeof(y); cat(nx, x); cat(ny, y);
   im = fn_atan2(y, x);
   int s0, s1;
   if (y.k == Val::X && y.ev == 0) re = fn_log(fabsV(x));
   else if (rawpair(nx, ny, s0, s1)) re = rawLog(ty, 4, 0);
   else {
      R lo, hi; modrange(x, y, lo, hi); lo = lo > 0 ? logl(lo) : -RINF; hi = hi < RINF ? logl(hi) : RINF;
      lo -= fabsl(lo)*4*UU[ty] + 0x1p-62L; hi += fabsl(hi)*4*UU[ty] + 0x1p-62L;
      PTM t; CT o;
      if (bounded(x) && bounded(y)) {
         TM a = toTM(x), b = toTM(y);
         if (clog_series(a, b, a.c[0], b.c[0], clogq_({(Q)a.c[0], (Q)b.c[0]}), o)) t = P(o.re);
      }
      re = mkS(ty, t, lo, hi, 4*UU[ty], ETA[ty], -1);
   }
   if (im.k == Val::S && im.tm) { auto p = std::make_shared<TM>(*im.tm); p->rem += 2*UU[ty]*p->mag(); im.tm = p; }
   if (re.k == Val::S && re.tm) { auto p = std::make_shared<TM>(*re.tm); p->rem += 2*UU[ty]*p->mag(); re.tm = p; }
   if (re.k == Val::S) re.node = newnode(N_CLOGR, nx, ny);
   im.node = newnode(N_CLOGI, nx, ny);
}
static void fn_cdiv(Val a, Val b, Val c, Val d, Val& re, Val& im) {
   const int ty = a.ty;
   for (auto* v : {&a, &b, &c, &d}) if (v->k == Val::TOP) { re = im = mkTop(ty); return; }
   if (a.k == Val::X && b.k == Val::X && c.k == Val::X && d.k == Val::X) {
      if (ty == F32) { float _Complex n, m; __real__ n = a.ev; __imag__ n = b.ev; __real__ m = c.ev; __imag__ m = d.ev; n = n/m; re = mkX(ty, __real__ n); im = mkX(ty, __imag__ n); }
      else if (ty == F64) { double _Complex n, m; __real__ n = a.ev; __imag__ n = b.ev; __real__ m = c.ev; __imag__ m = d.ev; n = n/m; re = mkX(ty, __real__ n); im = mkX(ty, __imag__ n); }
      else { R _Complex n, m; __real__ n = a.ev; __imag__ n = b.ev; __real__ m = c.ev; __imag__ m = d.ev; n = n/m; re = mkX(ty, __real__ n); im = mkX(ty, __imag__ n); }
      return;
   }
   int na = nodeof(a), nb = nodeof(b), nc = nodeof(c), nd = nodeof(d);
   cat(na, a); cat(nb, b); cat(nc, c); cat(nd, d);
   int pr = newnode(100, nc, nd);
   if (a.k == Val::X && a.ev == 0 && c.k == Val::X && c.ev == 0 && nb == nd && (b.lo > 0 || b.hi < 0)) {   // i y / i y
      re = mkX(ty, 1); im = Val(); im.k = Val::S; im.ty = ty; im.tm = P(TM(0.0L)); im.node = newnode(N_OTHER, 0, 0); return;
   }
   if (d.k == Val::X && d.ev == 0 && (c.lo > 0 || c.hi < 0)) {   // real divisor
      if (b.k == Val::X && b.ev == 0) {
         re = fdiv(a, c); bool sa = a.lo > 0 ? false : true, known = a.lo > 0 || a.hi < 0;
         // Smith: r = d/c (signed zero), im = (b - a r)/den
         bool sc = c.hi < 0, sr = sc != std::signbit(d.ev), sp = (sa != sr);      // sign of a*r
         R num = known ? (std::signbit(b.ev) ? -0.0L : 0.0L) - (sp ? -0.0L : 0.0L) : 0;
         im = mkX(ty, sc ? -num : num);
      } else { re = fdiv(a, c); im = fdiv(b, c); }
      if (re.k != Val::X) re.node = newnode(N_CDIVR, na, nb, pr); if (im.k != Val::X) im.node = newnode(N_CDIVI, na, nb, pr);
      return;
   }
   R nl, nh, dl, dh; modrange(a, b, nl, nh); modrange(c, d, dl, dh);
   int s0, s1;
   if (rawpair(nc, nd, s0, s1)) { dl = expl(CH.u0)*(1 - 0x1p-50L); dh = expl(CH.u1)*(1 + 0x1p-50L); }
   if (!(dl > 0) || !(nh < RINF)) { re = mkTop(ty, newnode(N_CDIVR, na, nb, pr)); im = mkTop(ty, newnode(N_CDIVI, na, nb, pr)); return; }
   R bd = nh/dl*(1 + 16*UU[ty]); if (bd > FMAX[ty]) { re = mkTop(ty, newnode(N_CDIVR, na, nb, pr)); im = mkTop(ty, newnode(N_CDIVI, na, nb, pr)); return; }
   bd += ETA[ty]*4;
   PTM tr, ti; bool realnum = b.k == Val::X && b.ev == 0 && a.k == Val::X;
   if (rawpair(nc, nd, s0, s1) && realnum && CH.U && CH.V) {
      // num * e^{-u} (cos v, -sin v) with the signs of the chart
      PTM e = texp(tneg(*CH.U)), cs = tsincos(*CH.V, true), sn = tsincos(*CH.V, false);
      if (e && cs && sn) { tr = P(tscale(tmul(*e, *cs), a.ev*s0*CH.sx)); ti = P(tscale(tmul(*e, *sn), -a.ev*s1*CH.sy)); }
   } else if (bounded(a) && bounded(b) && bounded(c) && bounded(d)) {
      TM tc = toTM(c), td = toTM(d); R sc = std::max(fabsl(tc.c[0]), fabsl(td.c[0]));
      if (sc > 0) {
         int e; frexpl(sc, &e); R f = ldexpl(1, -e); tc = tscale(tc, f); td = tscale(td, f);
         PTM iv = tinv(tadd(tmul(tc, tc), tmul(td, td)));
         if (iv) {
            TM ta = toTM(a), tb = toTM(b); CT n = {ta, tb}, m = {tc, tneg(td)};
            if (realnum) { tr = P(tscale(tmul(tc, *iv), a.ev*f)); ti = P(tscale(tmul(td, *iv), -a.ev*f)); }
            else { CT q = cmul(n, m); tr = P(tscale(tmul(q.re, *iv), f)); ti = P(tscale(tmul(q.im, *iv), f)); }
         }
      }
   }
   R mm = 0;
   if (tr && ti) { R m1 = tr->mag(), m2 = ti->mag(); mm = std::min(bd, hypotl(m1, m2)); }
   auto comp = [&](PTM t, bool isim) {
      R lo = -bd, hi = bd;
      if (realnum && a.ev != 0) {
         // 1/(c+id) = (c - id)/|.|^2 : signs known
         const Val& w = isim ? d : c; int sg = (a.ev > 0 ? 1 : -1)*(isim ? -1 : 1);
         if (w.lo > 0) (sg > 0 ? lo : hi) = 0; if (w.hi < 0) (sg > 0 ? hi : lo) = 0;
         // strictly nonzero if not underflowing
         R mn = (w.lo > 0 ? w.lo : w.hi < 0 ? -w.hi : 0); R den = dh*dh; R low = den < RINF ? fabsl(a.ev)*mn/den*(1 - 16*UU[ty]) : 0; low = rty(ty, low);
         if (w.lo > 0 || w.hi < 0) { bool pos = (w.lo > 0) == (sg > 0); if (pos) lo = low; else hi = -low; }
      }
      Val v = mkS(ty, t, lo, hi, realnum ? 8*UU[ty] : 0, (realnum ? 0 : 8*UU[ty]*mm) + 4*ETA[ty], newnode(isim ? N_CDIVI : N_CDIVR, na, nb, pr));
      return v;
   };
   re = comp(tr, false); im = comp(ti, true);
}
static Val fn1(const char* nm, Val a) {
   const int ty = a.ty; std::string s = nm;
   if (a.k == Val::TOP) return mkTop(ty);
   if (a.k == Val::X) {
      double d = a.ev;
      if (ty == F64) {
         if (s == "sin") return mkX(ty, sin(d)); if (s == "cos") return mkX(ty, cos(d)); if (s == "exp") return mkX(ty, exp(d)); if (s == "sqrt") return mkX(ty, sqrt(d));
         if (s == "exp2") return mkX(ty, exp2(d)); if (s == "tgamma") return mkX(ty, tgamma(d)); if (s == "atan") return mkX(ty, atan(d)); if (s == "ceil") return mkX(ty, ceil(d)); if (s == "floor") return mkX(ty, floor(d)); if (s == "tan") return mkX(ty, tan(d)); if (s == "lgamma") return mkX(ty, lgamma(d)); if (s == "log2") return mkX(ty, log2(d)); if (s == "rint" || s == "nearbyint") return mkX(ty, nearbyint(d)); if (s == "trunc") return mkX(ty, trunc(d)); if (s == "round") return mkX(ty, round(d));
      } else if (ty == F80) {
         R l = a.ev;
         if (s == "sin") return mkX(ty, sinl(l)); if (s == "cos") return mkX(ty, cosl(l)); if (s == "exp") return mkX(ty, expl(l)); if (s == "sqrt") return mkX(ty, sqrtl(l));
         if (s == "atan") return mkX(ty, atanl(l)); if (s == "ceil") return mkX(ty, ceill(l)); if (s == "floor") return mkX(ty, floorl(l)); if (s == "trunc") return mkX(ty, truncl(l));
      } else {
         float f = a.ev;
         if (s == "sin") return mkX(ty, sinf(f)); if (s == "cos") return mkX(ty, cosf(f)); if (s == "exp") return mkX(ty, expf(f)); if (s == "sqrt") return mkX(ty, sqrtf(f)); if (s == "atan") return mkX(ty, atanf(f));
      }
      throw Unsupported("constant " + s);
   }
   int node = newnode(N_OTHER, 0, 0); PTM t; R lo = -FMAX[ty], hi = FMAX[ty];
   if (s == "sin" || s == "cos") { if (a.tm) t = tsincos(*a.tm, s == "cos"); if (!bounded(a)) return mkTop(ty); return mkS(ty, t, -1, 1, 2*UU[ty], ETA[ty], node); }
   if (s == "exp") { if (a.tm) t = texp(*a.tm); lo = expl(a.lo)*(1 - 8*UU[ty]); hi = expl(a.hi)*(1 + 8*UU[ty]); return mkS(ty, t, rty(ty, lo), rty(ty, hi), 2*UU[ty], ETA[ty], node); }
   if (s == "sqrt") { if (a.lo < 0) return mkTop(ty); if (a.tm) t = tsqrt(*a.tm); lo = sqrtl(a.lo)*(1 - 4*UU[ty]); hi = sqrtl(a.hi)*(1 + 4*UU[ty]); return mkS(ty, t, rty(ty, lo), rty(ty, hi), UU[ty], ETA[ty], node); }
   if (s == "ceil" || s == "floor" || s == "rint" || s == "nearbyint" || s == "trunc" || s == "round") {
      auto f = [&](R v) { return s == "ceil" ? ceill(v) : s == "floor" ? floorl(v) : s == "trunc" ? truncl(v) : s == "round" ? roundl(v) : nearbyintl(v); };
      if (bounded(a) && f(a.lo) == f(a.hi)) return mkX(ty, f(a.lo));
      if (a.node >= 0 && a.node == CH.in0 && bounded(a)) { R c = s == "ceil" ? floorl(a.hi) : s == "floor" || s == "trunc" ? ceill(a.lo) : floorl(a.lo) + 0.5L; throw SplitAt{0, c}; }
      Val v = mkS(ty, nullptr, f(a.lo), f(a.hi), 0, 0, node); return v;
   }
   throw Unsupported("symbolic " + s);
}
static void fn_csqrt(Val x, Val y, Val& re, Val& im) {
   const int ty = x.ty;
   if (x.k == Val::TOP || y.k == Val::TOP) { re = im = mkTop(ty); return; }
   if (x.k == Val::X && y.k == Val::X && ty == F64) { auto c = std::sqrt(std::complex<double>(x.ev, y.ev)); re = mkX(ty, c.real()); im = mkX(ty, c.imag()); return; }
   if (y.k == Val::X && y.ev == 0) {
      if (x.lo > 0) { re = fn1("sqrt", x); im = y; return; }
      if (x.hi < 0) { im = fn1("sqrt", neg(x)); if (std::signbit(y.ev)) im = neg(im); re = mkX(ty, 0); return; }
   }
   R ml, mh; modrange(x, y, ml, mh); R bd = sqrtl(mh)*(1 + 8*UU[ty]); PTM tr, ti;
   if (bounded(x) && bounded(y) && (y.lo > 0 || y.hi < 0 || x.lo > 0)) {
      TM X = toTM(x), Y = toTM(y); Q cx = X.c[0], cy = Y.c[0], n = cx*cx + cy*cy;
      TM dx = X, dy = Y; dx.c[0] = dy.c[0] = 0;
      R ix = (R)(cx/n), iy = (R)(cy/n); CT w;
      w.re = tadd(tscale(dx, ix), tscale(dy, iy)); w.im = tadd(tscale(dy, ix), tscale(dx, iy), -1);
      R q = hypotl(w.re.mag(), w.im.mag());
      if (q < 0.9L) {
         int K = KS(2); std::vector<R> c(K + 1); R b = 1; for (int k = 0; k <= K; k++) { c[k] = b; b *= (0.5L - k)/(k + 1); }
         CT s; s.re = TM(c[K]); s.im = TM(0.0L);
         for (int k = K - 1; k >= 0; k--) { s = cmul(s, w); s.re = taddc(s.re, c[k]); }
         R rem = 0.5L*powl(q, K + 1)/(1 - q) + 8*EPS; s.re.rem += rem; s.im.rem += rem;
         Q r = sqrtq(sqrtq(n)), a = atan2q(cy, cx)/2; CT f; f.re = TM((R)(r*cosq(a))); f.im = TM((R)(r*sinq(a))); f.re.rem = f.im.rem = 2*EPS*(R)r;
         s = cmul(s, f); tr = P(s.re); ti = P(s.im);
      }
   }
   R lo = 0, e = 4*UU[ty]*bd;
   re = mkS(ty, tr, lo, bd, 0, e, newnode(N_OTHER, 0, 0));
   im = mkS(ty, ti, y.lo > 0 ? 0 : -bd, y.hi < 0 ? 0 : bd, 0, e, newnode(N_OTHER, 0, 0));
   auto nz = [&](Val& v, bool neg_) {  // sign of im is strict when y is bounded away from 0 : im = y/(2 re) >= |y|/(2 sqrt(mh))
      R m = (neg_ ? -y.hi : y.lo)/(2*bd)*(1 - 16*UU[ty]); m = rty(ty, m); if (neg_) v.hi = std::min(v.hi, -m); else v.lo = std::max(v.lo, m); };
   if (y.lo > 0) nz(im, false); if (y.hi < 0) nz(im, true);
}
static Val fn_fmod(Val x, Val m) {
   const int ty = x.ty;
   if (x.k == Val::TOP || m.k == Val::TOP) return mkTop(ty);
   if (x.k == Val::X && m.k == Val::X) return mkX(ty, ty == F32 ? (R)fmodf(x.ev, m.ev) : ty == F64 ? (R)fmod((double)x.ev, (double)m.ev) : fmodl(x.ev, m.ev));
   if (m.k != Val::X || !(m.ev > 0) || !bounded(x)) return mkTop(ty);
   R kl = truncl(x.lo/m.ev), kh = truncl(x.hi/m.ev);
   // correct the quotients (x86 long double division may round up)
   auto fix = [&](R v, R k) { Q r = (Q)v - (Q)k*(Q)m.ev; if (v >= 0) { if (r < 0) k -= 1; else if (r >= (Q)m.ev) k += 1; } else { if (r > 0) k += 1; else if (r <= -(Q)m.ev) k -= 1; } return k; };
   kl = fix(x.lo, kl); kh = fix(x.hi, kh);
   if (kl != kh) {
      if (x.node >= 0 && (x.node == CH.in0)) { R k = x.lo >= 0 ? kl + 1 : kl; Q c = (Q)k*(Q)m.ev; R cr = rty(ty, (R)c); if ((Q)cr < c) cr = ty == F64 ? (R)nextafter((double)cr, 1e308) : ty == F32 ? (R)nextafterf(cr, 3e38f) : nextafterl(cr, 1e308L); throw SplitAt{100, cr}; }
      if (x.node >= 0 && nodes[x.node].op == N_NEG && nodes[x.node].a == CH.in0) { R k = x.lo >= 0 ? kl + 1 : kl; Q c = (Q)k*(Q)m.ev; R cr = rty(ty, (R)c); if ((Q)cr < c) cr = ty == F64 ? (R)nextafter((double)cr, 1e308) : ty == F32 ? (R)nextafterf(cr, 3e38f) : nextafterl(cr, 1e308L); throw SplitAt{101, cr}; }
      return mkS(ty, nullptr, x.lo < 0 ? -m.ev : 0, x.hi > 0 ? m.ev : 0, 0, 0, newnode(N_OTHER, 0, 0));
   }
   Q s = (Q)kl*(Q)m.ev; PTM t;
   if (x.tm) { TM q = *x.tm; q.c[0] = (R)((Q)q.c[0] - s); q.rem += EPS*fabsl(q.c[0]); t = P(q); }
   R lo = (R)((Q)x.lo - s), hi = (R)((Q)x.hi - s);
   Val r = mkS(ty, t, wlo(ty, lo), whi(ty, hi), 0, 0, newnode(N_OTHER, 0, 0));
   if (x.lo >= 0 && r.lo < 0) r.lo = 0;
   return r;
}

// ------------------------------------------------------------ symbolic booleans
struct Atom { int kind; Val d; };            // kind 1: (d == 0) ; 0: unknown
struct SBool { bool neg; std::vector<Atom> at; };
static std::vector<SBool> sbs;
static Val mkSB(const SBool& s) { Val v; v.k = Val::SB; v.ty = INT; v.i = sbs.size(); sbs.push_back(s); return v; }
// can (P + [-rp,rp]) and (Q + [-rq,rq]) vanish together anywhere in the box?
static bool minsq(const TM& p, const TM& q, R rp, R rq, R s0, R s1, R t0, R t1, int depth) {
   R sc = (s0 + s1)/2, tc = (t0 + t1)/2, S = std::max(fabsl(s0), fabsl(s1)), T = std::max(fabsl(t0), fabsl(t1));
   R sp[48], tp[48], Sp[48], Tp[48]; sp[0] = tp[0] = Sp[0] = Tp[0] = 1;
   for (int k = 1; k <= B.D; k++) { sp[k] = sp[k - 1]*sc; tp[k] = tp[k - 1]*tc; Sp[k] = Sp[k - 1]*S; Tp[k] = Tp[k - 1]*T; }
   R a = 0, b = 0, ga = 0, gb = 0, hs = (s1 - s0)/2, ht = (t1 - t0)/2;
   for (int i = 0; i < B.N; i++) {
      const int ei = B.ei[i], ej = B.ej[i]; R m = sp[ei]*tp[ej]; a += p.c[i]*m; b += q.c[i]*m;
      R g = 0; if (ei) g += ei*Sp[ei - 1]*Tp[ej]*hs; if (ej) g += ej*Sp[ei]*Tp[ej - 1]*ht; ga += fabsl(p.c[i])*g; gb += fabsl(q.c[i])*g;
   }
   if (fabsl(a) > ga + rp || fabsl(b) > gb + rq) return true;
   if (depth == 0) return false;
   if (hs >= ht || B.nv < 2) return minsq(p, q, rp, rq, s0, sc, t0, t1, depth - 1) && minsq(p, q, rp, rq, sc, s1, t0, t1, depth - 1);
   return minsq(p, q, rp, rq, s0, s1, t0, tc, depth - 1) && minsq(p, q, rp, rq, s0, s1, tc, t1, depth - 1);
}
static bool refuted(const SBool& s) {       // conj of atoms impossible?
   std::vector<const Atom*> e;
   for (auto& a : s.at) if (a.kind == 1 && a.d.tm) e.push_back(&a);
   if (e.size() < 2) return false;
   const TM &p = *e[0]->d.tm, &q = *e[1]->d.tm;
   return minsq(p, q, p.rem*1.001L + EPS*p.absum(), q.rem*1.001L + EPS*q.absum(), -1, 1, -1, 1, B.nv > 1 ? 8 : 5);
}
static Val sbNot(const Val& a) { if (a.k == Val::I) return mkI(!a.i, 1); SBool s = sbs[a.i]; s.neg = !s.neg; return mkSB(s); }
static bool sbAnd(const Val& a, const Val& b, bool isand, Val& out) {
   if (a.k == Val::I) { out = (a.i & 1) ? (isand ? b : mkI(1, 1)) : (isand ? mkI(0, 1) : b); return true; }
   if (b.k == Val::I) { out = (b.i & 1) ? (isand ? a : mkI(1, 1)) : (isand ? mkI(0, 1) : a); return true; }
   const SBool &x = sbs[a.i], &y = sbs[b.i];
   if (x.neg != y.neg || x.neg == isand) return false;       // and of positives / or of negatives
   SBool r = x; for (auto& t : y.at) r.at.push_back(t);
   if (refuted(r)) out = mkI(r.neg ? 1 : 0, 1); else out = mkSB(r);
   return true;
}

// ------------------------------------------------------------------ state
struct Obj { int size = 0; bool ro = false; std::map<int, Val> c; };
struct Frame { int f, b, ip, prev; std::vector<Val> r; std::vector<int> dst; long id = 0; int nobj0 = 0; std::map<int, int> amb; };
struct Reg { long id, fid; int j; };            // open fork region : joins at block j of frame fid (j < 0: at its return)
struct State { std::vector<Frame> fr; std::map<int, Obj> mem; int nobj = 1; std::vector<Reg> rg; std::vector<PTM> eq; };   // eq: polynomials that vanish (up to rem) on this path
struct Leaf { std::vector<Val> ret; std::map<int, Obj> mem; std::vector<PTM> eq; };
static long allsteps = 0, steps = 0, nforks = 0, nassumed = 0; static int UNWIND = 300; static bool NOASSUME = false; static long STEPMAX = 400000;
static std::set<int> usedfn; static std::set<std::string> usedext;

static Val evalOpd(const State& s, const Opd& o) {
   switch (o.k) {
   case 'r': return s.fr.back().r[o.r];
   case 'f': return mkX(o.ty, o.f);
   case 'i': return mkI(o.i, o.w);
   case 'g': { Val v; v.k = Val::P; v.ty = PTR; v.base = -1 - o.r; v.i = o.i; return v; }
   default: { Val v; return v; }
   }
}
static Val loadMem(State& s, const Val& p, int ty, int w) {
   if (p.k != Val::P) throw Unsupported("load through non-pointer");
   if (p.base < 0) {
      const Glob& g = globs[-1 - p.base];
      for (auto& c : g.cells) if (c.off == p.i) { if (c.v.k == 'f') return mkX(c.v.ty, c.v.f); if (c.v.k == 'i') return mkI(c.v.i); return evalOpd(s, c.v); }
      throw Unsupported("global load out of table");
   }
   auto& o = s.mem[p.base]; auto it = o.c.find(p.i);
   if (it == o.c.end()) { Val v; if (ty <= F80) return mkTop(ty); throw Unsupported("load of uninitialised memory"); }
   Val v = it->second;
   if (ty == INT && v.k == Val::I && w < 64) { v.i = w == 32 ? (int32_t)v.i : w == 8 ? (int8_t)v.i : w == 1 ? (v.i & 1) : v.i; }
   if (ty <= F80 && v.k == Val::I) { if (v.i == 0) return mkX(ty, 0); double d; int64_t x = v.i; memcpy(&d, &x, 8); return mkX(F64, d); }
   return v;
}
static void storeMem(State& s, const Val& p, const Val& v) {
   if (p.k != Val::P) throw Unsupported("store through non-pointer");
   if (p.base < 0) throw Unsupported("store to global");
   s.mem[p.base].c[p.i] = v;
}
static R ulpof(int ty, R x) {       // unit in the last place of the binade of |x|
   const int p[3] = {24, 53, 64}, em[3] = {-149, -1074, -16445}; if (!bounded_(x)) return RINF; if (x == 0) return ldexpl(1, em[ty]);
   int e; frexpl(x, &e); return ldexpl(1, std::max(e - p[ty], em[ty]));
}
// a = fl(b + t) compared with b : 1 equal, 0 different, -1 unknown
static int absorbed(const Val& a, const Val& b) {
   for (int o = 0; o < 2; o++) {
      const Val& s = o ? b : a; const Val& v = o ? a : b; if (s.node < 0 || v.node < 0) continue; const Node& n = nodes[s.node];
      if (n.op != N_ADD && n.op != N_SUB) continue; int tn = n.a == v.node ? n.b : (n.op == N_ADD && n.b == v.node) ? n.a : -1; if (tn < 0) continue;
      Val t = nval[tn]; if (nodes[tn].op == N_CONST) t = mkX(v.ty, nodes[tn].v); if (!t.num()) continue;
      auto mn = [](const Val& x) { return x.lo > 0 ? x.lo : x.hi < 0 ? -x.hi : (R)0; }; auto mx = [](const Val& x) { return std::max(fabsl(x.lo), fabsl(x.hi)); };
      if (mx(t) == 0) return 1;
      if (mn(v) > 0 && mx(t) < ulpof(v.ty, mn(v))/4) return 1;
      if (bounded(v) && mn(t) > ulpof(v.ty, mx(v))/2) return 0;
   }
   return -1;
}
static int cmpf(const char* pr, Val& a, Val& b, bool& eqatom) {     // 1 true 0 false -1 undecided
   eqatom = false; std::string s = pr;
   if (a.k == Val::X && b.k == Val::X) {
      R x = a.ev, y = b.ev; bool un = x != x || y != y;
      if (s == "oeq") return !un && x == y; if (s == "ogt") return !un && x > y; if (s == "oge") return !un && x >= y; if (s == "olt") return !un && x < y;
      if (s == "ole") return !un && x <= y; if (s == "one") return !un && x != y; if (s == "ord") return !un; if (s == "uno") return un;
      if (s == "ueq") return un || x == y; if (s == "ugt") return un || x > y; if (s == "uge") return un || x >= y; if (s == "ult") return un || x < y;
      if (s == "ule") return un || x <= y; if (s == "une") return un || x != y; if (s == "true") return 1; if (s == "false") return 0;
   }
   if (a.k == Val::X && a.ev != a.ev) { return s[0] == 'u'; }
   if (b.k == Val::X && b.ev != b.ev) { return s[0] == 'u'; }
   if (s == "true") return 1; if (s == "false") return 0;
   if (a.k == Val::TOP || b.k == Val::TOP) return -1;
   if (!a.num() || !b.num()) throw Unsupported("fcmp operands");
   if (s == "ord") return 1; if (s == "uno") return 0;
   std::string q = s.substr(1);
   const bool same = a.node >= 0 && a.node == b.node;
   if (q == "gt") return a.lo > b.hi ? 1 : (same || a.hi <= b.lo) ? 0 : -1;
   if (q == "ge") return (same || a.lo >= b.hi) ? 1 : a.hi < b.lo ? 0 : -1;
   if (q == "lt") return a.hi < b.lo ? 1 : (same || a.lo >= b.hi) ? 0 : -1;
   if (q == "le") return (same || a.hi <= b.lo) ? 1 : a.lo > b.hi ? 0 : -1;
   if (q == "eq" || q == "ne") {
      eqatom = true; int r = same || (a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) ? 1 : (a.lo > b.hi || a.hi < b.lo) ? 0 : -1;
      if (r == -1) r = absorbed(a, b);
      if (r == -1 && a.tm && b.k == Val::S && b.tm) { TM d = tadd(*a.tm, *b.tm, -1); R l, h; d.range(l, h); if (l > 0 || h < 0) r = 0; }
      if (r == -1) return -1;
      return q == "eq" ? r : !r;
   }
   throw Unsupported("fcmp " + s);
}
static int rawvar(const Val& v) { if (v.node < 0) return -1; if (v.node == CH.in0) return 0; if (v.node == CH.in1) return 1; return -1; }
static int rawneg(const Val& v) { if (v.node < 0 || nodes[v.node].op != N_NEG) return -1; int n = nodes[v.node].a; if (n == CH.in0) return 0; if (n == CH.in1) return 1; return -1; }

static void pushBranch(State& s, int to) { Frame& f = s.fr.back(); f.prev = f.b; f.b = to; f.ip = 0;
   // phis (parallel)
   Blk& b = fns[f.f].b[to]; std::vector<std::pair<int, Val>> w; size_t k = 0;
   for (; k < b.ins.size() && b.ins[k].op == PHI; k++) {
      Ins& i = b.ins[k]; bool ok = false;
      for (size_t j = 0; j < i.lab.size(); j++) if (i.lab[j] == f.prev) { w.push_back({i.dst, evalOpd(s, i.args[j])}); ok = true; break; }
      if (!ok) throw Unsupported("phi");
   }
   for (auto& x : w) f.r[x.first] = x.second;
   f.ip = k;
}
static int64_t trunci(int64_t v, int w) { if (w >= 64) return v; int64_t m = (1LL << w) - 1; v &= m; if (w > 1 && (v >> (w - 1))) v |= ~m; return v; }

static bool external(State& s, Ins& i, std::vector<Val>& a, std::vector<Val>& out) {
   std::string n = i.s;
   usedext.insert(n);
   if (n.compare(0, 5, "llvm.") == 0) { n = n.substr(5); size_t d = n.find('.'); if (d != std::string::npos) n = n.substr(0, d); }
   if (n.compare(0, 10, "__builtin_") == 0) n = n.substr(10);
   { size_t d = n.find(".f"); if (d != std::string::npos) n = n.substr(0, d); }
   auto strip = [&](const std::string& base) { return n == base || n == base + "f" || n == base + "l"; };
   auto cargs = [&](int k, Val& x, Val& y) { if (a[k].k == Val::P) { int ty = F80; x = loadMem(s, a[k], ty, 0); Val p = a[k]; p.i += 16; y = loadMem(s, p, ty, 0); } else { x = a[k]; y = a[k + 1]; } };
   Val x, y, r, q;
   if (n == "fabs" || n == "fabsf" || n == "fabsl") { out = {fabsV(a[0])}; return true; }
   if (strip("log")) { out = {fn_log(a[0])}; return true; }
   if (strip("log1p")) { out = {fn_log1p(a[0])}; return true; }
   if (strip("hypot")) { out = {fn_hypot(a[0], a[1])}; return true; }
   if (strip("atan2")) { out = {fn_atan2(a[0], a[1])}; return true; }
   if (strip("cabs")) { cargs(0, x, y); out = {fn_hypot(x, y)}; return true; }
   if (strip("carg")) { cargs(0, x, y); out = {fn_atan2(y, x)}; return true; }
   if (strip("clog")) { cargs(0, x, y); fn_clog(x, y, r, q); out = {r, q}; return true; }
   if (strip("csqrt")) { cargs(0, x, y); fn_csqrt(x, y, r, q); out = {r, q}; return true; }
   if (strip("fmod")) { out = {fn_fmod(a[0], a[1])}; return true; }
   if (strip("copysign")) { if (a[1].num() && (a[1].lo > 0 || a[1].hi < 0 || a[1].k == Val::X)) { bool sg = a[1].k == Val::X ? std::signbit(a[1].ev) : a[1].hi < 0; Val f = fabsV(a[0]); out = {sg ? neg(f) : f}; return true; } throw Unsupported("copysign"); }
   if (n == "fma" || n == "fmal" || n == "fmaf" || n == "fmuladd") { out = {fadd(fmul(a[0], a[1]), a[2], 1)}; return true; }
   if (n == "__divdc3" || n == "__divsc3" || n == "__divxc3" || n == "__cdivf64" || n == "__cdivf32" || n == "__cdivf80") { fn_cdiv(a[0], a[1], a[2], a[3], r, q); out = {r, q}; return true; }
   if (n == "__muldc3" || n == "__mulsc3" || n == "__mulxc3") { out = {mkTop(a[0].ty), mkTop(a[0].ty)}; return true; }
   if (n == "powi" || n == "powidf2" || n == "__powidf2" || n == "__builtin_powi") {
      if (a[1].k != Val::I) throw Unsupported("powi"); int64_t e = std::abs(a[1].i); Val b = a[0], res = mkX(b.ty, 1); bool first = true;
      while (e) { if (e & 1) { res = first ? b : fmul(res, b); first = false; } e >>= 1; if (e) b = fmul(b, b); }
      if (a[1].i < 0) res = fdiv(mkX(b.ty, 1), res); out = {res}; return true; }
   if (strip("pow")) {
      if (a[0].k == Val::X && a[1].k == Val::X) { out = {mkX(a[0].ty, a[0].ty == F80 ? powl(a[0].ev, a[1].ev) : a[0].ty == F64 ? (R)pow((double)a[0].ev, (double)a[1].ev) : (R)powf(a[0].ev, a[1].ev))}; return true; }
      if (a[1].k == Val::X && a[0].num() && bounded(a[0]) && (a[0].lo > 0 || a[0].hi < 0) && fabsl(a[1].ev) < 400 && truncl(a[1].ev) == a[1].ev) {
         int e = (int)fabsl(a[1].ev); const int ty = a[0].ty; TM b = toTM(a[0]), res(1.0L); int e0 = e;
         while (e) { if (e & 1) res = tmul(res, b); e >>= 1; if (e) b = tmul(b, b); }
         PTM t = P(res); if (a[1].ev < 0) t = tinv(res);
         R m = std::max(fabsl(a[0].lo), fabsl(a[0].hi)), l = std::min(fabsl(a[0].lo), fabsl(a[0].hi)); R h = powl(m, a[1].ev), g = powl(l, a[1].ev); if (h < g) std::swap(h, g); g *= 1 - 1e-15L; h *= 1 + 1e-15L; g = rty(ty, g); h = rty(ty, h);
         if (a[0].hi < 0 && (e0 & 1)) { R z = -g; g = -h; h = z; }
         out = {mkS(ty, t, g, h, 2*UU[ty], ETA[ty], newnode(N_OTHER, 0, 0))}; return true;
      }
      out = {mkTop(a[0].ty)}; return true;
   }
   for (const char* f : {"sin", "cos", "tan", "exp", "exp2", "sqrt", "tgamma", "lgamma", "atan", "ceil", "floor", "rint", "nearbyint", "trunc", "round", "log2"})
      if (strip(f)) { out = {fn1(f, a[0])}; return true; }
   if (n == "sincos") { Val sn = fn1("sin", a[0]), cs = fn1("cos", a[0]); storeMem(s, a[1], sn); storeMem(s, a[2], cs); out = {}; return true; }
   if (n.compare(0, 8, "lifetime") == 0 || n == "assume") { out = {}; return true; }
   if (n == "trap" || n == "ubsantrap") throw Unsupported("trap reached");
   if (n == "fmin" || n == "fmax" || n == "minnum" || n == "maxnum") {
      bool e; const bool mx = n == "fmax" || n == "maxnum"; int c = cmpf("olt", a[0], a[1], e);
      if (c >= 0) { out = {(c == 1) == mx ? a[1] : a[0]}; return true; }
      if (a[0].num() && a[1].num()) { R lo = mx ? std::max(a[0].lo, a[1].lo) : std::min(a[0].lo, a[1].lo), hi = mx ? std::max(a[0].hi, a[1].hi) : std::min(a[0].hi, a[1].hi); out = {mkS(a[0].ty, nullptr, lo, hi, 0, 0, newnode(N_OTHER, 0, 0))}; return true; } }
   if ((n == "smax" || n == "smin" || n == "abs" || n == "umin" || n == "umax") && a[0].k == Val::I) { int64_t p = a[0].i, t = a.size() > 1 ? a[1].i : 0; int64_t v = n == "smax" ? std::max(p, t) : n == "smin" ? std::min(p, t) : n == "abs" ? std::abs(p) : n == "umin" ? (int64_t)std::min((uint64_t)p, (uint64_t)t) : (int64_t)std::max((uint64_t)p, (uint64_t)t); out = {mkI(v)}; return true; }
   throw Unsupported("call " + i.s);
}

static bool TRACE = getenv("TMX_TRACE") != nullptr;
// ---- merging of paths that forked inside one call (convergence tests etc.)
static bool FORKDBG = getenv("TMX_FORK") != nullptr;
static long callids = 0, regids = 0; static std::map<long, std::vector<State>> parked;
struct Cfg { std::vector<int> ipd; std::vector<std::vector<char>> live; };
static std::map<int, Cfg> cfgs;
static const Cfg& cfgOf(int fi) {
   auto it = cfgs.find(fi); if (it != cfgs.end()) return it->second;
   Fn& f = fns[fi]; const int n = f.b.size(); Cfg c; std::vector<std::vector<int>> suc(n);
   for (int b = 0; b < n; b++) for (auto& i : f.b[b].ins) if (i.op == BR || i.op == CBR || i.op == SWITCH) for (int l : i.lab) suc[b].push_back(l);
   // post-dominators (node n = exit)
   std::vector<std::vector<char>> pd(n + 1, std::vector<char>(n + 1, 1)); std::fill(pd[n].begin(), pd[n].end(), 0); pd[n][n] = 1;
   for (bool ch = true; ch;) { ch = false; for (int b = n - 1; b >= 0; b--) { std::vector<char> v(n + 1, suc[b].empty() ? 0 : 1); if (suc[b].empty()) v[n] = 1; for (int t : suc[b]) for (int k = 0; k <= n; k++) v[k] &= pd[t][k]; v[b] = 1; if (v != pd[b]) { pd[b] = v; ch = true; } } }
   c.ipd.assign(n, -1);
   for (int b = 0; b < n; b++) { int best = -1, bc = -1; for (int k = 0; k < n; k++) if (k != b && pd[b][k]) { int cnt = 0; for (int q = 0; q <= n; q++) cnt += pd[k][q]; if (cnt > bc) { bc = cnt; best = k; } } c.ipd[b] = best; }
   // registers live after the phis of a block
   c.live.assign(n, std::vector<char>(f.nreg, 0));
   auto uses = [&](const Ins& i, auto&& fnc) { if (i.a.k == 'r') fnc(i.a.r); if (i.b.k == 'r') fnc(i.b.r); if (i.c.k == 'r') fnc(i.c.r); for (auto& o : i.args) if (o.k == 'r') fnc(o.r); };
   for (bool ch = true; ch;) { ch = false; for (int b = n - 1; b >= 0; b--) {
      std::vector<char> v(f.nreg, 0);
      for (int t : suc[b]) { std::vector<char> w = c.live[t]; for (auto& i : f.b[t].ins) if (i.op == PHI) w[i.dst] = 0; for (int k = 0; k < f.nreg; k++) v[k] |= w[k];
         for (auto& i : f.b[t].ins) if (i.op == PHI) for (size_t j = 0; j < i.lab.size(); j++) if (i.lab[j] == b && i.args[j].k == 'r') v[i.args[j].r] = 1; }
      for (int k = (int)f.b[b].ins.size() - 1; k >= 0; k--) { auto& i = f.b[b].ins[k]; if (i.op == PHI) break; if (i.dst) v[i.dst] = 0; for (int d : i.dsts) v[d] = 0; uses(i, [&](int r) { v[r] = 1; }); }
      if (v != c.live[b]) { c.live[b] = v; ch = true; } } }
   return cfgs[fi] = c;
}
static void openRegion(State& s) {
   Frame& f = s.fr.back(); const int j = cfgOf(f.f).ipd[f.b];
   if (!s.rg.empty() && s.rg.back().fid == f.id && s.rg.back().j == j) return;
   s.rg.push_back({++regids, f.id, j});
}
static bool mergeVal(Val& a, const Val& b) {
   if (a.k == b.k && a.k != Val::S && a.k != Val::X) { if (a.k == Val::UND) return true; if (a.k == Val::TOP) return true; return a.k == Val::I ? a.i == b.i : a.k == Val::P ? a.base == b.base && a.i == b.i : false; }
   if (a.k == Val::UND || b.k == Val::UND) { a = Val(); return true; }      // not live on one of the paths
   if (!a.num() || !b.num()) return false;
   if (a.k == Val::X && b.k == Val::X && (a.ev == b.ev && std::signbit(a.ev) == std::signbit(b.ev))) return true;
   if (a.k == Val::S && b.k == Val::S && a.node >= 0 && a.node == b.node) return true;
   if (!bounded(a) || !bounded(b)) return false;
   TM x = toTM(a), y = toTM(b), d = tadd(x, y, -1); R dev = d.absum() - d.rem; if (!(dev == dev)) return false; dev = 0; for (int i = 0; i < B.N; i++) dev += fabsl(d.c[i]);
   const R mag = std::max(std::max(fabsl(a.lo), fabsl(a.hi)), std::max(fabsl(b.lo), fabsl(b.hi)));
   if (!(dev <= 256*UU[a.ty]*mag + ETA[a.ty]*4 + 0.05L*std::min(x.rem, y.rem))) return false;
   if (FORKDBG) fprintf(stderr, "merge dev %Lg mag %Lg rem %Lg %Lg\n", dev, mag, x.rem, y.rem);
   Val r; r.k = Val::S; r.ty = a.ty; r.lo = std::min(a.lo, b.lo); r.hi = std::max(a.hi, b.hi); r.node = newnode(N_OTHER, 0, 0);
   auto p = std::make_shared<TM>(x); p->rem = std::max(x.rem, dev*(1 + 0x1p-50L) + y.rem); r.tm = p; nval[r.node] = r;
   a = r; return true;
}
static bool mergeState(State& a, State& b, int keep, bool atblock) {        // a, b after return; objects with id >= keep are dead
   if (a.fr.size() != b.fr.size()) return false;
   State m = a;
   for (size_t k = 0; k < m.fr.size(); k++) { Frame &f = m.fr[k], &g = b.fr[k]; if (f.f != g.f || f.b != g.b || f.ip != g.ip || f.r.size() != g.r.size()) return false;
      const bool top = k + 1 == m.fr.size(); const std::vector<char>* lv = top && atblock ? &cfgOf(f.f).live[f.b] : nullptr;
      for (size_t i = 0; i < f.r.size(); i++) { if (lv && !(*lv)[i]) continue; if (!mergeVal(f.r[i], g.r[i])) return false; } }
   for (auto& o : m.mem) if (o.first < keep) { auto it = b.mem.find(o.first); if (it == b.mem.end()) return false; if (o.second.c.size() != it->second.c.size()) return false;
      auto p = o.second.c.begin(); auto q = it->second.c.begin(); for (; p != o.second.c.end(); ++p, ++q) { if (p->first != q->first) return false; if (!mergeVal(p->second, q->second)) return false; } }
   m.nobj = std::max(a.nobj, b.nobj);
   { std::vector<PTM> e; for (auto& p : a.eq) for (auto& q : b.eq) if (p == q) { e.push_back(p); break; } m.eq = e; }
   a = std::move(m); return true;
}
// s has reached the join of its innermost region; false: parked until its siblings arrive
static bool arrive(State& s, std::vector<State>& work, int keep, bool atblock) {
   const long id = s.rg.back().id; s.rg.pop_back();
   bool sib = false; for (auto& w : work) { for (auto& r : w.rg) if (r.id == id) { sib = true; break; } if (sib) break; }
   if (!sib && !parked.count(id)) return true;
   std::vector<State>& pk = parked[id]; bool done = false; for (auto& q : pk) if (mergeState(q, s, keep, atblock)) { done = true; break; }
   if (!done) pk.push_back(std::move(s));
   if (sib) return false;
   std::vector<State> all = std::move(pk); parked.erase(id); s = std::move(all.back()); all.pop_back(); for (auto& q : all) work.push_back(std::move(q));
   return true;
}
static std::vector<int> succs(const Fn& fn, int b) { const Ins& t = fn.b[b].ins.back(); return t.op == BR || t.op == CBR || t.op == SWITCH ? t.lab : std::vector<int>(); }
// number of blocks from b to one that cannot come back to `from` (a loop exit); 1 << 20: none
static int exitDist(int f, int from, int b) {
   static std::map<std::pair<int, int>, std::vector<char>> memo;      // blocks that can reach `from`
   Fn& fn = fns[f]; auto& back = memo[{f, from}];
   if (back.empty()) {
      back.assign(fn.b.size(), 0); back[from] = 1;
      for (bool ch = true; ch;) { ch = false; for (size_t k = 0; k < fn.b.size(); k++) if (!back[k]) for (int t : succs(fn, k)) if (back[t]) { back[k] = 1; ch = true; break; } }
   }
   std::vector<int> cur{b}; std::set<int> seen{b};
   for (int d = 0; !cur.empty(); d++) { std::vector<int> nx; for (int k : cur) { if (!back[k]) return d; if (k == from) continue; for (int t : succs(fn, k)) if (seen.insert(t).second) nx.push_back(t); } cur = nx; }
   return 1 << 20;
}
// run one state to completion; forks are appended to `work`
static bool runState(State& s, std::vector<State>& work, Leaf& leaf) {
   while (true) {
      ++allsteps; if (++steps > STEPMAX) throw Unsupported("step limit");
      Frame& f = s.fr.back(); Ins& i = fns[f.f].b[f.b].ins[f.ip];
      auto ev = [&](const Opd& o) { return evalOpd(s, o); };
      // fork a symbolic boolean operand held in a register
      auto concretise = [&](const Opd& o) {
         if (o.k != 'r') return; Val& v = f.r[o.r]; if (v.k != Val::SB) return;
         if (++nforks > 2600 || work.size() > 3000) throw TooManyForks();
         openRegion(s); if (FORKDBG) fprintf(stderr, "fork %s b%d ip%d depth %zu work %zu\n", fns[f.f].name.c_str(), f.b, f.ip, s.fr.size(), work.size()); const SBool sb = sbs[v.i]; State t = s; t.fr.back().r[o.r] = mkI(0, 1); for (auto& a : sb.at) if (a.kind == 1 && a.d.tm) (sb.neg ? t : s).eq.push_back(a.d.tm); work.push_back(std::move(t)); f.r[o.r] = mkI(1, 1);
      };
      switch (i.op) {
      case COPY: f.r[i.dst] = ev(i.a); break;
      case FNEG: { Val a = ev(i.a); if (a.k == Val::UND) a = mkTop(i.ty); f.r[i.dst] = neg(a); nval.size(); if (f.r[i.dst].node >= 0) nval[f.r[i.dst].node] = f.r[i.dst]; break; }
      case BIN: {
         if (i.ty <= F80) {
            Val a = ev(i.a), b = ev(i.b), r;
            if (a.k == Val::UND || b.k == Val::UND) { f.r[i.dst] = mkTop(i.ty); break; }
            if (i.s == "fadd") r = fadd(a, b, 1); else if (i.s == "fsub") r = fadd(a, b, -1); else if (i.s == "fmul") r = fmul(a, b); else if (i.s == "fdiv") r = fdiv(a, b); else if (i.s == "frem") r = fn_fmod(a, b); else throw Unsupported(i.s);
            if (r.num() && r.node >= 0) nval[r.node] = r;
            f.r[i.dst] = r; break;
         }
         Val a = ev(i.a), b = ev(i.b);
         if (a.k == Val::SB || b.k == Val::SB) {
            if (i.s == "xor" && (a.k == Val::I || b.k == Val::I)) { const Val& k = a.k == Val::I ? a : b; const Val& o = a.k == Val::I ? b : a; f.r[i.dst] = (k.i & 1) ? sbNot(o) : o; break; }
            Val o; if ((i.s == "and" || i.s == "or") && sbAnd(a, b, i.s == "and", o)) { f.r[i.dst] = o; break; }
            if (a.k == Val::SB) concretise(i.a); else concretise(i.b);
            continue;
         }
         if (a.k == Val::P || b.k == Val::P || a.k == Val::UND || b.k == Val::UND) throw Unsupported("pointer arithmetic");
         if (!(a.k == Val::I && b.k == Val::I)) throw Unsupported("int op on float bits");
         int64_t x = a.i, y = b.i, r = 0; const std::string& o = i.s; uint64_t ux = x, uy = y; if (i.w < 64) { uint64_t m = (1ULL << i.w) - 1; ux &= m; uy &= m; }
         if (o == "add") r = (uint64_t)x + (uint64_t)y; else if (o == "sub") r = (uint64_t)x - (uint64_t)y; else if (o == "mul") r = (uint64_t)x*(uint64_t)y;
         else if (o == "sdiv") { if (!y) throw Unsupported("div0"); r = x/y; } else if (o == "srem") { if (!y) throw Unsupported("div0"); r = x % y; } else if (o == "udiv") { if (!uy) throw Unsupported("div0"); r = ux/uy; } else if (o == "urem") { if (!uy) throw Unsupported("div0"); r = ux % uy; }
         else if (o == "and") r = x & y; else if (o == "or") r = x | y; else if (o == "xor") r = x ^ y; else if (o == "shl") r = ux << uy; else if (o == "lshr") r = ux >> uy; else if (o == "ashr") r = x >> y; else throw Unsupported(o);
         f.r[i.dst] = mkI(trunci(r, i.w), i.w); break;
      }
      case FCMP: {
         Val a = ev(i.a), b = ev(i.b); bool eqa;
         if (a.k == Val::UND || b.k == Val::UND) throw Unsupported("fcmp undef");
         int c = cmpf(i.s.c_str(), a, b, eqa);
         if (c >= 0) { f.r[i.dst] = mkI(c, 1); break; }
         // raw input against a constant: split the box there
         if (CH.kind == 0 || CH.kind == 2 || CH.kind == 4) { if (b.k == Val::X) { int v = rawvar(a); if (v >= 0) throw SplitAt{v, b.ev}; v = rawneg(a); if (v >= 0) throw SplitAt{v, -b.ev}; }
         if (a.k == Val::X) { int v = rawvar(b); if (v >= 0) throw SplitAt{v, a.ev}; v = rawneg(b); if (v >= 0) throw SplitAt{v, -a.ev}; } }
         SBool sb; sb.neg = false; Atom at; at.kind = 0;
         if (eqa) {
            at.kind = 1; sb.neg = i.s == "une" || i.s == "one";
            if (a.num() && b.num() && (a.tm || b.tm)) { at.d.k = Val::S; at.d.tm = P(tadd(toTM(a), toTM(b), -1)); }
         }
         sb.at.push_back(at); f.r[i.dst] = mkSB(sb); break;
      }
      case ICMP: {
         Val a = ev(i.a), b = ev(i.b);
         if (a.k == Val::SB) { concretise(i.a); continue; } if (b.k == Val::SB) { concretise(i.b); continue; }
         if (a.k == Val::P && b.k == Val::P) { bool e = a.base == b.base && a.i == b.i; f.r[i.dst] = mkI(i.s == "eq" ? e : !e, 1); break; }
         if (a.k != Val::I || b.k != Val::I) throw Unsupported("icmp operands");
         int64_t x = a.i, y = b.i; uint64_t ux = x, uy = y; if (i.w < 64) { uint64_t m = (1ULL << i.w) - 1; ux &= m; uy &= m; x = trunci(x, i.w); y = trunci(y, i.w); }
         const std::string& o = i.s; bool r = o == "eq" ? x == y : o == "ne" ? x != y : o == "slt" ? x < y : o == "sle" ? x <= y : o == "sgt" ? x > y : o == "sge" ? x >= y : o == "ult" ? ux < uy : o == "ule" ? ux <= uy : o == "ugt" ? ux > uy : ux >= uy;
         f.r[i.dst] = mkI(r, 1); break;
      }
      case CAST: {
         Val a = ev(i.a);
         if (a.k == Val::SB) { concretise(i.a); continue; }
         const std::string& o = i.s;
         if (o == "sitofp" || o == "uitofp") {
            if (a.k != Val::I) throw Unsupported("sitofp"); int64_t v = trunci(a.i, i.w);
            if (o[0] == 'u') { uint64_t u = v; if (i.w < 64) u &= (1ULL << i.w) - 1; f.r[i.dst] = mkX(i.ty2, i.ty2 == F32 ? (R)(float)u : i.ty2 == F64 ? (R)(double)u : (R)u); }
            else f.r[i.dst] = mkX(i.ty2, i.ty2 == F32 ? (R)(float)v : i.ty2 == F64 ? (R)(double)v : (R)v);
         } else if (o == "fptosi" || o == "fptoui") {
            if (a.k == Val::X && fabsl(a.ev) < 9.2e18L) f.r[i.dst] = mkI((int64_t)truncl(a.ev));
            else if (a.num() && bounded(a) && truncl(a.lo) == truncl(a.hi)) f.r[i.dst] = mkI((int64_t)truncl(a.lo));
            else throw Unsupported("fptosi symbolic");
         } else if (o == "fpext") { Val r = a; r.ty = i.ty2; f.r[i.dst] = r; }
         else if (o == "fptrunc") {
            if (a.k == Val::X) f.r[i.dst] = mkX(i.ty2, a.ev); else if (a.k == Val::TOP) f.r[i.dst] = mkTop(i.ty2);
            else f.r[i.dst] = mkS(i.ty2, a.tm, rty(i.ty2, a.lo), rty(i.ty2, a.hi), UU[i.ty2], ETA[i.ty2], newnode(N_OTHER, 0, 0));
         } else if (o == "zext" || o == "sext" || o == "trunc") {
            if (a.k != Val::I) throw Unsupported(o); int64_t v = a.i; if (o == "zext" && i.w < 64) v &= (1LL << i.w) - 1; else if (o == "sext") v = i.w == 1 ? -(v & 1) : trunci(v, i.w); else v = trunci(v, i.w2); f.r[i.dst] = mkI(v);
         } else if (o == "bitcast") f.r[i.dst] = a; else throw Unsupported("cast " + o);
         break;
      }
      case SELECT: {
         Val c = ev(i.c);
         if (c.k == Val::SB) {
            Val a = ev(i.a), b = ev(i.b), o;
            if (i.ty == INT && i.w == 1) {
               if (a.k == Val::I && (a.i & 1) && sbAnd(c, b, false, o)) { f.r[i.dst] = o; break; }
               if (b.k == Val::I && !(b.i & 1) && sbAnd(c, a, true, o)) { f.r[i.dst] = o; break; }
            }
            concretise(i.c); continue;
         }
         f.r[i.dst] = ev((c.i & 1) ? i.a : i.b); break;
      }
      case PHI: throw Unsupported("phi order");
      case BR: pushBranch(s, i.lab[0]); goto joined;
      case CBR: {
         Val c = ev(i.c);
         if (c.k == Val::SB) {
            if (i.c.k != 'r') throw Unsupported("cbr");
            // a loop test that is still undecided after UNWIND undecided iterations: unwinding assumption (reported)
            if (++f.amb[f.b] > UNWIND) { if (NOASSUME) throw Unsupported("loop test undecided"); const int d0 = exitDist(f.f, f.b, i.lab[0]), d1 = exitDist(f.f, f.b, i.lab[1]); if (d0 != d1 && std::min(d0, d1) < (1 << 20)) { nassumed++; f.r[i.c.r] = mkI(d0 < d1, 1); continue; } }
            concretise(i.c); continue;
         }
         if (c.k != Val::I) throw Unsupported("cbr cond");
         pushBranch(s, (c.i & 1) ? i.lab[0] : i.lab[1]); goto joined;
      }
      case SWITCH: {
         Val a = ev(i.a); if (a.k == Val::SB) { concretise(i.a); continue; } if (a.k != Val::I) throw Unsupported("switch");
         int to = i.lab[0]; for (size_t k = 0; k < i.n.size(); k++) if (trunci(a.i, i.w) == trunci(i.n[k], i.w)) { to = i.lab[k + 1]; break; }
         pushBranch(s, to); goto joined;
      }
      case RET: {
         std::vector<Val> r; for (auto& o : i.args) r.push_back(ev(o));
         if (s.fr.size() == 1) { leaf.ret = r; leaf.mem = std::move(s.mem); leaf.eq = s.eq; return true; }
         std::vector<int> d = f.dst; const long cid = f.id; const int keep = f.nobj0; s.fr.pop_back(); Frame& g = s.fr.back();
         for (size_t k = 0; k < d.size() && k < r.size(); k++) g.r[d[k]] = r[k];
         g.ip++;
         { bool go = true; while (go && !s.rg.empty() && s.rg.back().fid == cid) go = arrive(s, work, keep, false); if (!go) return false; }
         continue;
      }
      case UNREACH: throw Unsupported("unreachable executed");
      case ALLOCA: { Val v; v.k = Val::P; v.ty = PTR; v.base = s.nobj++; v.i = 0; s.mem[v.base].size = i.n[0]; f.r[i.dst] = v; break; }
      case LOAD: f.r[i.dst] = loadMem(s, ev(i.a), i.ty, i.w); break;
      case STORE: storeMem(s, ev(i.b), ev(i.a)); break;
      case GEP: {
         Val b = ev(i.a); if (b.k != Val::P) throw Unsupported("gep base"); b.i += i.n[0];
         for (size_t k = 0; k < i.args.size(); k++) { Val x = ev(i.args[k]); if (x.k != Val::I) throw Unsupported("gep index"); b.i += x.i*i.n[k + 1]; }
         f.r[i.dst] = b; break;
      }
      case MEMCPY: {
         Val d = ev(i.a), q = ev(i.b), n = ev(i.c); if (d.k != Val::P || q.k != Val::P || n.k != Val::I) throw Unsupported("memcpy");
         std::vector<std::pair<int, Val>> w;
         if (q.base < 0) { for (auto& c : globs[-1 - q.base].cells) if (c.off >= q.i && c.off < q.i + n.i) w.push_back({c.off - (int)q.i, evalOpd(s, c.v)}); }
         else for (auto& c : s.mem[q.base].c) if (c.first >= q.i && c.first < q.i + n.i) w.push_back({c.first - (int)q.i, c.second});
         for (auto& c : w) s.mem[d.base].c[d.i + c.first] = c.second;
         break;
      }
      case MEMSET: { Val d = ev(i.a), b = ev(i.b), n = ev(i.c); if (b.k != Val::I || b.i != 0) throw Unsupported("memset"); for (int k = 0; k < n.i; k += 8) s.mem[d.base].c[d.i + k] = mkI(0); break; }
      case UNSUP: throw Unsupported(i.s);
      case CALL: {
         std::vector<Val> a; for (auto& o : i.args) a.push_back(ev(o));
         if (i.fn >= 0) {
            Fn& g = fns[i.fn]; usedfn.insert(i.fn);
            if (s.fr.size() > 60) throw Unsupported("recursion depth");
            Frame nf; nf.f = i.fn; nf.b = g.entry; nf.ip = 0; nf.prev = -1; nf.r.resize(g.nreg); nf.dst = i.dsts; nf.id = ++callids; nf.nobj0 = s.nobj;
            for (size_t k = 0; k < g.preg.size() && k < a.size(); k++) {
               Val v = a[k];
               if (g.pbyval[k]) { Val p; p.k = Val::P; p.ty = PTR; p.base = s.nobj++; p.i = 0; Obj o; o.size = g.pbyval[k]; if (v.base > 0) for (auto& c : s.mem[v.base].c) if (c.first >= v.i && c.first < v.i + g.pbyval[k]) o.c[c.first - v.i] = c.second; s.mem[p.base] = o; v = p; }
               nf.r[g.preg[k]] = v;
            }
            s.fr.push_back(std::move(nf)); continue;
         }
         std::vector<Val> out; external(s, i, a, out);
         for (size_t k = 0; k < i.dsts.size() && k < out.size(); k++) { f.r[i.dsts[k]] = out[k]; }
         break;
      }
      }
      if (TRACE) { Frame& g = s.fr.back(); if (&g == &f || true) { Ins& q = i; auto sh = [&](int r) { const Val& v = g.r[r]; fprintf(stderr, " r%d:%d[%Lg,%Lg|%Lg]%s", r, v.k, v.lo, v.hi, v.k == Val::X ? v.ev : (R)v.i, v.tm ? "t" : ""); }; if (q.dst || !q.dsts.empty()) { fprintf(stderr, "%d:%d op%d %s", g.b, g.ip, q.op, q.s.c_str()); if (q.dsts.empty()) sh(q.dst); else for (int r : q.dsts) sh(r); fprintf(stderr, "\n"); } } }
      s.fr.back().ip++; continue;
   joined:
      while (!s.rg.empty() && s.rg.back().fid == s.fr.back().id && s.rg.back().j == s.fr.back().b) if (!arrive(s, work, 1 << 30, true)) return false;
   }
}
#include "driver.hpp"
