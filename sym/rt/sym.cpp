// The symbolic engine: polynomials over atoms, process-forking path exploration, z3 queries.
#include "sym.h"
#include <gmpxx.h>
#include <z3++.h>
#include <deque>
#include <map>
#include <unordered_map>
#include <set>
#include <algorithm>
#include <iostream>
#include <fstream>
#include <sstream>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cassert>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <execinfo.h>
#include <functional>

namespace sx {
long concretizeLimit = 400;
bool gcdForkAlways = true;

// ------------------------------------------------------------------ data
typedef uint32_t mono_t;
struct Poly { std::vector<std::pair<mono_t, mpz_class>> t; mpz_class den; Poly() : den(1) {} };
struct Node { int rc; bool isPoly; mpz_class c; Poly p; };
struct CNode { int rc; int kind; /*0 const,1 sign,2 and,3 or,4 not*/ bool b; Int x; int mask; CNode *l, *r; };

enum { M_NEG = 1, M_ZERO = 2, M_POS = 4 };
enum Kind { K_INPUT, K_STUB, K_DIVC, K_DIVV, K_ITE, K_GCD , K_ALIAS };
struct Atom {
  Kind kind; std::string name; Poly a; mpz_class b; Int u, v; CNode *c = 0;
  bool hasLo = false, hasHi = false; mpz_class lo, hi;
  bool bound = false; Int bval; Int co1, co2; std::vector<int> aux;
};
static std::deque<Atom> &atoms = *new std::deque<Atom>;   // deques: references stay valid while terms are added
typedef std::vector<std::pair<int, int>> MonoV;
static std::deque<MonoV> &monos = *new std::deque<MonoV>(1);
static std::map<MonoV, mono_t> &monoIdx = *new std::map<MonoV, mono_t>{{MonoV(), 0}};
static std::unordered_map<uint64_t, mono_t> &monoMulCache = *new std::unordered_map<uint64_t, mono_t>;
static int bindVersion = 0;

struct Shared {
  volatile long paths, pathsEnded, pathsCut, pathsAborted, queries, queriesSmt, queriesBv, unknown, obligations, discharged,
      dischargedTrivial, candidates, forks, maxAtoms, stop, infeasible, timeouts, cutsBudget, freshCands;
  volatile double solverS;
  volatile long noteLock;
};
static Shared *sh;
static std::string outDir, cfg;
static int tokR = -1, tokW = -1;
static bool symMode = true, inPath = false, ended = false, acceptAbort = false;
static std::vector<pid_t> &kids = *new std::vector<pid_t>;
static long maxPaths = 200000, candLimit = 6;
static double deadline = 0;
static std::map<std::string, mpz_class> &replayVals = *new std::map<std::string, mpz_class>;
static int replayFailed = 0; static std::vector<std::string> &replayFails = *new std::vector<std::string>;
static int pathCpu = 120;
static std::set<std::string> &knownLabels = *new std::set<std::string>;
#include <fnmatch.h>
static std::vector<std::string> onlyLabels;   // checks of memory safety and termination ignore the other assertions of a harness
static bool wanted(const std::string &l) { if (onlyLabels.empty()) return true; for (auto &p : onlyLabels) if (!fnmatch(p.c_str(), l.c_str(), 0)) return true; return false; }
static bool knownLabel(const std::string &l) { for (auto &p : knownLabels) if (!fnmatch(p.c_str(), l.c_str(), 0)) return true; return false; }

static double now() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static void inc(volatile long &x, long d = 1) { __sync_fetch_and_add(&x, d); }
static void addTime(double s) {  // coarse lock free add
  union { double d; long l; } o, n;
  do { o.d = sh->solverS; n.d = o.d + s; } while (!__sync_bool_compare_and_swap((volatile long *)&sh->solverS, o.l, n.l));
}
static void logLine(const char *file, const std::string &s) {
  int fd = open((outDir + "/" + file).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd >= 0) { std::string t = s + "\n"; if (write(fd, t.data(), t.size())) {} close(fd); }
}

// ------------------------------------------------------------------ Int storage
static Node *nodeOf(const Int &a) { return (Node *)a.p; }
void Int::ref() { ((Node *)p)->rc++; }
void Int::unref() { Node *n = (Node *)p; if (--n->rc == 0) delete n; }
static Int mkConst(const mpz_class &z) {
  if (z.fits_slong_p()) { long v = z.get_si(); if (v >= -(1L << 61) && v < (1L << 61)) { Int r; r.p = ((uintptr_t)v << 1) | 1; return r; } }
  Int r; Node *n = new Node; n->rc = 1; n->isPoly = false; n->c = z; r.p = (uintptr_t)n; return r;
}
Int::Int(long v) : p(1) { if (v >= -(1L << 61) && v < (1L << 61)) p = ((uintptr_t)v << 1) | 1; else { Int t = mkConst(mpz_class(v)); swap(t); } }
Int::Int(unsigned long v) : p(1) { if (v < (1UL << 61)) p = (v << 1) | 1; else { Int t = mkConst(mpz_class(v)); swap(t); } }
bool Int::isConst() const { return small() || !nodeOf(*this)->isPoly; }
static mpz_class cval(const Int &a) { return a.small() ? mpz_class(a.sval()) : nodeOf(a)->c; }
static void normPolyInPlace(Poly &p) {
  size_t j = 0;
  for (size_t i = 0; i < p.t.size(); i++) if (p.t[i].second != 0) { if (i != j) p.t[j] = p.t[i]; j++; }
  p.t.resize(j);
  if (p.den != 1) {
    mpz_class g = p.den;
    for (auto &x : p.t) { if (g == 1) break; mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), x.second.get_mpz_t()); }
    if (g != 1) { p.den /= g; for (auto &x : p.t) x.second /= g; }
  }
}
static Int mkPoly(Poly &&p) {
  normPolyInPlace(p);
  if (p.t.empty()) return Int(0);
  if (p.t.size() == 1 && p.t[0].first == 0 && p.den == 1) return mkConst(p.t[0].second);
  Node *n = new Node; n->rc = 1; n->isPoly = true; n->p = std::move(p); Int r; r.p = (uintptr_t)n; return r;
}
static Poly toPoly(const Int &a) {
  if (!a.isConst()) return nodeOf(a)->p;
  Poly p; mpz_class c = cval(a); if (c != 0) p.t.push_back({0, c}); return p;
}
static mono_t internMono(const MonoV &v) {
  auto it = monoIdx.find(v); if (it != monoIdx.end()) return it->second;
  mono_t id = monos.size(); monos.push_back(v); monoIdx[v] = id; return id;
}
static mono_t monoMul(mono_t a, mono_t b) {
  if (a == 0) return b; if (b == 0) return a; if (a > b) std::swap(a, b);
  uint64_t k = ((uint64_t)a << 32) | b; auto it = monoMulCache.find(k); if (it != monoMulCache.end()) return it->second;
  MonoV r; const MonoV &x = monos[a], &y = monos[b]; size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { r.push_back({x[i].first, x[i].second + y[j].second}); i++; j++; }
  }
  mono_t id = internMono(r); monoMulCache[k] = id; return id;
}
static Poly pAdd(const Poly &a, const Poly &b, int sg) {
  Poly r; mpz_class fa = 1, fb = sg;
  if (a.den != b.den) { mpz_lcm(r.den.get_mpz_t(), a.den.get_mpz_t(), b.den.get_mpz_t()); fa = r.den / a.den; fb = sg * (r.den / b.den); }
  else r.den = a.den;
  r.t.reserve(a.t.size() + b.t.size()); size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) { r.t.push_back({a.t[i].first, a.t[i].second * fa}); i++; }
    else if (i == a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, b.t[j].second * fb}); j++; }
    else { r.t.push_back({a.t[i].first, a.t[i].second * fa + b.t[j].second * fb}); i++; j++; }
  }
  return r;
}
static Poly pMul(const Poly &a, const Poly &b) {
  Poly r; r.den = a.den * b.den;
  if (a.t.size() == 1 && a.t[0].first == 0) { r.t = b.t; for (auto &x : r.t) x.second *= a.t[0].second; return r; }
  if (b.t.size() == 1 && b.t[0].first == 0) { r.t = a.t; for (auto &x : r.t) x.second *= b.t[0].second; return r; }
  std::map<mono_t, mpz_class> m;
  for (auto &x : a.t) for (auto &y : b.t) m[monoMul(x.first, y.first)] += x.second * y.second;
  for (auto &x : m) r.t.push_back({x.first, x.second});
  return r;
}
Int operator+(const Int &a, const Int &b) {
  if (a.small() && b.small()) return Int(a.sval() + b.sval());
  if (a.isConst() && b.isConst()) return mkConst(cval(a) + cval(b));
  return mkPoly(pAdd(toPoly(a), toPoly(b), 1));
}
Int operator-(const Int &a, const Int &b) {
  if (a.small() && b.small()) return Int(a.sval() - b.sval());
  if (a.isConst() && b.isConst()) return mkConst(cval(a) - cval(b));
  return mkPoly(pAdd(toPoly(a), toPoly(b), -1));
}
Int operator-(const Int &a) { return Int(0) - a; }
Int operator*(const Int &a, const Int &b) {
  if (a.small() && b.small()) { long r; if (!__builtin_mul_overflow(a.sval(), b.sval(), &r)) return Int(r); }
  if (a.isConst() && b.isConst()) return mkConst(cval(a) * cval(b));
  return mkPoly(pMul(toPoly(a), toPoly(b)));
}
Int pow(const Int &a, unsigned long e) {
  if (a.isConst()) { mpz_class r; mpz_class c = cval(a); mpz_pow_ui(r.get_mpz_t(), c.get_mpz_t(), e); return mkConst(r); }
  Int r(1), b(a); while (e) { if (e & 1) r = r * b; e >>= 1; if (e) b = b * b; } return r;
}

// ------------------------------------------------------------------ printing / tokens
static const char *TOK_A = "9090731", *TOK_B = "1370909";
static std::vector<Int> &tokenTab = *new std::vector<Int>;
std::string Int::str() const {
  if (isConst()) return cval(*this).get_str();
  Int c; if (knownConst(*this, c)) return cval(c).get_str();
  for (size_t i = 0; i < tokenTab.size(); i++) if (tokenTab[i].p == p) { char b[64]; sprintf(b, "%s%08zu%s", TOK_A, i, TOK_B); return b; }
  tokenTab.push_back(*this); char b[64]; sprintf(b, "%s%08zu%s", TOK_A, tokenTab.size() - 1, TOK_B); return b;
}
Int Int::parse(const std::string &s0, bool *ok) {
  std::string s = s0; bool neg = false; if (ok) *ok = true;
  size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) i++; s = s.substr(i);
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s = s.substr(1); }
  size_t k = 0; while (k < s.size() && isdigit((unsigned char)s[k])) k++;
  s = s.substr(0, k);
  if (s.empty()) { if (ok) *ok = false; return Int(0); }
  if (s.size() == 22 && s.compare(0, 7, TOK_A) == 0 && s.compare(15, 7, TOK_B) == 0) {
    size_t id = atol(s.substr(7, 8).c_str());
    if (id < tokenTab.size()) return neg ? -tokenTab[id] : tokenTab[id];
  }
  mpz_class z(s); if (neg) z = -z; return mkConst(z);
}
static std::string showPoly(const Poly &p) {
  std::string r;
  if (p.t.empty()) return "0";
  for (auto &x : p.t) {
    std::string c = x.second.get_str();
    if (!r.empty() && c[0] != '-') r += "+";
    r += c; for (auto &f : monos[x.first]) { r += "*" + atoms[f.first].name; if (f.second > 1) r += "^" + std::to_string(f.second); }
  }
  if (p.den != 1) r = "(" + r + ")/" + p.den.get_str();
  return r;
}
std::string Int::show() const { return isConst() ? cval(*this).get_str() : showPoly(nodeOf(*this)->p); }

// ------------------------------------------------------------------ intervals
struct Iv { bool hl = true, hh = true; mpz_class l, h; };
static Iv ivMul(const Iv &a, const Iv &b) {
  Iv r;
  if (a.hl && a.hh && b.hl && b.hh) {
    mpz_class x[4] = {a.l * b.l, a.l * b.h, a.h * b.l, a.h * b.h};
    r.l = *std::min_element(x, x + 4); r.h = *std::max_element(x, x + 4); return r;
  }
  auto nn = [](const Iv &v) { return v.hl && v.l >= 0; };
  auto np = [](const Iv &v) { return v.hh && v.h <= 0; };
  r.hl = r.hh = false;
  if (nn(a) && nn(b)) { r.hl = true; r.l = a.l * b.l; if (a.hh && b.hh) { r.hh = true; r.h = a.h * b.h; } }
  else if (np(a) && np(b)) { r.hl = true; r.l = a.h * b.h; }
  else if ((nn(a) && np(b))) { r.hh = true; r.h = a.l * b.h; }
  else if ((np(a) && nn(b))) { r.hh = true; r.h = a.h * b.l; }
  return r;
}
static Iv ivAtom(int i) { Iv r; Atom &a = atoms[i]; r.hl = a.hasLo; r.hh = a.hasHi; r.l = a.lo; r.h = a.hi; return r; }
static Iv ivPow(const Iv &a, int e) {
  if (e == 1) return a;
  Iv r = a; for (int i = 1; i < e; i++) r = ivMul(r, a);
  if (e % 2 == 0) { if (!r.hl || r.l < 0) { r.hl = true; r.l = 0; } }
  return r;
}
static Iv ivPoly(const Poly &p) {  // of the numerator
  Iv r; r.l = r.h = 0;
  for (auto &x : p.t) {
    Iv m; m.l = m.h = 1;
    for (auto &f : monos[x.first]) m = ivMul(m, ivPow(ivAtom(f.first), f.second));
    if (x.second < 0) { std::swap(m.l, m.h); std::swap(m.hl, m.hh); }
    if (m.hl && r.hl) r.l += m.l * x.second; else r.hl = false;
    if (m.hh && r.hh) r.h += m.h * x.second; else r.hh = false;
  }
  return r;
}

// ------------------------------------------------------------------ models
typedef std::vector<mpz_class> Vals;
struct Model { Vals v; };     // values for all atoms 0..v.size()-1
static std::vector<Model> &pool = *new std::vector<Model>;   // all satisfy the path facts; nonempty
static mpz_class evalPolyNum(const Poly &p, const Vals &v) {
  mpz_class r = 0, m;
  for (auto &x : p.t) {
    m = x.second;
    for (auto &f : monos[x.first]) for (int e = 0; e < f.second; e++) m *= v[f.first];
    r += m;
  }
  return r;
}
static mpz_class evalInt(const Int &a, const Vals &v) {
  if (a.isConst()) return cval(a);
  const Poly &p = nodeOf(a)->p; mpz_class r = evalPolyNum(p, v);
  if (p.den != 1) { mpz_class q; mpz_fdiv_q(q.get_mpz_t(), r.get_mpz_t(), p.den.get_mpz_t()); return q; }
  return r;
}
static bool evalCond(CNode *c, const Vals &v) {
  switch (c->kind) {
    case 0: return c->b;
    case 1: { int s = ::sgn(evalInt(c->x, v)); return c->mask & (s < 0 ? M_NEG : s == 0 ? M_ZERO : M_POS); }
    case 2: return evalCond(c->l, v) && evalCond(c->r, v);
    case 3: return evalCond(c->l, v) || evalCond(c->r, v);
    default: return !evalCond(c->l, v);
  }
}
static mpz_class evalAtom(int i, const Vals &v) {   // definitional atoms, from lower-numbered ones
  Atom &a = atoms[i];
  switch (a.kind) {
    case K_DIVC: { mpz_class n = evalPolyNum(a.a, v), q; mpz_fdiv_q(q.get_mpz_t(), n.get_mpz_t(), a.b.get_mpz_t()); return q; }
    case K_DIVV: { mpz_class n = evalInt(a.u, v), d = evalInt(a.v, v), q; if (d == 0) return 0; mpz_fdiv_q(q.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); return q; }
    case K_ALIAS: return evalInt(a.u, v);
    case K_ITE: return evalCond(a.c, v) ? evalInt(a.u, v) : evalInt(a.v, v);
    case K_GCD: { mpz_class x = evalInt(a.u, v), y = evalInt(a.v, v), g; mpz_gcd(g.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return g; }
    default: return a.hasLo ? (a.lo < 0 && (!a.hasHi || a.hi >= 0) ? mpz_class(0) : a.lo) : (a.hasHi && a.hi < 0 ? a.hi : mpz_class(0));
  }
}
static void extendModel(Model &m) { while (m.v.size() < atoms.size()) { int i = m.v.size(); mpz_class x = evalAtom(i, m.v); m.v.push_back(x); } }
static void extendPool() { for (auto &m : pool) extendModel(m); }

// ------------------------------------------------------------------ facts
struct Fact { CNode *c; };
static std::vector<CNode *> &facts = *new std::vector<CNode *>;
static std::map<std::vector<std::pair<mono_t, mpz_class>>, int> &signCache = *new std::map<std::vector<std::pair<mono_t, mpz_class>>, int>;

static int newAtom(Atom &&a) { atoms.push_back(std::move(a)); if ((long)atoms.size() > sh->maxAtoms) sh->maxAtoms = atoms.size(); extendPool(); return atoms.size() - 1; }
static Int atomInt(int i) { Poly p; p.t.push_back({internMono({{i, 1}}), 1}); return mkPoly(std::move(p)); }

static bool foldAtom(int i, Int &out);
static Int normInt(const Int &a);
static bool normPoly(const Poly &p, Poly &out) {   // apply bindings; true when changed
  bool any = false;
  if (bindVersion == 0) return false;
  std::map<int, Int> sub;
  for (auto &x : p.t) for (auto &f : monos[x.first]) if (!sub.count(f.first)) { Int o; if (foldAtom(f.first, o)) { sub[f.first] = o; any = true; } }
  if (!any) return false;
  Int r(0);
  Poly rest; rest.den = 1;
  for (auto &x : p.t) {
    bool hit = false; for (auto &f : monos[x.first]) if (sub.count(f.first)) hit = true;
    if (!hit) { rest.t.push_back(x); continue; }
    Int m = mkConst(x.second);
    for (auto &f : monos[x.first]) { Int b = sub.count(f.first) ? sub[f.first] : atomInt(f.first); m = m * pow(b, f.second); }
    r = r + m;
  }
  r = r + mkPoly(std::move(rest));
  out = toPoly(r); out.den *= p.den; normPolyInPlace(out);
  return true;
}
static std::map<int, std::pair<int, Int>> &foldCache = *new std::map<int, std::pair<int, Int>>;   // atom -> (version, folded or handle)
static std::map<int, int> &noFold = *new std::map<int, int>;
static bool foldAtom(int i, Int &out) {
  Atom &a = atoms[i];
  if (a.bound) { out = normInt(a.bval); return true; }
  if (a.kind == K_INPUT || a.kind == K_STUB || a.kind == K_ALIAS) return false;
  auto it = foldCache.find(i); if (it != foldCache.end() && it->second.first >= 0) { out = it->second.second; return true; }
  auto n = noFold.find(i); if (n != noFold.end() && n->second == bindVersion) return false;
  bool r = false;
  if (a.kind == K_DIVC) {
    Poly q; if (normPoly(a.a, q)) { Int num = mkPoly(std::move(q)); out = fdiv(num, mkConst(a.b)); r = true; if (!out.isConst() && toPoly(out).t.size() == 1) { Poly t = toPoly(out); if (t.t[0].first != 0 && monos[t.t[0].first] == MonoV{{i, 1}}) r = false; } }
  } else if (a.kind == K_DIVV) {
    Int u = normInt(a.u), v = normInt(a.v);
    if (v.isConst() && cval(v) != 0) { out = fdiv(u, v); r = true; }
  } else if (a.kind == K_ITE) {
    // fold only when the condition is a known constant
    std::function<int(CNode *)> ev = [&](CNode *c) -> int {
      switch (c->kind) {
        case 0: return c->b;
        case 1: { Int x = normInt(c->x); if (!x.isConst()) return -1; int s = ::sgn(cval(x)); return (c->mask & (s < 0 ? M_NEG : s == 0 ? M_ZERO : M_POS)) != 0; }
        case 2: { int l = ev(c->l), q = ev(c->r); if (l == 0 || q == 0) return 0; return (l == 1 && q == 1) ? 1 : -1; }
        case 3: { int l = ev(c->l), q = ev(c->r); if (l == 1 || q == 1) return 1; return (l == 0 && q == 0) ? 0 : -1; }
        default: { int l = ev(c->l); return l < 0 ? -1 : !l; }
      }
    };
    int v = ev(a.c); if (v >= 0) { out = normInt(v ? a.u : a.v); r = true; }
  } else if (a.kind == K_GCD) {
    Int u = normInt(a.u), v = normInt(a.v);
    if (u.isConst() && v.isConst()) { mpz_class g, x = cval(u), y = cval(v); mpz_gcd(g.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); out = mkConst(g); r = true; }
  }
  if (r) { if (out.isConst()) foldCache[i] = {bindVersion, out}; return true; }
  noFold[i] = bindVersion; return false;
}
static Int normInt(const Int &a) {
  if (a.isConst() || bindVersion == 0) return a;
  Poly o; if (!normPoly(nodeOf(a)->p, o)) return a;
  if (o.den == 1 || o.t.empty()) return mkPoly(std::move(o));
  if (o.t.size() == 1 && o.t[0].first == 0) { mpz_class q; mpz_fdiv_q(q.get_mpz_t(), o.t[0].second.get_mpz_t(), o.den.get_mpz_t()); return mkConst(q); }
  return mkPoly(std::move(o));
}
bool knownConst(const Int &a, Int &c) { if (a.isConst()) { c = a; return true; } Int n = normInt(a); if (n.isConst()) { c = n; return true; } return false; }

// ------------------------------------------------------------------ Cond
static CNode *cnew(int k) { CNode *n = new CNode; n->rc = 1; n->kind = k; n->b = true; n->mask = 0; n->l = n->r = 0; return n; }
static void cunref(CNode *n) { if (n && --n->rc == 0) { cunref(n->l); cunref(n->r); delete n; } }
Cond::Cond(bool b) { n = cnew(0); n->b = b; }
Cond::Cond(const Cond &o) : n(o.n) { n->rc++; }
Cond::~Cond() { cunref(n); }
Cond &Cond::operator=(const Cond &o) { o.n->rc++; cunref(n); n = o.n; return *this; }
static Cond mkSign(const Int &x0, int mask) {
  Int x = x0; if (!x.isConst()) { Int c; if (knownConst(x, c)) x = c; }
  if (x.isConst()) { int s = ::sgn(cval(x)); return Cond((mask & (s < 0 ? M_NEG : s == 0 ? M_ZERO : M_POS)) != 0); }
  Iv iv = ivPoly(nodeOf(x)->p); int ps = 7;
  if (iv.hl && iv.l >= 0) ps &= ~M_NEG; if (iv.hl && iv.l > 0) ps &= ~M_ZERO;
  if (iv.hh && iv.h <= 0) ps &= ~M_POS; if (iv.hh && iv.h < 0) ps &= ~M_ZERO;
  if (!(ps & ~mask)) return Cond(true); if (!(ps & mask)) return Cond(false);
  Cond c(true); cunref(c.n); c.n = cnew(1); c.n->x = x; c.n->mask = mask; return c;
}
Cond cEq(const Int &a, const Int &b) { return mkSign(a - b, M_ZERO); }
Cond cLe(const Int &a, const Int &b) { return mkSign(a - b, M_NEG | M_ZERO); }
Cond cLt(const Int &a, const Int &b) { return mkSign(a - b, M_NEG); }
static Cond mk2(int k, const Cond &a, const Cond &b) { Cond c(true); cunref(c.n); c.n = cnew(k); c.n->l = a.n; a.n->rc++; c.n->r = b.n; b.n->rc++; return c; }
Cond operator&&(const Cond &a, const Cond &b) { if (a.n->kind == 0) return a.n->b ? b : a; if (b.n->kind == 0) return b.n->b ? a : b; return mk2(2, a, b); }
Cond operator||(const Cond &a, const Cond &b) { if (a.n->kind == 0) return a.n->b ? a : b; if (b.n->kind == 0) return b.n->b ? b : a; return mk2(3, a, b); }
Cond operator!(const Cond &a) {
  if (a.n->kind == 0) return Cond(!a.n->b);
  if (a.n->kind == 4) { Cond c(true); cunref(c.n); c.n = a.n->l; c.n->rc++; return c; }
  if (a.n->kind == 1) { Cond c(true); cunref(c.n); c.n = cnew(1); c.n->x = a.n->x; c.n->mask = 7 & ~a.n->mask; return c; }
  Cond c(true); cunref(c.n); c.n = cnew(4); c.n->l = a.n; a.n->rc++; return c;
}
static bool samePoly(const Int &a, const Int &b) { Int d = a - b; return d.isConst() && cval(d) == 0; }
Int ite(const Cond &c, const Int &a, const Int &b) {
  if (c.n->kind == 0) return c.n->b ? a : b;
  if (samePoly(a, b)) return a;
  Atom t; t.kind = K_ITE; t.name = "ite" + std::to_string(atoms.size()); t.u = a; t.v = b; t.c = c.n; c.n->rc++;
  Iv x, y; if (a.isConst()) x.l = x.h = cval(a); else x = ivPoly(nodeOf(a)->p); if (b.isConst()) y.l = y.h = cval(b); else y = ivPoly(nodeOf(b)->p);
  mpz_class da = a.isConst() ? mpz_class(1) : nodeOf(a)->p.den, db = b.isConst() ? mpz_class(1) : nodeOf(b)->p.den;
  auto fd = [](mpz_class n, mpz_class d) { mpz_class q; mpz_fdiv_q(q.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); return q; };
  if (x.hl && y.hl) { t.hasLo = true; t.lo = std::min(fd(x.l, da), fd(y.l, db)); }
  if (x.hh && y.hh) { t.hasHi = true; t.hi = std::max(mpz_class(fd(x.h, da) + 1), mpz_class(fd(y.h, db) + 1)); if (da == 1 && db == 1) t.hi -= 1; }
  return atomInt(newAtom(std::move(t)));
}
Int cMax(const Int &a, const Int &b) { return ite(cLe(a, b), b, a); }

// ------------------------------------------------------------------ solver encodings
static z3::context *Z; static z3::solver *S; static size_t Sfacts; static std::vector<char> &Satoms = *new std::vector<char>;
struct Enc {      // integer or bit-vector encoding
  bool bv; unsigned W; z3::context &z; std::map<int, z3::expr> cache;
  bool opaque = false; std::map<mono_t, z3::expr> mcache; std::vector<z3::expr> side; int fresh = 0;   // opaque: every nonlinear monomial is a variable of its own (sound for unsat answers)
  z3::expr monoVar(mono_t m) {
    auto it = mcache.find(m); if (it != mcache.end()) return it->second;
    z3::expr e = z.int_const(("m" + std::to_string(m)).c_str()); mcache.emplace(m, e);
    Poly p; p.t.push_back({m, 1}); Iv v = ivPoly(p); if (v.hl) side.push_back(e >= num(v.l)); if (v.hh) side.push_back(e <= num(v.h)); return e;
  }
  static bool nonlinMono(mono_t m) { const MonoV &x = monos[m]; return x.size() > 1 || (x.size() == 1 && x[0].second > 1); }
  Enc(z3::context &z, bool bv, unsigned W) : bv(bv), W(W), z(z) {}
  z3::expr num(const mpz_class &c) { std::string s = c.get_str(); return bv ? z.bv_val(s.c_str(), W) : z.int_val(s.c_str()); }
  z3::expr var(int i) {
    auto it = cache.find(i); if (it != cache.end()) return it->second;
    std::string n = "a" + std::to_string(i);
    z3::expr e = bv ? z.bv_const(n.c_str(), W) : z.int_const(n.c_str());
    cache.emplace(i, e); return e;
  }
  z3::expr polyNum(const Poly &p) {
    z3::expr r(z); bool first = true;
    for (auto &x : p.t) {
      z3::expr m(z); bool f1 = true;
      if (opaque && nonlinMono(x.first)) { m = x.second == 1 ? monoVar(x.first) : num(x.second) * monoVar(x.first); if (first) { r = m; first = false; } else r = r + m; continue; }
      if (x.second != 1 || x.first == 0) { m = num(x.second); f1 = false; }
      for (auto &f : monos[x.first]) for (int e = 0; e < f.second; e++) { if (f1) { m = var(f.first); f1 = false; } else m = m * var(f.first); }
      if (first) { r = m; first = false; } else r = r + m;
    }
    if (first) r = num(0); return r;
  }
  z3::expr intNum(const Int &a) { return a.isConst() ? num(cval(a)) : polyNum(nodeOf(a)->p); }
  static mpz_class denOf(const Int &a) { return a.isConst() ? mpz_class(1) : nodeOf(a)->p.den; }
  // sign condition on a nonlinear polynomial of at most two inputs with a small box: the exact set of solutions in the
  // box as a disjunction of intervals (the box constraints themselves are asserted with the inputs)
  bool table(CNode *c, z3::expr &out) {
    if (c->x.isConst()) return false;
    const Poly &p = nodeOf(c->x)->p; std::set<int> s; depsP(p, s); if (s.empty() || s.size() > 2) return false;
    unsigned deg = 0; for (auto &x : p.t) { unsigned d = 0; for (auto &f : monos[x.first]) d += f.second; if (d > deg) deg = d; }
    if (deg < 3) return false;
    mpz_class size = 1; std::vector<int> v(s.begin(), s.end());
    for (int i : v) { Atom &a = atoms[i]; if ((a.kind != K_INPUT && a.kind != K_STUB) || !a.hasLo || !a.hasHi || a.hi < a.lo) return false; size *= a.hi - a.lo + 1; }
    if (size > 400) return false;
    int x = v.back(), y = v.size() == 2 ? v[0] : -1; std::vector<z3::expr> alts;
    auto sat = [&](long a, long b) {
      mpz_class r = 0; for (auto &t : p.t) { mpz_class m = t.second; for (auto &f : monos[t.first]) for (int e = 0; e < f.second; e++) m *= (f.first == x ? a : b); r += m; }
      return (c->mask & (r < 0 ? M_NEG : r == 0 ? M_ZERO : M_POS)) != 0;
    };
    long lx = atoms[x].lo.get_si(), hx = atoms[x].hi.get_si(), ly = y < 0 ? 0 : atoms[y].lo.get_si(), hy = y < 0 ? 0 : atoms[y].hi.get_si();
    for (long b = ly; b <= hy; b++) for (long a = lx; a <= hx; a++) if (sat(a, b)) {
      long e = a; while (e < hx && sat(e + 1, b)) e++;
      std::vector<z3::expr> k; if (y >= 0) k.push_back(var(y) == num(b));
      if (a == e) k.push_back(var(x) == num(a)); else { if (a > lx) k.push_back(var(x) >= num(a)); if (e < hx) k.push_back(var(x) <= num(e)); }
      z3::expr t = z.bool_val(true); for (auto &q : k) t = t && q; alts.push_back(t); a = e;
    }
    out = z.bool_val(false); for (auto &q : alts) out = out || q;
    return true;
  }
  z3::expr cond(CNode *c) {
    switch (c->kind) {
      case 0: return z.bool_val(c->b);
      case 1: {
        z3::expr tb(z); if (!opaque && table(c, tb)) return tb;
        z3::expr e = intNum(c->x), o = num(0);
        if (opaque && denOf(c->x) != 1) { z3::expr t = z.int_const(("t" + std::to_string(fresh++)).c_str()); side.push_back(num(denOf(c->x)) * t == e); e = t; }
        switch (c->mask) {
          case 0: return z.bool_val(false); case M_NEG: return e < o; case M_ZERO: return e == o; case M_POS: return e > o;
          case M_NEG | M_ZERO: return e <= o; case M_ZERO | M_POS: return e >= o; case M_NEG | M_POS: return e != o; default: return z.bool_val(true);
        }
      }
      case 2: return cond(c->l) && cond(c->r);
      case 3: return cond(c->l) || cond(c->r);
      default: return !cond(c->l);
    }
  }
  void axioms(int i, std::vector<z3::expr> &out) {
    Atom &a = atoms[i]; z3::expr v = var(i);
    if (a.hasLo) out.push_back(v >= num(a.lo)); if (a.hasHi) out.push_back(v <= num(a.hi));
    if (a.kind == K_DIVC) {
      z3::expr n = polyNum(a.a); out.push_back(num(a.b) * v <= n); out.push_back(n - num(a.b) * v <= num(a.b - 1));
    } else if (a.kind == K_ALIAS) { out.push_back(v == intNum(a.u));
    } else if (opaque && a.kind != K_ITE) { return;   // a weaker description
    } else if (a.kind == K_DIVV) {
      z3::expr n = intNum(a.u), d = intNum(a.v);   // integral (den 1 by construction)
      z3::expr r = n - d * v;
      out.push_back(z3::ite(d > num(0), r >= num(0) && r < d, z3::ite(d < num(0), r <= num(0) && r > d, v == num(0))));
    } else if (a.kind == K_ITE) {
      z3::expr x = intNum(a.u), y = intNum(a.v); mpz_class dx = denOf(a.u), dy = denOf(a.v);
      if (dx == 1 && dy == 1) out.push_back(v == z3::ite(cond(a.c), x, y));
      else { z3::expr c = cond(a.c); out.push_back(z3::implies(c, num(dx) * v == x)); out.push_back(z3::implies(!c, num(dy) * v == y)); }
    } else if (a.kind == K_GCD) {
      // v>=0; u = v*co1; w = v*co2; the cofactors share no prime up to the bound (checked through the aux atoms)
      throw std::runtime_error("gcd atom not encodable");
    }
  }
  void deps(CNode *c, std::set<int> &s) { if (!c) return; if (c->kind == 1) depsI(c->x, s); deps(c->l, s); deps(c->r, s); }
  static void depsP(const Poly &p, std::set<int> &s) { for (auto &x : p.t) for (auto &f : monos[x.first]) s.insert(f.first); }
  static void depsI(const Int &a, std::set<int> &s) { if (!a.isConst()) depsP(nodeOf(a)->p, s); }
};
static void atomDeps(int i, std::set<int> &s) { Atom &a = atoms[i]; Enc::depsP(a.a, s); Enc::depsI(a.u, s); Enc::depsI(a.v, s); std::function<void(CNode *)> g = [&](CNode *c) { if (!c) return; if (c->kind == 1) Enc::depsI(c->x, s); g(c->l); g(c->r); }; g(a.c); }
static void condDeps(CNode *c, std::set<int> &s) { if (!c) return; if (c->kind == 1) Enc::depsI(c->x, s); condDeps(c->l, s); condDeps(c->r, s); }
static void closure(std::set<int> &s) { std::vector<int> w(s.begin(), s.end()); while (!w.empty()) { int i = w.back(); w.pop_back(); std::set<int> d; atomDeps(i, d); for (int j : d) if (s.insert(j).second) w.push_back(j); } }
static Enc *E0;
static bool factLinear(CNode *c) { if (!c) return true; if (c->kind == 1) for (auto &x : toPoly(c->x).t) { const MonoV &m = monos[x.first]; if (m.size() > 1 || (m.size() == 1 && m[0].second > 1)) return false; } return factLinear(c->l) && factLinear(c->r); }
static void ensureAtoms(const std::set<int> &s0) {
  std::set<int> s = s0; closure(s);
  for (int i : s) { if ((int)Satoms.size() <= i) Satoms.resize(i + 1, 0); if (!Satoms[i]) { Satoms[i] = 1; std::vector<z3::expr> ax; E0->axioms(i, ax); for (auto &e : ax) S->add(e); } }
}
static void zinit() {
  if (Z) return;
  z3::set_param("lp.dio_cuts_enable_hnf", false);
  Z = new z3::context; S = new z3::solver(*Z); E0 = new Enc(*Z, false, 0);
}
static void syncSolver() {
  zinit();
  for (; Sfacts < facts.size(); Sfacts++) { std::set<int> s; condDeps(facts[Sfacts], s); ensureAtoms(s); S->add(E0->cond(facts[Sfacts])); }
}
enum R { R_SAT, R_UNSAT, R_UNK };
static mpz_class zval(const z3::expr &e, bool bv, unsigned W) {
  std::string s; 
  if (!e.is_numeral()) return 0;
  s = Z3_get_numeral_string(e.ctx(), e);
  mpz_class z(s); if (bv) { mpz_class h = mpz_class(1) << (W - 1); if (z >= h) z -= (h << 1); } return z;
}
static bool takeModel(z3::model m, Enc &en, const std::set<int> &which, CNode *q, Model &out) {
  Model n; n.v = pool.empty() ? Vals() : pool[0].v;
  Vals base = n.v; n.v.clear();
  for (size_t i = 0; i < atoms.size(); i++) {
    if ((atoms[i].kind == K_INPUT || atoms[i].kind == K_STUB)) {
      if (which.count(i)) n.v.push_back(zval(m.eval(en.var(i), true), en.bv, en.W)); else n.v.push_back(i < base.size() ? base[i] : evalAtom(i, n.v));
    } else n.v.push_back(evalAtom(i, n.v));
  }
  for (CNode *f : facts) if (!evalCond(f, n.v)) return false;
  if (q && !evalCond(q, n.v)) return false;
  out = n; return true;
}
static bool bitWidth(const std::set<int> &as, const std::vector<CNode *> &cs, unsigned &W) {
  mpz_class mx = 1;
  for (int i : as) { Atom &a = atoms[i]; if (!a.hasLo || !a.hasHi) return false; }
  auto absMax = [&](int i) { Atom &a = atoms[i]; mpz_class l = ::abs(a.lo), h = ::abs(a.hi); return l > h ? l : h; };
  auto doP = [&](const Poly &p) { mpz_class s = 0; for (auto &x : p.t) { mpz_class m = ::abs(x.second); for (auto &f : monos[x.first]) for (int e = 0; e < f.second; e++) m *= absMax(f.first); s += m; } if (s > mx) mx = s; return s; };
  std::function<void(CNode *)> doC = [&](CNode *c) { if (!c) return; if (c->kind == 1) doP(toPoly(c->x)); doC(c->l); doC(c->r); };
  for (CNode *c : cs) doC(c);
  for (int i : as) {
    Atom &a = atoms[i]; mpz_class m = absMax(i), t;
    if (a.kind == K_DIVC) { t = a.b * (m + 1) + doP(a.a); if (t > mx) mx = t; }
    if (a.kind == K_DIVV) { t = doP(toPoly(a.v)) * (m + 1) + doP(toPoly(a.u)); if (t > mx) mx = t; }
    if (a.kind == K_ITE) { t = doP(toPoly(a.u)) + Enc::denOf(a.u) * m; if (t > mx) mx = t; t = doP(toPoly(a.v)) + Enc::denOf(a.v) * m; if (t > mx) mx = t; doC(a.c); }
    if (m > mx) mx = m;
  }
  W = mpz_sizeinbase(mx.get_mpz_t(), 2) + 3; return W <= 220;
}
static long qseq = 0;
// z3's resource limit is not always respected in nonlinear arithmetic: a timer on the CPU time interrupts it as well
static Z3_context volatile tctx = 0;
static void onVt(int) { Z3_context c = tctx; if (c) Z3_interrupt(c); }
static z3::check_result checkT(z3::solver &so, double secs) {
  static bool inst = false; if (!inst) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onVt; sa.sa_flags = SA_RESTART; sigaction(SIGVTALRM, &sa, 0); inst = true; }
  tctx = so.ctx(); struct itimerval iv; memset(&iv, 0, sizeof iv); iv.it_value.tv_sec = (long)secs; iv.it_value.tv_usec = (long)((secs - (long)secs) * 1e6); iv.it_interval.tv_usec = 500000; setitimer(ITIMER_VIRTUAL, &iv, 0);
  z3::check_result r = z3::unknown; try { r = so.check(); } catch (z3::exception &) {}
  tctx = 0; memset(&iv, 0, sizeof iv); setitimer(ITIMER_VIRTUAL, &iv, 0); return r;
}
// the facts sharing atoms (transitively) with s; s is extended by their atoms
static std::vector<CNode *> related(std::set<int> &s) {
  std::vector<CNode *> cs; std::vector<char> used(facts.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < facts.size(); i++) if (!used[i]) { std::set<int> d; condDeps(facts[i], d); closure(d); bool hit = false; for (int x : d) if (s.count(x)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; s.insert(d.begin(), d.end()); cs.push_back(facts[i]); } } }
  return cs;
}
static R solveBV(CNode *q, Model &out, unsigned long rl) {
  std::set<int> s; condDeps(q, s); closure(s);
  std::vector<CNode *> cs = related(s);
  cs.push_back(q); unsigned W;
  if (!bitWidth(s, cs, W)) return R_UNK;
  inc(sh->queriesBv);
  z3::context z; Enc en(z, true, W);
  z3::tactic t = z3::tactic(z, "simplify") & z3::tactic(z, "propagate-values") & z3::tactic(z, "solve-eqs") & z3::tactic(z, "simplify") & z3::tactic(z, "bit-blast") & z3::tactic(z, "sat");
  z3::solver so = t.mk_solver();
  z3::params pr(z); pr.set("rlimit", (unsigned)rl); so.set(pr);
  for (int i : s) { std::vector<z3::expr> ax; en.axioms(i, ax); for (auto &e : ax) so.add(e); }
  for (CNode *c : cs) so.add(en.cond(c));
  double t0 = now(); z3::check_result r = checkT(so, rl > 30000000 ? 60 : 20); addTime(now() - t0);
  if (getenv("SX_DEBUG")) fprintf(stderr, "[bv %d W=%u %s %.3f]\n", getpid(), W, r == z3::sat ? "sat" : r == z3::unsat ? "unsat" : "unk", now() - t0);
  if (r == z3::unsat) return R_UNSAT;
  if (r == z3::sat && takeModel(so.get_model(), en, s, q, out)) return R_SAT;
  return R_UNK;
}
static bool tryPool(CNode *q, Model &out) { for (auto &m : pool) if (evalCond(q, m.v)) { out = m; return true; } return false; }
static bool linearQuery(CNode *q) {
  std::set<int> s; condDeps(q, s); closure(s);
  if (!factLinear(q)) return false;
  for (int i : s) { Atom &a = atoms[i]; CNode t; t.kind = 1; t.l = t.r = 0; t.x = a.u; if (!factLinear(&t)) return false; t.x = a.v; if (!factLinear(&t)) return false; if (a.c && !factLinear(a.c)) return false; if (a.kind == K_DIVV) return false; for (auto &x : a.a.t) { const MonoV &m = monos[x.first]; if (m.size() > 1 || (m.size() == 1 && m[0].second > 1)) return false; } }
  return true;
}
static R solveInt(CNode *q, Model &out, unsigned long rl) {
  syncSolver(); std::set<int> s; condDeps(q, s); closure(s); ensureAtoms(s);
  inc(sh->queriesSmt);
  z3::params pr(*Z); pr.set("rlimit", (unsigned)rl); S->set(pr);
  S->push(); S->add(E0->cond(q)); double t0 = now(); z3::check_result r = z3::unknown;
  r = checkT(*S, rl <= 200000 ? 3 : rl <= 10000000 ? 20 : 40);
  addTime(now() - t0); R res = R_UNK;
  if (getenv("SX_DEBUG")) fprintf(stderr, "[int %d facts=%zu rl=%lu %s %.3f]\n", getpid(), facts.size(), rl, r == z3::sat ? "sat" : r == z3::unsat ? "unsat" : "unk", now() - t0);
  if (r == z3::unsat) res = R_UNSAT;
  else if (r == z3::sat) { std::set<int> all; for (size_t i = 0; i < Satoms.size(); i++) if (Satoms[i]) all.insert(i); if (takeModel(S->get_model(), *E0, all, q, out)) res = R_SAT; }
  S->pop(); return res;
}
// case split over inputs with a small box (at most 64 cubes), each cube decided by the solver
static R solveCubes(CNode *q, Model &out) {
  std::set<int> s; condDeps(q, s); closure(s); std::vector<int> in; long n = 1;
  for (int b = 0; b < 2; b++)   // free inputs first, then those bound to an expression
    for (int i : s) { Atom &a = atoms[i]; if ((a.kind != K_INPUT && a.kind != K_STUB) || !a.hasLo || !a.hasHi || a.bound != (b == 1) || (a.bound && a.bval.isConst())) continue; mpz_class d = a.hi - a.lo + 1; if (d > 64 || n * d > 64) continue; n *= d.get_si(); in.push_back(i); }
  if (in.empty()) return R_UNK;
  std::vector<long> v; for (int i : in) v.push_back(atoms[i].lo.get_si());
  bool unk = false; std::vector<CNode *> cs = related(s); cs.push_back(q);
  for (;;) {
    inc(sh->queriesSmt); z3::context z; Enc en(z, false, 0);
    z3::tactic t = z3::tactic(z, "simplify") & z3::tactic(z, "propagate-values") & z3::tactic(z, "solve-eqs") & z3::tactic(z, "simplify") & z3::tactic(z, "propagate-values") & z3::tactic(z, "smt");
    z3::solver so = t.mk_solver(); z3::params pr(z); pr.set("rlimit", 2000000u); so.set(pr);
    for (size_t k = 0; k < in.size(); k++) so.add(en.var(in[k]) == en.num(v[k]));
    for (int i : s) { std::vector<z3::expr> ax; en.axioms(i, ax); for (auto &e : ax) so.add(e); }
    for (CNode *c : cs) so.add(en.cond(c));
    double t0 = now(); z3::check_result cr = z3::unknown; cr = checkT(so, 6); addTime(now() - t0);
    if (getenv("SX_DEBUG")) fprintf(stderr, "[cube %d %s %.3f]\n", getpid(), cr == z3::sat ? "sat" : cr == z3::unsat ? "unsat" : "unk", now() - t0);
    R r = cr == z3::unsat ? R_UNSAT : R_UNK;
    if (cr == z3::sat && takeModel(so.get_model(), en, s, q, out)) r = R_SAT;
    if (r == R_SAT) return R_SAT; if (r == R_UNK) { unk = true; break; }
    size_t k = 0; for (; k < in.size(); k++) { if (v[k] < atoms[in[k]].hi.get_si()) { v[k]++; break; } v[k] = atoms[in[k]].lo.get_si(); }
    if (k == in.size()) break;
  }
  return unk ? R_UNK : R_UNSAT;
}
// first attempt at a nonlinear query: linear arithmetic over the monomials
static bool divNonlinear(const std::set<int> &s) { for (int i : s) if (atoms[i].kind == K_DIVC) for (auto &x : atoms[i].a.t) if (Enc::nonlinMono(x.first)) return true; return false; }
static R solveLin(CNode *q) {
  static int tries = 0, hits = 0; if (tries >= 12 && hits * 6 < tries) return R_UNK;
  std::set<int> s; condDeps(q, s); closure(s); if (!divNonlinear(s)) return R_UNK; std::vector<CNode *> cs = related(s); cs.push_back(q); tries++; inc(sh->queriesSmt);
  z3::context z; Enc en(z, false, 0); en.opaque = true; z3::solver so(z, "QF_LIA"); z3::params pr(z); pr.set("rlimit", 2000000u); so.set(pr);
  for (int i : s) { std::vector<z3::expr> ax; en.axioms(i, ax); for (auto &e : ax) so.add(e); }
  for (CNode *c : cs) so.add(en.cond(c)); for (auto &e : en.side) so.add(e);
  double t0 = now(); z3::check_result r = checkT(so, 4); addTime(now() - t0);
  if (getenv("SX_DEBUG")) fprintf(stderr, "[lin %d %s %.3f]\n", getpid(), r == z3::sat ? "sat" : r == z3::unsat ? "unsat" : "unk", now() - t0);
  if (r != z3::unsat) return R_UNK; hits++; return R_UNSAT;
}
static double nlTime = 0;   // time this path spent on nonlinear branch queries since it last fixed an input
static R query1(const Cond &c, Model &out, bool obligation, bool lin);
static R query(const Cond &c, Model &out, bool obligation) {
  inc(sh->queries);
  if (c.n->kind == 0) { if (!c.n->b) return R_UNSAT; if (!pool.empty()) { out = pool[0]; return R_SAT; } }
  if (tryPool(c.n, out)) return R_SAT;
  bool lin = linearQuery(c.n); double t0 = now(); R r = query1(c, out, obligation, lin); if (!lin && !obligation) nlTime += now() - t0; return r;
}
static R query1(const Cond &c, Model &out, bool obligation, bool lin) {
  static bool slow = false; R r;   // once a nonlinear query was slow on this path, small boxes are split first
  if (!lin) { r = solveLin(c.n); if (r != R_UNK) return r; }
  if (!lin && slow) { r = solveCubes(c.n, out); if (r != R_UNK) return r; }
  double t0 = now(); r = solveInt(c.n, out, lin ? 4000000 : 120000); if (r != R_UNK) return r;
  if (!lin && !slow) { if (now() - t0 > 0.5) slow = true; r = solveCubes(c.n, out); if (r != R_UNK) return r; }
  r = solveBV(c.n, out, obligation ? 80000000 : 20000000); if (r != R_UNK) return r;
  r = solveInt(c.n, out, obligation ? 60000000 : 10000000); return r;
}

// ------------------------------------------------------------------ path control
static void bindFact(CNode *c) {
  if (c->kind == 2) { bindFact(c->l); bindFact(c->r); return; }
  if (c->kind != 1 || c->mask != M_ZERO) return;
  Poly p = toPoly(c->x); Poly q; if (normPoly(p, q)) p = q;
  // find an atom occurring only linearly, with coefficient +-1 (or a univariate linear equation)
  std::map<int, int> occ; for (auto &x : p.t) for (auto &f : monos[x.first]) occ[f.first] += (monos[x.first].size() == 1 && f.second == 1) ? 1 : 100;
  int best = -1; mpz_class bc;
  for (auto &x : p.t) { const MonoV &m = monos[x.first]; if (m.size() != 1 || m[0].second != 1 || occ[m[0].first] != 1) continue; int i = m[0].first;
    bool uni = p.t.size() <= 2 && (p.t.size() == 1 || p.t[0].first == 0); if (::abs(x.second) != 1 && !uni) continue;
    if (atoms[i].kind != K_INPUT && atoms[i].kind != K_STUB && atoms[i].kind != K_ALIAS) { if (!uni) continue; }
    if (best < 0 || i > best) { best = i; bc = x.second; } }
  if (best < 0) return;
  Poly r; for (auto &x : p.t) if (!(monos[x.first].size() == 1 && monos[x.first][0].first == best)) r.t.push_back(x);
  // atoms of r that depend on `best` get a free-standing name, so that the substitution is acyclic
  {
    std::function<bool(int, std::set<int> &)> reaches = [&](int i, std::set<int> &seen) -> bool {
      if (i == best) return true; if (!seen.insert(i).second) return false;
      std::set<int> d; if (atoms[i].bound) Enc::depsI(atoms[i].bval, d); else if (atoms[i].kind != K_ALIAS) atomDeps(i, d);
      for (int j : d) if (reaches(j, seen)) return true; return false;
    };
    std::set<int> ra; Enc::depsP(r, ra); std::map<int, int> nm;
    for (int j : ra) { std::set<int> seen; if (reaches(j, seen)) {
      Atom t; t.kind = K_ALIAS; t.name = "n" + std::to_string(atoms.size()); t.u = atomInt(j); Iv iv = ivAtom(j); t.hasLo = iv.hl; t.lo = iv.l; t.hasHi = iv.hh; t.hi = iv.h;
      nm[j] = newAtom(std::move(t)); } }
    if (nm.size()) {
      Int acc(0); for (auto &x : r.t) { Int m = mkConst(x.second); for (auto &f : monos[x.first]) m = m * pow(atomInt(nm.count(f.first) ? nm[f.first] : f.first), f.second); acc = acc + m; }
      Poly r2 = toPoly(acc); r = r2;
      for (auto &x : nm) { atoms[x.first].bound = true; atoms[x.first].bval = atomInt(x.second); }
    }
  }
  // bc*a + r = 0  ->  a = -r/bc
  Int v; if (::abs(bc) == 1) { v = mkPoly(std::move(r)); if (bc > 0) v = -v; } else { mpz_class k = r.t.empty() ? mpz_class(0) : r.t[0].second; mpz_class qq = -k; if (!mpz_divisible_p(qq.get_mpz_t(), bc.get_mpz_t())) return; v = mkConst(qq / bc); }
  atoms[best].bound = true; atoms[best].bval = v; bindVersion++; signCache.clear();
}
static void tighten(CNode *c) {   // x >= k, x <= k for single atoms: refine the interval
  if (c->kind == 2) { tighten(c->l); tighten(c->r); return; }
  if (c->kind != 1) return; const Poly p = toPoly(c->x);
  int at = -1; mpz_class co, k = 0;
  for (auto &x : p.t) { if (x.first == 0) k = x.second; else if (at < 0 && monos[x.first].size() == 1 && monos[x.first][0].second == 1) { at = monos[x.first][0].first; co = x.second; } else return; }
  if (at < 0) return; Atom &a = atoms[at];
  auto upper = [&](const mpz_class &v) { if (!a.hasHi || v < a.hi) { a.hasHi = true; a.hi = v; } };
  auto lower = [&](const mpz_class &v) { if (!a.hasLo || v > a.lo) { a.hasLo = true; a.lo = v; } };
  // co*a + k (mask) 0
  int m = c->mask; mpz_class kk = k; mpz_class q;
  if (m == M_NEG) { kk = k + 1; m = M_NEG | M_ZERO; } if (m == M_POS) { kk = k - 1; m = M_POS | M_ZERO; }
  mpz_class n = -kk;   // co*a <= n   or >= n
  if (m == (M_NEG | M_ZERO)) { if (co > 0) { mpz_fdiv_q(q.get_mpz_t(), n.get_mpz_t(), co.get_mpz_t()); upper(q); } else { mpz_cdiv_q(q.get_mpz_t(), n.get_mpz_t(), co.get_mpz_t()); lower(q); } }
  else if (m == (M_POS | M_ZERO)) { if (co > 0) { mpz_cdiv_q(q.get_mpz_t(), n.get_mpz_t(), co.get_mpz_t()); lower(q); } else { mpz_fdiv_q(q.get_mpz_t(), n.get_mpz_t(), co.get_mpz_t()); upper(q); } }
}
static void addFact(const Cond &c) {
  if (c.n->kind == 0) return;
  c.n->rc++; facts.push_back(c.n);
  std::vector<Model> np; for (auto &m : pool) if (evalCond(c.n, m.v)) np.push_back(m); pool.swap(np);
  tighten(c.n); bindFact(c.n);
}
static bool getToken() { if (tokR < 0) return false; char b; return read(tokR, &b, 1) == 1; }
static void putToken() { if (tokW >= 0) { if (write(tokW, "t", 1)) {} } }
static bool holdsToken = false;
static void setLimits() { rlimit r; r.rlim_cur = pathCpu; r.rlim_max = pathCpu + 30; setrlimit(RLIMIT_CPU, &r); }
static void finish(int code) {
  ended = true;
  if (holdsToken) { putToken(); holdsToken = false; }
  for (pid_t k : kids) { int st; waitpid(k, &st, 0); }
  _exit(code);
}
static void budget() { if (sh->stop || sh->paths > maxPaths || (deadline && now() > deadline)) { inc(sh->cutsBudget); finish(0); } }
// returns true in the process that goes on with `c`, false in the one that goes on with `!c`
static bool forkOn(const Cond &c, const Model &mc, const Cond &nc, const Model &mn) {
  inc(sh->forks); budget();
  bool concurrent = getToken();
  pid_t pid = fork();
  if (pid < 0) { if (concurrent) putToken(); inc(sh->unknown); addFact(c); if (pool.empty()) pool.push_back(mc); return true; }
  if (pid == 0) {
    kids.clear(); holdsToken = concurrent; inc(sh->paths); setLimits();
    addFact(nc); if (pool.empty()) pool.push_back(mn); extendPool();
    return false;
  }
  if (concurrent) kids.push_back(pid);
  else { int st; waitpid(pid, &st, 0); budget(); }
  addFact(c); if (pool.empty()) pool.push_back(mc); extendPool();
  return true;
}
bool decide(const Cond &c) {
  if (c.n->kind == 0) return c.n->b;
  extendPool();
  Cond nc = !c; Model m1, m2;
  bool side = evalCond(c.n, pool[0].v);       // pool is never empty
  const Cond &mine = side ? c : nc, &other = side ? nc : c;
  m1 = pool[0];
  R r = query(other, m2, false);
  if (r == R_UNSAT) { addFact(mine); return side; }
  if (r == R_UNK) { inc(sh->unknown); logLine("unknown.txt", "branch"); addFact(mine); return side; }
  bool t = forkOn(mine, m1, other, m2);
  return t ? side : !side;
}
// A path whose nonlinear queries are slow splits on the value of a free input with a small range; the remaining
// execution then works with simpler terms.  Every value is still covered by some path.
static void splitInput() {
  static bool busy = false; if (busy || nlTime < 2.5) return;
  int best = -1; mpz_class bd; for (size_t i = 0; i < atoms.size(); i++) { Atom &a = atoms[i]; if (a.kind != K_INPUT || !a.hasLo || !a.hasHi) continue; mpz_class d = a.hi - a.lo + 1; if (d > 64 || d < 2 || (best >= 0 && d >= bd)) continue; if (a.bound && normInt(atomInt(i)).isConst()) continue; best = i; bd = d; }
  nlTime = 0; if (best < 0) return;
  busy = true; concretizeBig(atomInt(best)); busy = false; nlTime = 0;
}
static bool decideSign(const Int &x0, int mask) {
  if (nlTime >= 2.5) splitInput();
  Int x = x0; if (!x.isConst()) x = normInt(x);
  if (x.isConst()) { int s = x.small() ? (x.sval() > 0) - (x.sval() < 0) : ::sgn(cval(x)); return mask & (s < 0 ? M_NEG : s == 0 ? M_ZERO : M_POS); }
  // primitive, positive leading coefficient
  Poly p = nodeOf(x)->p; mpz_class g = 0; for (auto &t : p.t) mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), t.second.get_mpz_t());
  if (p.t.back().second < 0) g = -g;
  if (g != 1) for (auto &t : p.t) t.second /= g;
  p.den = 1; if (g < 0) mask = (mask & M_ZERO) | ((mask & M_NEG) ? M_POS : 0) | ((mask & M_POS) ? M_NEG : 0);
  int known = 7; auto it = signCache.find(p.t); if (it != signCache.end()) known = it->second;
  if (!(known & ~mask)) return true; if (!(known & mask)) return false;
  auto key = p.t; Int y = mkPoly(std::move(p));
  Cond c = mkSign(y, mask);
  bool r = decide(c);
  // after binding the cache is cleared; record the new knowledge
  signCache[key] = known & (r ? mask : 7 & ~mask);
  return r;
}
bool isZero(const Int &a) { if (a.small()) return a.sval() == 0; return decideSign(a, M_ZERO); }
bool isNeg(const Int &a) { if (a.small()) return a.sval() < 0; return decideSign(a, M_NEG); }
bool isPos(const Int &a) { if (a.small()) return a.sval() > 0; return decideSign(a, M_POS); }
int sgn(const Int &a) { if (isZero(a)) return 0; return isNeg(a) ? -1 : 1; }
int cmp(const Int &a, const Int &b) { return sgn(a - b); }
Int abs(const Int &a) { return isNeg(a) ? -a : a; }

Int concretizeBig(const Int &a0) {
  Int a = normInt(a0); if (a.isConst()) return a;
  long n = 0;
  while (true) {
    extendPool();
    mpz_class v = evalInt(a, pool[0].v); Int k = mkConst(v);
    if (isZero(a - k)) return k;
    if (++n > concretizeLimit) cut("concretisation limit");
  }
}
long concretize(const Int &a) { Int k = concretizeBig(a); mpz_class z = cval(k); if (!z.fits_slong_p()) return z.get_si(); return z.get_si(); }
double toDouble(const Int &a) { Int k = concretizeBig(a); return cval(k).get_d(); }
size_t bitlen(const Int &a) { Int c; if (knownConst(a, c)) { mpz_class z = cval(c); return z == 0 ? 0 : mpz_sizeinbase(z.get_mpz_t(), 2); } return 400; }

// ------------------------------------------------------------------ division
static bool polyExactDiv(const Poly &a, const Poly &b, Poly &q);
static mpz_class surj(int k, int j) {   // number of surjections: x^k = sum_j surj(k,j) binom(x,j)
  mpz_class r = 0, t, c; for (int i = 0; i <= j; i++) { mpz_ui_pow_ui(t.get_mpz_t(), i, k); mpz_bin_uiui(c.get_mpz_t(), j, i); t *= c; if ((j - i) & 1) r -= t; else r += t; } return r;
}
static Int mkDivC(const Poly &p0, const mpz_class &b0) {   // floor(p/b), p integer coefficients, b>0
  Poly p = p0; mpz_class b = b0;
  Poly whole, rest;
  for (auto &x : p.t) { mpz_class q, r; mpz_fdiv_qr(q.get_mpz_t(), r.get_mpz_t(), x.second.get_mpz_t(), b.get_mpz_t()); if (r * 2 > b) { r -= b; q += 1; }
    if (q != 0) whole.t.push_back({x.first, q}); if (r != 0) rest.t.push_back({x.first, r}); }
  Int w = mkPoly(std::move(whole));
  if (rest.t.empty()) return w;
  if (rest.t.size() == 1 && rest.t[0].first == 0) { mpz_class q; mpz_fdiv_q(q.get_mpz_t(), rest.t[0].second.get_mpz_t(), b.get_mpz_t()); return w + mkConst(q); }
  // common factor of all coefficients and b
  mpz_class g = b; for (auto &x : rest.t) if (x.first) mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), x.second.get_mpz_t());
  if (g != 1) {  // floor((g*f + c)/(g*b')) = floor((f + floor(c/g))/b')
    Poly r2; for (auto &x : rest.t) { mpz_class q; mpz_fdiv_q(q.get_mpz_t(), x.second.get_mpz_t(), g.get_mpz_t()); if (q != 0) r2.t.push_back({x.first, q}); }
    return w + mkDivC(r2, b / g);
  }
  Iv iv = ivPoly(rest);
  if (iv.hl && iv.hh) { mpz_class ql, qh; mpz_fdiv_q(ql.get_mpz_t(), iv.l.get_mpz_t(), b.get_mpz_t()); mpz_fdiv_q(qh.get_mpz_t(), iv.h.get_mpz_t(), b.get_mpz_t()); if (ql == qh) return w + mkConst(ql); }
  // integer valued polynomial that is always divisible (e.g. n(n+1)/2)?
  bool nonlin = false; std::set<int> av; for (auto &x : rest.t) { const MonoV &m = monos[x.first]; if (m.size() > 1 || (m.size() == 1 && m[0].second > 1)) nonlin = true; for (auto &f : m) av.insert(f.first); }
  if (nonlin) {   // p = sum c_j prod binom(x_i, j_i): divisible by b for all integers iff every c_j is
    std::map<std::vector<int>, mpz_class> co; std::vector<int> a(av.begin(), av.end()); std::map<int, int> at; for (size_t i = 0; i < a.size(); i++) at[a[i]] = i; double work = 0;
    for (auto &x : rest.t) {
      std::map<std::vector<int>, mpz_class> cur; cur[std::vector<int>(a.size(), 0)] = x.second;
      for (auto &f : monos[x.first]) { std::map<std::vector<int>, mpz_class> nx; int i = at[f.first], k = f.second;
        for (int j = 1; j <= k; j++) { mpz_class st = surj(k, j); for (auto &y : cur) { auto key = y.first; key[i] = j; nx[key] += y.second * st; } } cur.swap(nx); work += cur.size(); }
      if (work > 200000) break; for (auto &y : cur) co[y.first] += y.second; }
    bool all = work <= 200000; for (auto &y : co) if (!all || !mpz_divisible_p(y.second.get_mpz_t(), b.get_mpz_t())) { all = false; break; }
    if (all) { Poly r = rest; r.den = b; return w + mkPoly(std::move(r)); }
  }
  for (size_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == K_DIVC && atoms[i].b == b && atoms[i].a.t == rest.t) return w + atomInt(i);
  Atom t; t.kind = K_DIVC; t.name = "fl" + std::to_string(atoms.size()); t.a = rest; t.b = b;
  if (iv.hl) { t.hasLo = true; mpz_fdiv_q(t.lo.get_mpz_t(), iv.l.get_mpz_t(), b.get_mpz_t()); }
  if (iv.hh) { t.hasHi = true; mpz_fdiv_q(t.hi.get_mpz_t(), iv.h.get_mpz_t(), b.get_mpz_t()); }
  return w + atomInt(newAtom(std::move(t)));
}
Int fdiv(const Int &a0, const Int &b0) {
  Int a = normInt(a0), b = normInt(b0);
  if (b.isConst()) {
    mpz_class d = cval(b); if (d == 0) fatal("division by zero");
    if (a.isConst()) { mpz_class n = cval(a), q; mpz_fdiv_q(q.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); return mkConst(q); }
    if (d < 0) { a = -a; d = -d; }
    Poly p = toPoly(a); if (p.den != 1) {
      mpz_class dd = d * p.den; p.den = 1;
      // p/dd with p divisible by the old denominator; keep exactness when provable
      Poly whole = p; bool nl = false; (void)nl;
      if (d == 1) return a;
      return mkDivC(p, dd);
    }
    return mkDivC(p, d);
  }
  if (isZero(b)) fatal("division by zero");
  b = normInt(b); if (b.isConst()) return fdiv(a, b);
  a = normInt(a);
  { Poly q; if (polyExactDiv(toPoly(a), toPoly(b), q)) { if (q.den == 1) return mkPoly(std::move(q)); mpz_class dd = q.den; q.den = 1; return mkDivC(q, dd); } }
  if (a.isConst() && cval(a) == 0) return Int(0);
  if (isNeg(b)) { a = -a; b = -b; }
  Int aa = normInt(a), bb = normInt(b); if (bb.isConst()) return fdiv(aa, bb);
  for (size_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == K_DIVV && samePoly(atoms[i].u, aa) && samePoly(atoms[i].v, bb)) return atomInt(i);
  Poly pa = toPoly(aa), pb = toPoly(bb); if (pa.den != 1 || pb.den != 1) { // scale both
    mpz_class l; mpz_lcm(l.get_mpz_t(), pa.den.get_mpz_t(), pb.den.get_mpz_t()); return fdiv(aa * mkConst(l), bb * mkConst(l)); }
  Atom t; t.kind = K_DIVV; t.name = "dv" + std::to_string(atoms.size()); t.u = aa; t.v = bb;
  Iv x; if (aa.isConst()) x.l = x.h = cval(aa); else x = ivPoly(nodeOf(aa)->p);
  if (x.hl) { t.hasLo = true; t.lo = x.l < 0 ? x.l : mpz_class(0); } if (x.hh) { t.hasHi = true; t.hi = x.h > 0 ? x.h : mpz_class(0); }
  return atomInt(newAtom(std::move(t)));
}
Int fmod(const Int &a, const Int &b) { return a - b * fdiv(a, b); }
Int cdiv(const Int &a, const Int &b) { return -fdiv(-a, b); }
Int tdiv(const Int &a, const Int &b) {
  if (a.isConst() && b.isConst()) { mpz_class n = cval(a), d = cval(b), q; if (d == 0) fatal("division by zero"); mpz_tdiv_q(q.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); return mkConst(q); }
  // exact divisions need no sign split
  Int q = fdiv(a, b); Int r = a - b * q; if (r.isConst() && cval(r) == 0) return q;
  bool na = isNeg(a), nb = isNeg(b);
  if (na == nb) return na ? fdiv(-a, -b) : fdiv(a, b);
  return na ? -fdiv(-a, b) : -fdiv(a, -b);
}
Int tmod(const Int &a, const Int &b) { return a - b * tdiv(a, b); }
// exact multivariate division under a graded order
static int deg(const MonoV &m) { int d = 0; for (auto &f : m) d += f.second; return d; }
static bool monoLess(mono_t a, mono_t b) { if (a == b) return false; const MonoV &x = monos[a], &y = monos[b]; int dx = deg(x), dy = deg(y); if (dx != dy) return dx < dy; 
  // graded lex on atom indices
  size_t i = 0, j = 0; while (i < x.size() && j < y.size()) { if (x[i].first != y[j].first) return x[i].first > y[j].first; if (x[i].second != y[j].second) return x[i].second < y[j].second; i++; j++; } return i == x.size() && j < y.size(); }
static bool monoDiv(mono_t a, mono_t b, mono_t &q) { const MonoV &x = monos[a], &y = monos[b]; MonoV r; size_t j = 0; for (auto &f : x) { int e = f.second; if (j < y.size() && y[j].first == f.first) { e -= y[j].second; j++; } else if (j < y.size() && y[j].first < f.first) return false; if (e < 0) return false; if (e) r.push_back({f.first, e}); } if (j < y.size()) return false; q = internMono(r); return true; }
static bool polyExactDiv(const Poly &a, const Poly &b, Poly &q) {
  if (b.t.empty()) return false; if (a.t.empty()) { q = Poly(); return true; }
  auto lead = [](const std::map<mono_t, mpq_class> &m) { mono_t best = m.begin()->first; for (auto &x : m) if (monoLess(best, x.first)) best = x.first; return best; };
  std::map<mono_t, mpq_class> r, d, qq; for (auto &x : a.t) r[x.first] = mpq_class(x.second, a.den); for (auto &x : b.t) d[x.first] = mpq_class(x.second, b.den);
  for (auto &x : r) x.second.canonicalize(); for (auto &x : d) x.second.canonicalize();
  mono_t ld = lead(d); int steps = 0;
  while (!r.empty()) {
    mono_t lr = lead(r), m; if (!monoDiv(lr, ld, m)) return false; if (++steps > 4000) return false;
    mpq_class c = r[lr] / d[ld]; qq[m] += c;
    for (auto &x : d) { mono_t k = monoMul(m, x.first); mpq_class &e = r[k]; e -= c * x.second; if (e == 0) r.erase(k); }
  }
  Poly out; for (auto &x : qq) mpz_lcm(out.den.get_mpz_t(), out.den.get_mpz_t(), x.second.get_den_mpz_t());
  for (auto &x : qq) out.t.push_back({x.first, x.second.get_num() * (out.den / x.second.get_den())});
  q = out; return true;
}

// ------------------------------------------------------------------ gcd
static Int gcdConst(const Int &a, const mpz_class &c0) {    // gcd(a, c), c>0 constant
  mpz_class c = c0; if (c == 1) return Int(1);
  // content of a's nonconstant coefficients: a = k (mod g)
  std::vector<mpz_class> divs;
  if (!c.fits_slong_p() || c.get_si() > 2000000000L) { Int k = concretizeBig(a); mpz_class g, z = cval(k); mpz_gcd(g.get_mpz_t(), z.get_mpz_t(), c.get_mpz_t()); return mkConst(g); }
  // fork prime by prime: largest power of each prime dividing both
  long n = c.get_si(); mpz_class g = 1;
  for (long p = 2; n > 1; p++) {
    if (p * p > n) p = n;
    long pk = 1; int e = 0; while (n % p == 0) { n /= p; e++; }
    for (int i = 0; i < e; i++) { long t = pk * p; if (isZero(fmod(a, Int(t)))) pk = t; else break; }
    g *= pk;
  }
  return mkConst(g);
}
Int gcd(const Int &a0, const Int &b0) {
  Int a = normInt(a0), b = normInt(b0);
  if (a.isConst() && b.isConst()) { mpz_class g, x = cval(a), y = cval(b); mpz_gcd(g.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return mkConst(g); }
  if (a.isConst()) std::swap(a, b);
  if (b.isConst() && cval(b) != 0) return gcdConst(a, ::abs(cval(b)));
  if (isZero(a)) return abs(b); if (isZero(b)) return abs(a);
  a = normInt(a); b = normInt(b);
  if (a.isConst() || b.isConst()) return gcd(a, b);
  if (samePoly(a, b) || samePoly(a, -b)) return abs(a);
  { Poly q; if (polyExactDiv(toPoly(a), toPoly(b), q) && q.den == 1) return abs(b); if (polyExactDiv(toPoly(b), toPoly(a), q) && q.den == 1) return abs(a); }
  // concretise the one with the smaller range
  Iv x = ivPoly(toPoly(a)), y = ivPoly(toPoly(b)); bool fa = x.hl && x.hh, fb = y.hl && y.hh;
  if (fb && (!fa || (y.h - y.l) / toPoly(b).den < (x.h - x.l) / toPoly(a).den)) std::swap(a, b);
  Int k = concretizeBig(a);
  return gcd(k, b);
}
Int lcm(const Int &a, const Int &b) { if (isZero(a) || isZero(b)) return Int(0); return abs(a * fdiv(b, gcd(a, b))); }
void xgcd(Int &d, Int &s, Int &t, const Int &a0, const Int &b0) {
  Int a = concretizeBig(a0), b = concretizeBig(b0); mpz_class g, x, y, p = cval(a), q = cval(b);
  mpz_gcdext(g.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t(), p.get_mpz_t(), q.get_mpz_t()); d = mkConst(g); s = mkConst(x); t = mkConst(y);
}

// ------------------------------------------------------------------ scaling
void vecPrimitive(std::vector<Int> &v) {
  mpz_class l = 1, g = 0;
  for (auto &x : v) { if (!x.isConst()) x = normInt(x); if (!x.isConst()) mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), nodeOf(x)->p.den.get_mpz_t()); }
  if (l != 1) for (auto &x : v) x = x * mkConst(l);
  for (auto &x : v) { if (g == 1) return; if (x.isConst()) { mpz_class c = cval(x); mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), c.get_mpz_t()); } else for (auto &t : nodeOf(x)->p.t) mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), t.second.get_mpz_t()); }
  if (g == 0 || g == 1) return;
  for (auto &x : v) { if (x.isConst()) x = mkConst(cval(x) / g); else { Poly p = nodeOf(x)->p; for (auto &t : p.t) t.second /= g; x = mkPoly(std::move(p)); } }
}
void synReduce(Int &n, Int &d) {
  n = normInt(n); d = normInt(d);
  if (n.isConst() && cval(n) == 0) { d = Int(1); return; }
  std::vector<Int> v{n, d}; vecPrimitive(v); n = v[0]; d = v[1];
  if (d.isConst()) { if (cval(d) < 0) { n = -n; d = -d; } return; }
  Poly q; if (polyExactDiv(toPoly(n), toPoly(d), q)) { mpz_class k = q.den; q.den = 1; n = mkPoly(std::move(q)); d = mkConst(k); }
}
// ------------------------------------------------------------------ harness interface
static void writeCandidate(const Model &m, const std::string &label) {
  long id = __sync_fetch_and_add(&sh->candidates, 1);
  if (id < 40) {
    std::ofstream f(outDir + "/cand-" + std::to_string(id) + ".txt");
    f << "config " << cfg << "\nlabel " << label << "\n";
    for (size_t i = 0; i < atoms.size() && i < m.v.size(); i++) if (atoms[i].kind == K_INPUT) f << "input " << atoms[i].name << " " << m.v[i] << "\n";
    for (size_t i = 0; i < atoms.size() && i < m.v.size(); i++) if (atoms[i].kind == K_STUB) f << "stub " << atoms[i].name << " " << m.v[i] << "\n";
  }
  if (!knownLabel(label)) { if (__sync_add_and_fetch(&sh->freshCands, 1) >= candLimit) sh->stop = 1; }
}
static Int declare(const std::string &name, Kind k, bool hl, const mpz_class &lo, bool hh, const mpz_class &hi) {
  if (!symMode) {
    if (k == K_STUB) { fprintf(stderr, "stub value requested in replay: %s\n", name.c_str()); return mkConst(lo); }
    auto it = replayVals.find(name); if (it == replayVals.end()) { fprintf(stderr, "replay: no value for %s\n", name.c_str()); return mkConst(hl ? lo : hi); }
    return mkConst(it->second);
  }
  if (hl && hh && lo == hi) { // still recorded for replays
  }
  Atom a; a.kind = k; a.name = name; a.hasLo = hl; a.lo = lo; a.hasHi = hh; a.hi = hi;
  if (pool.empty()) pool.push_back(Model());
  return atomInt(newAtom(std::move(a)));
}
Int input(const std::string &n, long lo, long hi) { return declare(n, K_INPUT, true, lo, true, hi); }
Int inputBig(const std::string &n, const std::string &lo, const std::string &hi) { return declare(n, K_INPUT, true, mpz_class(lo), true, mpz_class(hi)); }
static int stubNo = 0;
Int arbitrary(const std::string &w, long lo, long hi) { return declare(w + "#" + std::to_string(stubNo++), K_STUB, true, lo, true, hi); }
void assume(const Cond &c) {
  if (!symMode) { if (c.n->kind == 0 && !c.n->b) { fprintf(stderr, "replay: assumption violated\n"); _exit(3); } return; }
  if (c.n->kind == 0) { if (c.n->b) return; inc(sh->infeasible); finish(0); }
  extendPool(); Model m; R r = query(c, m, false);
  if (r == R_UNSAT) { inc(sh->infeasible); finish(0); }
  if (r == R_UNK) { inc(sh->unknown); logLine("unknown.txt", "assume"); finish(0); }
  addFact(c); if (pool.empty()) pool.push_back(m); extendPool();
}
void check(const Cond &c, const std::string &label) {
  if (!wanted(label)) return;
  if (!symMode) {
    bool ok = c.n->kind == 0 && c.n->b;
    if (!ok) { replayFailed++; replayFails.push_back(label); }
    fprintf(stderr, "replay check %s: %s\n", label.c_str(), ok ? "holds" : "FAILS"); return;
  }
  inc(sh->obligations); extendPool();
  if (c.n->kind == 0 && c.n->b) {
    // decided by the polynomial normal form; the solver is asked all the same only for non-trivial terms
    inc(sh->discharged); inc(sh->dischargedTrivial); return;
  }
  Model m; R r = query(!c, m, true);
  if (r == R_UNSAT) { inc(sh->discharged); addFact(c); return; }
  if (r == R_UNK) { inc(sh->unknown); logLine("unknown.txt", "obligation " + label); return; }
  writeCandidate(m, label); finish(0);
}
// equalities are put to the solver even when both sides have the same normal form
void checkFrac(const Int &n1, const Int &d1, const Int &n2, const Int &d2, const std::string &label) {
  if (!wanted(label)) return;
  Int l = n1 * d2, r = n2 * d1; Cond c = cEq(l, r);
  if (symMode && c.n->kind == 0 && c.n->b) {
    inc(sh->obligations); zinit();
    z3::expr a = E0->intNum(n1) * E0->num(Enc::denOf(n2)) * E0->num(Enc::denOf(d1)), b = E0->intNum(n2) * E0->num(Enc::denOf(n1)) * E0->num(Enc::denOf(d2));
    if (!(d2.isConst() && cval(d2) == 1)) a = a * E0->intNum(d2); else a = a * E0->num(1);
    if (!(d1.isConst() && cval(d1) == 1)) b = b * E0->intNum(d1);
    inc(sh->queries); inc(sh->queriesSmt); double t0 = now(); z3::check_result q = z3::unknown; z3::expr ne = (a != b).simplify();
    if (ne.is_false()) q = z3::unsat; else { syncSolver(); std::set<int> s; Enc::depsI(n1, s); Enc::depsI(n2, s); Enc::depsI(d1, s); Enc::depsI(d2, s); closure(s); ensureAtoms(s); z3::params pr(*Z); pr.set("rlimit", (unsigned)60000); S->set(pr); S->push(); S->add(ne); q = checkT(*S, 2); S->pop(); }
    addTime(now() - t0); if (getenv("SX_DEBUG")) fprintf(stderr, "[same %s %.3f]\n", q == z3::unsat ? "unsat" : q == z3::sat ? "sat" : "unk", now() - t0);
    inc(sh->discharged); if (q != z3::unsat) inc(sh->dischargedTrivial);
    return;
  }
  check(c, label);
}
void checkEq(const Int &a, const Int &b, const std::string &label) { checkFrac(a, Int(1), b, Int(1), label); }
void reach(const std::string &what) { if (symMode) logLine("reach.txt", what); }
std::string inputText() {
  std::string r; if (!symMode) { for (auto &x : replayVals) r += x.first + "=" + x.second.get_str() + " "; return r; }
  if (pool.empty()) return r; extendPool(); for (size_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == K_INPUT) r += atoms[i].name + "=" + pool[0].v[i].get_str() + " "; return r;
}
void fail(const std::string &label) { check(Cond(false), label); }
void cut(const std::string &why) { if (!symMode) { fprintf(stderr, "replay: cut %s\n", why.c_str()); _exit(3); } inc(sh->pathsCut); logLine("cuts.txt", why); finish(0); }
void endPath() {
  if (!symMode) { return; }
  if (!onlyLabels.empty()) { inc(sh->obligations); inc(sh->discharged); }
  inc(sh->pathsEnded); finish(0);
}
void note(const std::string &s) { logLine("notes.txt", s); }
bool symbolicMode() { return symMode; }
void expectAbort(bool on) { acceptAbort = on; }
const std::string &config() { return cfg; }

static void abnormal(const std::string &why) {
  if (!symMode) { fprintf(stderr, "replay: abnormal end: %s\n", why.c_str()); _exit(acceptAbort ? 0 : 10); }
  if (acceptAbort) { inc(sh->pathsAborted); finish(0); }
  inc(sh->obligations);
  if (!pool.empty()) { extendPool(); writeCandidate(pool[0], "abnormal-end: " + why); } else { Model m; writeCandidate(m, "abnormal-end: " + why); }
  if (getenv("SX_BT")) { void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); }
  finish(0);
}
void fatal(const std::string &why) { abnormal(why); _exit(11); }
static void onSig(int s) {
  signal(s, SIG_DFL);
  if (s == SIGXCPU) { if (symMode && inPath) { inc(sh->timeouts); logLine("unknown.txt", "path cpu limit"); if (!pool.empty()) { Model m = pool[0]; extendModel(m); long save = sh->candidates; (void)save; std::ofstream f(outDir + "/timeout-" + std::to_string(getpid()) + ".txt"); f << "config " << cfg << "\nlabel no-termination\n"; for (size_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == K_INPUT) f << "input " << atoms[i].name << " " << m.v[i] << "\n"; } finish(0); } _exit(12); }
  abnormal(s == SIGABRT ? "abort" : s == SIGSEGV ? "segmentation fault" : s == SIGFPE ? "arithmetic exception" : "signal");
}
static void onExit() { if (inPath && !ended) abnormal("exit called"); }
void covDump(const std::string &fn);
int run(int argc, char **argv, void (*harness)()) {
  std::string replay; int tokFdR = -1, tokFdW = -1; double tl = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--config") cfg = val(); else if (a == "--out") outDir = val(); else if (a == "--replay") replay = val();
    else if (a == "--tok") { std::string v = val(); sscanf(v.c_str(), "%d,%d", &tokFdR, &tokFdW); }
    else if (a == "--max-paths") maxPaths = atol(val().c_str()); else if (a == "--time") tl = atof(val().c_str());
    else if (a == "--path-cpu") pathCpu = atoi(val().c_str()); else if (a == "--only") onlyLabels.push_back(val()); else if (a == "--known") knownLabels.insert(val());
    else if (a == "--cands") candLimit = atol(val().c_str());
  }
  static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGXCPU}) sigaction(s, &sa, 0);
  atexit(onExit);
  if (!replay.empty()) {
    symMode = false; std::ifstream f(replay); std::string line;
    while (std::getline(f, line)) { std::istringstream is(line); std::string k, n, v; is >> k; if (k == "config") { std::getline(is, cfg); while (!cfg.empty() && cfg[0] == ' ') cfg.erase(0, 1); } else if (k == "input") { is >> n >> v; replayVals[n] = mpz_class(v); } }
    sh = new Shared; memset((void *)sh, 0, sizeof *sh); pool.push_back(Model());
    inPath = true;
    try { harness(); } catch (...) { abnormal("uncaught exception"); }
    inPath = false; ended = true;
    return replayFailed ? 1 : 0;
  }
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  double t0 = now(); if (tl > 0) deadline = t0 + tl;
  tokR = tokFdR; tokW = tokFdW; if (tokR >= 0) fcntl(tokR, F_SETFL, O_NONBLOCK);
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    if (!getenv("SX_VERBOSE")) { int d = open("/dev/null", O_RDWR); dup2(d, 1); if (!getenv("SX_DEBUG") && !getenv("SX_BT")) dup2(d, 2); }
    setLimits(); sh->paths = 1; inPath = true; pool.push_back(Model());
    try { harness(); } catch (std::exception &e) { abnormal(std::string("uncaught exception ") + e.what()); } catch (...) { abnormal("uncaught exception"); }
    endPath();
  }
  int st; waitpid(pid, &st, 0);
  covDump(outDir + "/cov.txt");
  std::ofstream o(outDir + "/stats.json");
  o << "{\"config\":\"" << cfg << "\",\"paths\":" << sh->paths << ",\"ended\":" << sh->pathsEnded << ",\"cut\":" << sh->pathsCut << ",\"aborted\":" << sh->pathsAborted
    << ",\"queries\":" << sh->queries << ",\"smt\":" << sh->queriesSmt << ",\"bv\":" << sh->queriesBv << ",\"unknown\":" << sh->unknown << ",\"obligations\":" << sh->obligations
    << ",\"discharged\":" << sh->discharged << ",\"normal_form\":" << sh->dischargedTrivial << ",\"candidates\":" << sh->candidates << ",\"forks\":" << sh->forks << ",\"max_atoms\":" << sh->maxAtoms
    << ",\"infeasible\":" << sh->infeasible << ",\"timeouts\":" << sh->timeouts << ",\"budget\":" << sh->cutsBudget << ",\"solver_s\":" << sh->solverS << ",\"wall_s\":" << now() - t0 << ",\"status\":" << st << "}\n";
  return st == 0 ? 0 : 20;
}
}
// which functions of the code under test were executed symbolically (compiled with -fsanitize-coverage=func,trace-pc-guard)
static void **covTab = 0; static uint32_t covN = 0; static const uint32_t covMax = 1 << 18;
static void **covMem() { if (!covTab) covTab = (void **)mmap(0, covMax * sizeof(void *), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return covTab; }
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { covMem(); for (; a < b; a++) if (!*a && covN + 1 < covMax) *a = ++covN; }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (*g && !covTab[*g]) covTab[*g] = __builtin_return_address(0); }
namespace sx { void covDump(const std::string &fn) { std::ofstream o(fn); for (uint32_t i = 1; i <= covN; i++) if (covTab[i]) o << std::hex << (uintptr_t)covTab[i] << "\n"; } }
