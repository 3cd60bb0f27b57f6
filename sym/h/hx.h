// Harness support: the same harness source runs symbolically (shim NTL/GMP, in-memory files) and
// concretely (real NTL/GMP/cddlib/4ti2, files in the current scratch directory).
#pragma once
#include "../rt/sym.h"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <algorithm>
#include "config.h"
#include "latte_ntl.h"
#include "latte_gmp.h"
#include "LattException.h"
using sx::Int; using sx::Cond;
typedef std::vector<Int> IV; typedef std::vector<IV> IM;

// ---- conversions between the engine's integers and the library's ----
#ifdef SX_SYMBOLIC
inline Int I(const NTL::ZZ &z) { return z.v; }
inline NTL::ZZ Z(const Int &i) { NTL::ZZ z; z.v = i; return z; }
inline Int I(const mpz_class &z) { return z.z.v; }
inline mpz_class Mz(const Int &i) { return mpz_class(i); }
#else
inline Int I(const NTL::ZZ &z) { std::ostringstream o; o << z; return Int::parse(o.str()); }
inline NTL::ZZ Z(const Int &i) { std::istringstream s(i.str()); NTL::ZZ z; s >> z; return z; }
inline Int I(const mpz_class &z) { return Int::parse(z.get_str()); }
inline mpz_class Mz(const Int &i) { return mpz_class(i.str()); }
#endif
inline mpq_class Mq(const Int &n, const Int &d) { mpq_class q(Mz(n), Mz(d)); q.canonicalize(); return q; }
inline vec_ZZ Zv(const IV &v) { vec_ZZ z; z.SetLength(v.size()); for (size_t i = 0; i < v.size(); i++) z[i] = Z(v[i]); return z; }
inline IV Iv(const vec_ZZ &z) { IV v; for (long i = 0; i < z.length(); i++) v.push_back(I(z[i])); return v; }

// ---- files ----
inline void putFile(const std::string &n, const std::string &t) {
#ifdef SX_SYMBOLIC
  sx_files()[sx_path(n)].data = t;
#else
  std::ofstream f(n.c_str(), std::ios::binary); f << t;
#endif
}
inline bool getFile(const std::string &n, std::string &t) {
#ifdef SX_SYMBOLIC
  auto it = sx_files().find(sx_path(n)); if (it == sx_files().end()) return false; t = it->second.data; return true;
#else
  std::ifstream f(n.c_str(), std::ios::binary); if (!f) return false; std::stringstream s; s << f.rdbuf(); t = s.str(); return true;
#endif
}
inline void delFile(const std::string &n) {
#ifdef SX_SYMBOLIC
  sx_files().erase(sx_path(n));
#else
  ::unlink(n.c_str());
#endif
}

// ---- running a driver ----
struct Run { bool threw = false; std::string what; bool exited = false; int code = 0; std::string out, err; bool bad() const { return threw || exited; } };
struct CoutCap {
  std::ostringstream s; std::streambuf *o; std::ostream &t;
  CoutCap(std::ostream &x) : t(x) { o = t.rdbuf(s.rdbuf()); }
  ~CoutCap() { t.rdbuf(o); }
};
inline Run runCode(std::function<void()> f) {
  Run r; CoutCap c(std::cout), d(std::cerr);
  try { f(); }
  catch (LattException &e) { r.threw = true; const char *w = e.what(); r.what = w ? w : ""; }
  catch (SxExit &e) { r.exited = true; r.code = e.code; }
  r.out = c.s.str(); r.err = d.s.str(); if (getenv("SX_DUMP")) fprintf(stderr, "--- out\n%s--- err\n%s---\n", r.out.c_str(), r.err.c_str()); return r;
}
struct Args {
  std::vector<std::string> s; std::vector<char *> v;
  Args(const std::vector<std::string> &a) : s(a) { for (auto &x : s) v.push_back(strdup(x.c_str())); v.push_back(0); }
  int c() { return s.size(); }
  char **p() { return v.data(); }
};
inline std::string last(const std::string &out) { std::istringstream i(out); std::string w, l; while (i >> w) l = w; return l; }
inline std::vector<std::string> words(const std::string &s) { std::istringstream i(s); std::string w; std::vector<std::string> r; while (i >> w) r.push_back(w); return r; }

// ---- polyhedra: rows b - a.x >= 0 stored as (b | -a) ----
struct Poly {
  int d = 0; IM rows; std::set<int> eq;
  IM N, Ninv; IV sh;   // the code under test is given the image {y : N (y - sh) in P}, N unimodular (possibly with huge entries)
  int m() const { return rows.size(); }
};
inline IV vecMat(const IV &v, const IM &M, size_t from = 0) { IV r; for (size_t j = 0; j < M.size(); j++) { Int s(0); for (size_t i = 0; i < M.size(); i++) s = s + v[from + i] * M[i][j]; r.push_back(s); } return r; }
inline IV matVec(const IM &M, const IV &v) { IV r; for (auto &q : M) { Int s(0); for (size_t j = 0; j < q.size(); j++) s = s + q[j] * v[j]; r.push_back(s); } return r; }
inline IM imageRows(const Poly &p) {
  if (p.N.empty()) return p.rows;
  IM R; for (auto &r : p.rows) { IV a = vecMat(r, p.N, 1); Int b = r[0]; for (int j = 0; j < p.d; j++) b = b - a[j] * p.sh[j]; a.insert(a.begin(), b); R.push_back(a); } return R;
}
inline IV imagePoint(const Poly &p, const IV &x) { if (p.N.empty()) return x; IV y = matVec(p.Ninv, x); for (int j = 0; j < p.d; j++) y[j] = y[j] + p.sh[j]; return y; }      // the point y with N (y - sh) = x
inline IV originalPoint(const Poly &p, IV y) { if (p.N.empty()) return y; for (int j = 0; j < p.d; j++) y[j] = y[j] - p.sh[j]; return matVec(p.N, y); }
inline Int hxDet(const IM &m) { int n = m.size(); if (n == 0) return Int(1); Int s(0); for (int j = 0; j < n; j++) { IM q; for (int i = 1; i < n; i++) { IV r; for (int k = 0; k < n; k++) if (k != j) r.push_back(m[i][k]); q.push_back(r); } Int t = m[0][j] * hxDet(q); s = (j & 1) ? s - t : s + t; } return s; }
inline IM hxInvUni(const IM &m) { int n = m.size(); Int D = hxDet(m); IM R(n, IV(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { IM q; for (int a = 0; a < n; a++) if (a != i) { IV r; for (int b = 0; b < n; b++) if (b != j) r.push_back(m[a][b]); q.push_back(r); } Int t = hxDet(q) * D; R[j][i] = ((i + j) & 1) ? -t : t; } return R; }
inline std::string hrep(const Poly &p, const std::string &extra = "") {
  std::ostringstream o; o << p.m() << " " << p.d + 1 << "\n";
  for (auto &r : imageRows(p)) { for (auto &x : r) o << x.str() << " "; o << "\n"; }
  if (p.eq.size()) { o << "linearity " << p.eq.size(); for (int e : p.eq) o << " " << e + 1; o << "\n"; }
  o << extra; return o.str();
}
inline std::string cddHrep(const Poly &p) {
  std::ostringstream o; o << "H-representation\n";
  if (p.eq.size()) { o << "linearity " << p.eq.size(); for (int e : p.eq) o << " " << e + 1; o << "\n"; }
  o << "begin\n" << p.m() << " " << p.d + 1 << " integer\n";
  for (auto &r : imageRows(p)) { for (auto &x : r) o << x.str() << " "; o << "\n"; }
  o << "end\n"; return o.str();
}
inline Int rowVal(const IV &r, const std::vector<long> &x, long k = 1) { Int s = r[0] * Int(k); for (size_t j = 0; j < x.size(); j++) s = s + r[j + 1] * Int(x[j]); return s; }
inline Cond inPoly(const Poly &p, const std::vector<long> &x, long k = 1) {
  Cond c(true);
  for (int i = 0; i < p.m(); i++) { Int v = rowVal(p.rows[i], x, k); c = c && (p.eq.count(i) ? sx::cEq(v, Int(0)) : sx::cLe(Int(0), v)); }
  return c;
}
// every integer point of the box [lo,hi]^d, calling f
inline void boxPoints(const std::vector<long> &lo, const std::vector<long> &hi, std::function<void(const std::vector<long> &)> f) {
  std::vector<long> x = lo; size_t d = lo.size();
  for (size_t i = 0; i < d; i++) if (lo[i] > hi[i]) return;
  for (;;) { f(x); size_t i = 0; while (i < d && ++x[i] > hi[i]) { x[i] = lo[i]; i++; } if (i == d) break; }
}
inline Int countBox(const Poly &p, const std::vector<long> &lo, const std::vector<long> &hi, long k = 1) {
  Int s(0); boxPoints(lo, hi, [&](const std::vector<long> &x) { s = s + sx::ite(inPoly(p, x, k), Int(1), Int(0)); }); return s;
}
inline Cond anyBox(const Poly &p, const std::vector<long> &lo, const std::vector<long> &hi) {
  Cond c(false); boxPoints(lo, hi, [&](const std::vector<long> &x) { c = c || inPoly(p, x); }); return c;
}
// configuration strings: "key=value;key=value"
struct Cfg {
  std::map<std::string, std::string> m;
  Cfg(const std::string &s) { std::stringstream i(s); std::string t; while (std::getline(i, t, ';')) { size_t e = t.find('='); if (e == std::string::npos) m[t] = "1"; else m[t.substr(0, e)] = t.substr(e + 1); } }
  std::string s(const std::string &k, const std::string &d = "") const { auto it = m.find(k); return it == m.end() ? d : it->second; }
  long n(const std::string &k, long d = 0) const { auto it = m.find(k); return it == m.end() ? d : atol(it->second.c_str()); }
  std::vector<long> v(const std::string &k) const { std::vector<long> r; std::string t = s(k); for (auto &c : t) if (c == ',') c = ' '; std::istringstream i(t); long x; while (i >> x) r.push_back(x); return r; }
};
// "rows" value: rows separated by '|', entries by ','; an entry is a number or name[lo:hi] (symbolic input,
// the same name denotes the same input); "k*name[lo:hi]" is a multiple, a sum is written with '+'.
inline Int parseEntry(const std::string &e0, std::map<std::string, Int> &in) {
  std::string e = e0; Int s(0); std::stringstream st(e); std::string t;
  while (std::getline(st, t, '+')) {
    Int f(1); size_t st2 = t.find('*'); if (st2 != std::string::npos) { std::string u = t.substr(0, st2); f = in.count(u) ? in[u] : Int::parse(u); t = t.substr(st2 + 1); }
    size_t b = t.find('[');
    if (b == std::string::npos) { if (in.count(t)) s = s + f * in[t]; else s = s + f * Int::parse(t); continue; }
    std::string nm = t.substr(0, b); long lo, hi; sscanf(t.c_str() + b, "[%ld:%ld]", &lo, &hi);
    if (!in.count(nm)) in[nm] = sx::input(nm, lo, hi);
    s = s + f * in[nm];
  }
  return s;
}
inline IM parseRows(const std::string &txt, std::map<std::string, Int> &in) {
  IM r; std::stringstream st(txt); std::string row;
  while (std::getline(st, row, '|')) { r.push_back({}); std::stringstream s2(row); std::string e; while (std::getline(s2, e, ',')) r.back().push_back(parseEntry(e, in)); }
  return r;
}
inline Poly parsePoly(const Cfg &c, std::map<std::string, Int> &in) {
  Poly p; p.rows = parseRows(c.s("rows"), in); p.d = p.rows.at(0).size() - 1; for (long e : c.v("eq")) p.eq.insert(e - 1);
  if (c.s("uni").size()) { p.N = parseRows(c.s("uni"), in); p.Ninv = hxInvUni(p.N); p.sh = c.s("shift").size() ? parseRows(c.s("shift"), in)[0] : IV(p.d, Int(0)); }
  return p;
}
// number of integer points, line by line along coordinate k (of any length); the other coordinates run over the box
inline Int countFiber(const Poly &p, const std::vector<long> &lo, const std::vector<long> &hi, int k, long dil) {
  std::vector<long> l = lo, u = hi; l[k] = u[k] = 0; Int s(0);
  boxPoints(l, u, [&](const std::vector<long> &x) {
    Cond c(true); Int L, U; bool hl = false, hu = false;
    for (int i = 0; i < p.m(); i++) { Int v = rowVal(p.rows[i], x, dil), a = p.rows[i][k + 1]; bool e = p.eq.count(i); int sg = sx::sgn(a);
      if (sg == 0) { c = c && (e ? sx::cEq(v, Int(0)) : sx::cLe(Int(0), v)); continue; }
      if (sg > 0 || e) { Int b = sg > 0 ? sx::cdiv(-v, a) : sx::cdiv(v, -a); L = hl ? sx::cMax(L, b) : b; hl = true; }
      if (sg < 0 || e) { Int b = sg < 0 ? sx::fdiv(v, -a) : sx::fdiv(-v, a); U = hu ? -sx::cMax(-U, -b) : b; hu = true; } }
    s = s + sx::ite(c && sx::cLe(L, U), U - L + Int(1), Int(0)); });
  return s;
}
// the oracle for the number of points: a product of linear expressions over wden (want=...), or a sum over the box
inline Int wantCount(const Poly &p, const Cfg &c, std::map<std::string, Int> &in, long dil = 1) {
  if (c.s("fiber").size()) return countFiber(p, c.v("lo"), c.v("hi"), c.n("fiber"), dil); if (c.s("want").empty()) return countBox(p, c.v("lo"), c.v("hi"), dil);
  in["T"] = Int(dil); Int w(1); for (auto &r : parseRows(c.s("want"), in)) w = w * r[0]; return sx::tdiv(w, Int(c.n("wden", 1)));
}
// programs that call the installed count program get the harness' own copy of the count driver
#ifdef SX_SYMBOLIC
extern int (*sx_count_hook)(const std::vector<std::string> &);
#define WITH_COUNT(drv) static int nestedCount(const std::vector<std::string> &w) { std::vector<std::string> a = {"count"}; std::string o; \
  for (size_t i = 1; i < w.size(); i++) { if (w[i] == ">") { o = w[++i]; continue; } std::string q = w[i]; if (q.size() > 1 && q[0] == '\'') q = q.substr(1, q.size() - 2); a.push_back(q); } \
  Args ar(a); Run r = runCode([&]() { drv(ar.c(), ar.p()); }); if (o.size()) putFile(o, r.out); return r.threw ? 256 : r.exited ? r.code << 8 : 0; } \
  static void setupCount() { sx_count_hook = nestedCount; } static bool asCount(int, char **) { return false; }
#else
#include <unistd.h>
#define WITH_COUNT(drv) static void setupCount() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, 4095); if (n > 0) { b[n] = 0; if (symlink(b, "count")) {} } } \
  static bool asCount(int c, char **v) { std::string s = v[0]; if (s.size() < 6 || s.substr(s.size() - 6) != "/count") return false; try { drv(c, v); } catch (SxExit &e) { _exit(e.code); } catch (LattException &) { _exit(1); } _exit(0); }
#endif
#define HARNESS_MAIN_COUNT(fn) int main(int c, char **v) { if (asCount(c, v)) return 0; return sx::run(c, v, fn); }
#define HARNESS_MAIN(fn) int main(int c, char **v) { return sx::run(c, v, fn); }
