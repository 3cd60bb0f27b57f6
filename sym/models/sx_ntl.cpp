#include "../include/sx_ntl.h"
#include "sx_bridge.h"
#include <sstream>
#include <map>
using sx::Int;
namespace SYMNTL {
long GCD(long a, long b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { long t = a % b; a = b; b = t; } return a; }
void XGCD(long &d, long &s, long &t, long a, long b) { Int x, y, z; sx::xgcd(x, y, z, Int(a), Int(b)); d = x.sval(); s = y.sval(); t = z.sval(); }
long NumBits(const ZZ &a) { Int c; if (sx::knownConst(a.v, c)) return sx::bitlen(c); return sx::bitlen(a.v); }
// Symbolic values travel through byte buffers as a tagged decimal token.
static const unsigned char MAG[4] = {0xC5, 0x3D, 0xA7, 0x91};
long NumBytes(const ZZ &a) { Int c; if (sx::knownConst(a.v, c)) return (sx::bitlen(c) + 7) / 8; return 32; }
void BytesFromZZ(unsigned char *p, const ZZ &a, long n) {
  Int c; if (!sx::knownConst(a.v, c)) {
    if (n < 32) { memset(p, 0xEE, n); return; }
    Int v = sx::abs(a.v);
    if (!sx::knownConst(v, c)) { memset(p, 0, n); memcpy(p, MAG, 4); std::string s = v.str(); memcpy(p + 4, s.data(), s.size()); return; }
  }
  Int v = c < Int(0) ? -c : c;
  for (long i = 0; i < n; i++) { p[i] = sx::concretize(sx::fmod(v, Int(256))); v = sx::fdiv(v, Int(256)); }
}
static bool tagged(const unsigned char *p, long n, Int &v) { if (n < 32 || memcmp(p, MAG, 4)) return false; v = Int::parse(std::string((const char *)p + 4)); return true; }
ZZ ZZFromBytes(const unsigned char *p, long n) { Int v; if (tagged(p, n, v)) return ZZ(v); v = Int(0); for (long i = n; i-- > 0;) v = v * Int(256) + Int((int)p[i]); return ZZ(v); }
ZZ to_ZZ(const char *s) { std::istringstream is(s); ZZ a; is >> a; if (!is) sx::fatal("NTL: bad ZZ input"); return a; }
ZZ to_ZZ(double d) { if (!(d == d) || d > 1e300 || d < -1e300) sx::fatal("NTL: conversion of non-finite double"); d = std::floor(d); char b[400]; snprintf(b, sizeof b, "%.0f", d); return ZZ(Int::parse(b)); }
ZZ RandomBnd(const ZZ &n) { static unsigned long s = 12345; s = s * 6364136223846793005UL + 1442695040888963407UL; return ZZ(Int((long)(s >> 33))) % n; }
long RandomBnd(long n) { return sx::concretize(RandomBnd(ZZ(n)).v); }
double log(const ZZ &a) { return std::log(sx::toDouble(a.v)); }
std::ostream &operator<<(std::ostream &s, const ZZ &a) { return s << a.v.str(); }
std::istream &operator>>(std::istream &s, ZZ &a) {
  s >> std::ws; int c = s.peek(); std::string t; if (c == '-') { t += '-'; s.get(); c = s.peek(); }
  std::string d; while (c != EOF && c >= '0' && c <= '9') { d += (char)c; s.get(); c = s.peek(); }
  if (d.empty()) { s.clear(s.rdstate() | std::ios::failbit); return s; }
  if (c == EOF) s.clear(std::ios::eofbit);
  a.v = Int::parse(t + d); return s; }
static bool allConst(const mat_ZZ &a) { Int c; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (!sx::knownConst(a[i][j].v, c)) return false; return true; }
static void mkConst(mat_ZZ &a) { for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) a[i][j].v = sx::concretizeBig(a[i][j].v); }
static Int detSub(const mat_ZZ &a, const std::vector<int> &rows, const std::vector<int> &cols) {
  size_t n = rows.size(); if (n == 0) return Int(1);
  if (n == 1) return a[rows[0]][cols[0]].v;
  if (n == 2) return a[rows[0]][cols[0]].v * a[rows[1]][cols[1]].v - a[rows[0]][cols[1]].v * a[rows[1]][cols[0]].v;
  // subset dynamic programming over columns
  std::map<unsigned, Int> cur; cur[0] = Int(1);
  for (size_t r = 0; r < n; r++) { std::map<unsigned, Int> nx;
    for (auto &x : cur) for (size_t c = 0; c < n; c++) if (!(x.first >> c & 1)) { const Int &e = a[rows[r]][cols[c]].v; if (e.small() && e.sval() == 0) continue;
      int inv = __builtin_popcount(x.first >> (c + 1)); Int t = x.second * e; if (inv & 1) t = -t; unsigned k = x.first | 1u << c; auto it = nx.find(k); if (it == nx.end()) nx[k] = t; else it->second += t; }
    cur.swap(nx); }
  auto it = cur.find((1u << n) - 1); return it == cur.end() ? Int(0) : it->second; }
static Int bareiss(std::vector<std::vector<Int>> m) {
  size_t n = m.size(); Int prev(1); int sg = 1;
  for (size_t k = 0; k + 1 < n; k++) { size_t p = k; while (p < n && m[p][k] == Int(0)) p++; if (p == n) return Int(0); if (p != k) { std::swap(m[p], m[k]); sg = -sg; }
    for (size_t i = k + 1; i < n; i++) for (size_t j = k + 1; j < n; j++) m[i][j] = sx::fdiv(m[i][j] * m[k][k] - m[i][k] * m[k][j], prev); prev = m[k][k]; }
  return n ? (sg > 0 ? m[n - 1][n - 1] : -m[n - 1][n - 1]) : Int(1); }
void determinant(ZZ &d, const mat_ZZ &a, long) {
  long n = a.NumRows(); if (n != a.NumCols()) sx::fatal("NTL determinant: nonsquare matrix");
  if (n > 5 && allConst(a)) { std::vector<std::vector<Int>> m(n, std::vector<Int>(n)); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) m[i][j] = sx::concretizeBig(a[i][j].v); d.v = bareiss(m); return; }
  if (n > 14) sx::cut("symbolic determinant too large");
  std::vector<int> id; for (long i = 0; i < n; i++) id.push_back(i); d.v = detSub(a, id, id); }
void inv(ZZ &d, mat_ZZ &x, const mat_ZZ &a, long) {
  long n = a.NumRows(); if (n != a.NumCols()) sx::fatal("NTL inv: nonsquare matrix"); ZZ dd; determinant(dd, a); 
  if (IsZero(dd)) { d = dd; return; }
  mat_ZZ r; r.SetDims(n, n);
  for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { std::vector<int> rows, cols; for (long k = 0; k < n; k++) { if (k != j) rows.push_back(k); if (k != i) cols.push_back(k); }
    Int m; if (n > 6) { std::vector<std::vector<Int>> b(n - 1, std::vector<Int>(n - 1)); for (long p = 0; p < n - 1; p++) for (long q = 0; q < n - 1; q++) b[p][q] = a[rows[p]][cols[q]].v; m = bareiss(b); } else m = detSub(a, rows, cols);
    r[i][j].v = (i + j) & 1 ? -m : m; }
  d = dd; x = r; }
void solve(ZZ &d, vec_ZZ &x, const mat_ZZ &a, const vec_ZZ &b, long) { chkLen(b.length(), a.NumRows()); mat_ZZ y; ZZ dd; inv(dd, y, a); d = dd; if (IsZero(dd)) return; vec_ZZ t = b * y; x = t; }
// --- lattice operations: entries are concretised (forking over their feasible values) and the real NTL is called
static SB toSB(const mat_ZZ &a) { SB m; for (long i = 0; i < a.NumRows(); i++) { m.push_back({}); for (long j = 0; j < a.NumCols(); j++) m.back().push_back(a[i][j].v.str()); } return m; }
static void fromSB(mat_ZZ &a, const SB &m, long cols) { mat_ZZ r; r.SetDims(m.size(), cols); for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m[i].size(); j++) r[i][j].v = Int::parse(m[i][j]); a = r; }
static long lll(ZZ &det2, mat_ZZ &b, mat_ZZ *u, long a, long bb, int what) {
  mkConst(b); SB m = toSB(b), um; std::string ds; long r = sb_lll(ds, m, u ? &um : 0, a, bb, what); fromSB(b, m, b.NumCols()); if (u) fromSB(*u, um, b.NumRows()); det2.v = Int::parse(ds); return r; }
long LLL(ZZ &d, mat_ZZ &b, long) { return lll(d, b, 0, 3, 4, 0); }
long LLL(ZZ &d, mat_ZZ &b, mat_ZZ &u, long) { return lll(d, b, &u, 3, 4, 0); }
long LLL(ZZ &d, mat_ZZ &b, long a, long bb, long) { return lll(d, b, 0, a, bb, 0); }
long LLL(ZZ &d, mat_ZZ &b, mat_ZZ &u, long a, long bb, long) { return lll(d, b, &u, a, bb, 0); }
long image(ZZ &d, mat_ZZ &b, long) { return lll(d, b, 0, 3, 4, 1); }
long image(ZZ &d, mat_ZZ &b, mat_ZZ &u, long) { return lll(d, b, &u, 3, 4, 1); }
void HNF(mat_ZZ &w, const mat_ZZ &a0, const ZZ &d) { mat_ZZ a = a0; mkConst(a); SB m = toSB(a), o; sb_hnf(o, m, sx::concretizeBig(d.v).str()); fromSB(w, o, a.NumCols()); }
long LatticeSolve(vec_ZZ &x, const mat_ZZ &a0, const vec_ZZ &y, long red) { mat_ZZ a = a0; mkConst(a); SB m = toSB(a); std::vector<std::string> yy, xx; for (long i = 0; i < y.length(); i++) yy.push_back(sx::concretizeBig(y[i].v).str()); long r = sb_latsolve(xx, m, yy, red); if (r) { x.SetLength(xx.size()); for (size_t i = 0; i < xx.size(); i++) x[i].v = Int::parse(xx[i]); } return r; }
// --- RR
RR::RR(double x) : d(1) { int e; double m = std::frexp(x, &e); long long k = (long long)std::ldexp(m, 53); e -= 53; while (k && !(k & 1)) { k /= 2; e++; } n = Int((long)k); if (e >= 0) n = n * sx::pow(Int(2), e); else if (k) d = sx::pow(Int(2), -e); }
void rrNorm(RR &x) { if (x.n.isConst() && x.d.isConst()) { Int g = sx::gcd(x.n, x.d); if (g != Int(0) && g != Int(1)) { x.n = sx::fdiv(x.n, g); x.d = sx::fdiv(x.d, g); } } }
double rrDouble(const RR &a) { Int n = sx::concretizeBig(a.n), d = sx::concretizeBig(a.d); return sx::toDouble(n) / sx::toDouble(d); }
RR power(const RR &a, long e) { if (e < 0) { RR one; one = 1L; return one / power(a, -e); } return mkRR(sx::pow(a.n, e), sx::pow(a.d, e)); }
std::ostream &operator<<(std::ostream &s, const RR &a) { if (a.d.isConst() && a.d == Int(1)) return s << a.n.str(); Int c, d; if (sx::knownConst(a.n, c) && sx::knownConst(a.d, d)) return s << rrDouble(a); return s << a.n.str() << "/" << a.d.str(); }
std::istream &operator>>(std::istream &s, RR &a) { double d; s >> d; a = RR(d); return s; }
RR determinant(const mat_RR &a) { long n = a.NumRows(); mat_RR m = a; RR det; det = 1L; for (long k = 0; k < n; k++) { long p = k; while (p < n && IsZero(m[p][k])) p++; if (p == n) return RR(); if (p != k) { std::swap(m[p], m[k]); det = -det; } det *= m[k][k]; for (long i = k + 1; i < n; i++) { RR f = m[i][k] / m[k][k]; for (long j = k; j < n; j++) m[i][j] -= f * m[k][j]; } } return det; }
void inv(RR &d, mat_RR &x, const mat_RR &a) { d = determinant(a); if (IsZero(d)) return; long n = a.NumRows(); mat_RR m = a, r; ident(r, n); for (long k = 0; k < n; k++) { long p = k; while (p < n && IsZero(m[p][k])) p++; std::swap(m[p], m[k]); std::swap(r[p], r[k]); RR f = m[k][k]; for (long j = 0; j < n; j++) { m[k][j] /= f; r[k][j] /= f; } for (long i = 0; i < n; i++) if (i != k) { RR g = m[i][k]; for (long j = 0; j < n; j++) { m[i][j] -= g * m[k][j]; r[i][j] -= g * r[k][j]; } } } x = r; }
void inv(mat_RR &x, const mat_RR &a) { RR d; inv(d, x, a); if (IsZero(d)) sx::fatal("RR inv: singular"); }
mat_RR inv(const mat_RR &a) { mat_RR x; inv(x, a); return x; }
}
