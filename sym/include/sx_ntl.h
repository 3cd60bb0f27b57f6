// Stand-in for NTL: same interface (the part LattE uses), values are symbolic integers.
#ifndef SX_NTL_H
#define SX_NTL_H
#include <iostream>
#include <string>
#include <vector>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <algorithm>
#include "../rt/sym.h"
#define NTL SYMNTL
#define NTL_VERSION "symbolic"
#define NTL_NAMESPACE SYMNTL
#define NTL_OPEN_NNS namespace SYMNTL {
#define NTL_CLOSE_NNS }
#define NTL_USE_NNS using namespace SYMNTL;
#define NTL_CLIENT using namespace std; using namespace SYMNTL;
#define NTL_STD_CXX
#define NTL_PSTD_NNS
namespace SYMNTL {
struct INIT_SIZE_STRUCT {}; struct INIT_VAL_STRUCT {};
static const INIT_VAL_STRUCT INIT_VAL = INIT_VAL_STRUCT(); static const INIT_SIZE_STRUCT INIT_SIZE = INIT_SIZE_STRUCT();

class ZZ {
public:
  sx::Int v;
  ZZ() {}
  ZZ(const sx::Int &x) : v(x) {}
  explicit ZZ(long a) : v(a) {}
  explicit ZZ(int a) : v((long)a) {}
  explicit ZZ(unsigned long a) : v(a) {}
  explicit ZZ(unsigned a) : v(a) {}
  ZZ(INIT_VAL_STRUCT, long a) : v(a) {}
  ZZ(const ZZ &) = default; ZZ(ZZ &&) = default;
  ZZ &operator=(const ZZ &) = default; ZZ &operator=(ZZ &&) = default;
  ZZ &operator=(long a) { v = sx::Int(a); return *this; }
  void kill() { v = sx::Int(0); }
  long size() const { return 1; }
  void swap(ZZ &o) { v.swap(o.v); }
  static const ZZ &zero() { static ZZ z; return z; }
};
inline void swap(ZZ &a, ZZ &b) { a.swap(b); }
#define SX_ZZ_BIN(op) \
  inline ZZ operator op(const ZZ &a, const ZZ &b) { return ZZ(a.v op b.v); } \
  inline ZZ operator op(const ZZ &a, long b) { return ZZ(a.v op sx::Int(b)); } \
  inline ZZ operator op(long a, const ZZ &b) { return ZZ(sx::Int(a) op b.v); } \
  inline ZZ &operator op##=(ZZ &a, const ZZ &b) { a.v = a.v op b.v; return a; } \
  inline ZZ &operator op##=(ZZ &a, long b) { a.v = a.v op sx::Int(b); return a; }
SX_ZZ_BIN(+) SX_ZZ_BIN(-) SX_ZZ_BIN(*)
#undef SX_ZZ_BIN
inline ZZ operator/(const ZZ &a, const ZZ &b) { return ZZ(sx::fdiv(a.v, b.v)); }
inline ZZ operator/(const ZZ &a, long b) { return ZZ(sx::fdiv(a.v, sx::Int(b))); }
inline ZZ operator%(const ZZ &a, const ZZ &b) { return ZZ(sx::fmod(a.v, b.v)); }
inline long operator%(const ZZ &a, long b) { return sx::concretize(sx::fmod(a.v, sx::Int(b))); }
inline ZZ &operator/=(ZZ &a, const ZZ &b) { a = a / b; return a; }
inline ZZ &operator/=(ZZ &a, long b) { a = a / b; return a; }
inline ZZ &operator%=(ZZ &a, const ZZ &b) { a = a % b; return a; }
inline ZZ operator-(const ZZ &a) { return ZZ(-a.v); }
inline ZZ &operator++(ZZ &a) { a.v += sx::Int(1); return a; }
inline void operator++(ZZ &a, int) { a.v += sx::Int(1); }
inline ZZ &operator--(ZZ &a) { a.v -= sx::Int(1); return a; }
inline void operator--(ZZ &a, int) { a.v -= sx::Int(1); }
#define SX_ZZ_CMP(op) \
  inline long operator op(const ZZ &a, const ZZ &b) { return a.v op b.v; } \
  inline long operator op(const ZZ &a, long b) { return a.v op sx::Int(b); } \
  inline long operator op(long a, const ZZ &b) { return sx::Int(a) op b.v; }
SX_ZZ_CMP(==) SX_ZZ_CMP(!=) SX_ZZ_CMP(<) SX_ZZ_CMP(>) SX_ZZ_CMP(<=) SX_ZZ_CMP(>=)
#undef SX_ZZ_CMP
inline long sign(const ZZ &a) { return sx::sgn(a.v); }
inline long compare(const ZZ &a, const ZZ &b) { return sx::cmp(a.v, b.v); }
inline long IsZero(const ZZ &a) { return sx::isZero(a.v); }
inline long IsOne(const ZZ &a) { return a.v == sx::Int(1); }
inline long IsOdd(const ZZ &a) { return !sx::isZero(sx::fmod(a.v, sx::Int(2))); }
inline void abs(ZZ &x, const ZZ &a) { x.v = sx::abs(a.v); }
inline ZZ abs(const ZZ &a) { return ZZ(sx::abs(a.v)); }
inline void negate(ZZ &x, const ZZ &a) { x.v = -a.v; }
inline void clear(ZZ &x) { x.v = sx::Int(0); }
inline void set(ZZ &x) { x.v = sx::Int(1); }
inline void add(ZZ &x, const ZZ &a, const ZZ &b) { x.v = a.v + b.v; }
inline void add(ZZ &x, const ZZ &a, long b) { x.v = a.v + sx::Int(b); }
inline void sub(ZZ &x, const ZZ &a, const ZZ &b) { x.v = a.v - b.v; }
inline void sub(ZZ &x, const ZZ &a, long b) { x.v = a.v - sx::Int(b); }
inline void sub(ZZ &x, long a, const ZZ &b) { x.v = sx::Int(a) - b.v; }
inline void mul(ZZ &x, const ZZ &a, const ZZ &b) { x.v = a.v * b.v; }
inline void mul(ZZ &x, const ZZ &a, long b) { x.v = a.v * sx::Int(b); }
inline void mul(ZZ &x, long a, const ZZ &b) { x.v = sx::Int(a) * b.v; }
inline void MulAddTo(ZZ &x, const ZZ &a, const ZZ &b) { x.v += a.v * b.v; }
inline void MulAddTo(ZZ &x, const ZZ &a, long b) { x.v += a.v * sx::Int(b); }
inline void MulSubFrom(ZZ &x, const ZZ &a, const ZZ &b) { x.v -= a.v * b.v; }
inline void sqr(ZZ &x, const ZZ &a) { x.v = a.v * a.v; }
inline ZZ sqr(const ZZ &a) { return ZZ(a.v * a.v); }
inline void div(ZZ &q, const ZZ &a, const ZZ &b) { q = a / b; }
inline void div(ZZ &q, const ZZ &a, long b) { q = a / b; }
inline void rem(ZZ &r, const ZZ &a, const ZZ &b) { r = a % b; }
inline long rem(const ZZ &a, long b) { return a % b; }
inline void DivRem(ZZ &q, ZZ &r, const ZZ &a, const ZZ &b) { sx::Int x = sx::fdiv(a.v, b.v); sx::Int y = a.v - b.v * x; q.v = x; r.v = y; }
inline long DivRem(ZZ &q, const ZZ &a, long b) { ZZ r; DivRem(q, r, a, ZZ(b)); return sx::concretize(r.v); }
inline long divide(const ZZ &a, const ZZ &b) { if (sx::isZero(b.v)) return sx::isZero(a.v); return sx::isZero(sx::fmod(a.v, b.v)); }
inline long divide(ZZ &q, const ZZ &a, const ZZ &b) {
  if (sx::isZero(b.v)) { if (sx::isZero(a.v)) { q = 0; return 1; } return 0; }
  sx::Int x = sx::fdiv(a.v, b.v); if (!sx::isZero(a.v - b.v * x)) return 0; q.v = x; return 1; }
inline long divide(const ZZ &a, long b) { return divide(a, ZZ(b)); }
inline long divide(ZZ &q, const ZZ &a, long b) { return divide(q, a, ZZ(b)); }
inline ZZ GCD(const ZZ &a, const ZZ &b) { return ZZ(sx::gcd(a.v, b.v)); }
inline void GCD(ZZ &d, const ZZ &a, const ZZ &b) { d = GCD(a, b); }
long GCD(long a, long b);
inline void XGCD(ZZ &d, ZZ &s, ZZ &t, const ZZ &a, const ZZ &b) { sx::Int x, y, z; sx::xgcd(x, y, z, a.v, b.v); d.v = x; s.v = y; t.v = z; }
void XGCD(long &d, long &s, long &t, long a, long b);
inline void power(ZZ &x, const ZZ &a, long e) { if (e < 0) sx::fatal("NTL power: negative exponent"); x.v = sx::pow(a.v, e); }
inline ZZ power(const ZZ &a, long e) { ZZ x; power(x, a, e); return x; }
inline void power(ZZ &x, long a, long e) { power(x, ZZ(a), e); }
inline ZZ power_ZZ(long a, long e) { return power(ZZ(a), e); }
inline ZZ power2_ZZ(long e) { return power(ZZ(2L), e); }
inline ZZ AddMod(const ZZ &a, const ZZ &b, const ZZ &n) { return (a + b) % n; }
inline ZZ SubMod(const ZZ &a, const ZZ &b, const ZZ &n) { return (a - b) % n; }
inline ZZ MulMod(const ZZ &a, const ZZ &b, const ZZ &n) { return (a * b) % n; }
inline void AddMod(ZZ &x, const ZZ &a, const ZZ &b, const ZZ &n) { x = (a + b) % n; }
inline void MulMod(ZZ &x, const ZZ &a, const ZZ &b, const ZZ &n) { x = (a * b) % n; }
inline ZZ operator<<(const ZZ &a, long n) { return n >= 0 ? a * power2_ZZ(n) : (sign(a) >= 0 ? a / power2_ZZ(-n) : -((-a) / power2_ZZ(-n))); }
inline ZZ operator>>(const ZZ &a, long n) { return a << -n; }
inline ZZ &operator<<=(ZZ &a, long n) { return a = a << n; }
inline ZZ &operator>>=(ZZ &a, long n) { return a = a >> n; }
long NumBits(const ZZ &a); long NumBytes(const ZZ &a);
void BytesFromZZ(unsigned char *p, const ZZ &a, long n);
ZZ ZZFromBytes(const unsigned char *p, long n);
inline void ZZFromBytes(ZZ &x, const unsigned char *p, long n) { x = ZZFromBytes(p, n); }
inline ZZ to_ZZ(long a) { return ZZ(a); }
inline ZZ to_ZZ(int a) { return ZZ(a); }
inline ZZ to_ZZ(unsigned long a) { return ZZ(a); }
inline ZZ to_ZZ(unsigned a) { return ZZ(a); }
inline ZZ to_ZZ(const ZZ &a) { return a; }
ZZ to_ZZ(const char *s);
ZZ to_ZZ(double d); 
inline void conv(ZZ &x, long a) { x = a; }
inline void conv(ZZ &x, int a) { x = (long)a; }
inline void conv(ZZ &x, unsigned a) { x = ZZ(a); }
inline void conv(ZZ &x, unsigned long a) { x = ZZ(a); }
inline void conv(ZZ &x, const ZZ &a) { x = a; }
inline void conv(ZZ &x, const char *s) { x = to_ZZ(s); }
inline void conv(ZZ &x, double d) { x = to_ZZ(d); }
inline void conv(long &x, const ZZ &a) { x = sx::concretize(a.v); }
inline void conv(int &x, const ZZ &a) { x = (int)sx::concretize(a.v); }
inline void conv(double &x, const ZZ &a) { x = sx::toDouble(a.v); }
inline long to_long(const ZZ &a) { return sx::concretize(a.v); }
inline int to_int(const ZZ &a) { return (int)sx::concretize(a.v); }
inline long to_long(long a) { return a; }
inline int to_int(long a) { return (int)a; }
inline double to_double(const ZZ &a) { return sx::toDouble(a.v); }
inline void SetSeed(const ZZ &) {}
ZZ RandomBnd(const ZZ &n); long RandomBnd(long n);
double log(const ZZ &a);
std::ostream &operator<<(std::ostream &s, const ZZ &a);
std::istream &operator>>(std::istream &s, ZZ &a);
inline long SqrRoot(long a) { return (long)std::sqrt((double)a); }

// ---------------------------------------------------------------- vectors
[[noreturn]] inline void rangeError() { sx::fatal("NTL: index out of range"); }
template <class T> class Vec {
public:
  std::vector<T> d;
  Vec() {}
  Vec(const Vec &) = default; Vec(Vec &&) = default;
  Vec &operator=(const Vec &) = default; Vec &operator=(Vec &&) = default;
  void SetLength(long n) { if (n < 0) sx::fatal("NTL: negative length"); d.resize(n); }
  void FixLength(long n) { d.resize(n); }
  void SetMaxLength(long) {}
  long length() const { return d.size(); }
  long MaxLength() const { return d.size(); }
  long allocated() const { return d.size(); }
  void kill() { d.clear(); }
  Vec(INIT_SIZE_STRUCT, long n) { SetLength(n); }
  T &operator[](long i) { if (i < 0 || i >= (long)d.size()) rangeError(); return d[i]; }
  const T &operator[](long i) const { if (i < 0 || i >= (long)d.size()) rangeError(); return d[i]; }
  T &operator()(long i) { return (*this)[i - 1]; }
  const T &operator()(long i) const { return (*this)[i - 1]; }
  T &at(long i) { return (*this)[i]; }
  const T &at(long i) const { return (*this)[i]; }
  void put(long i, const T &x) { (*this)[i] = x; }
  const T &get(long i) const { return (*this)[i]; }
  T *elts() { return d.data(); } const T *elts() const { return d.data(); }
  void swap(Vec &o) { d.swap(o.d); }
  void append(const T &x) { d.push_back(x); }
  void append(const Vec &x) { std::vector<T> t(x.d); d.insert(d.end(), t.begin(), t.end()); }
  T *begin() { return d.data(); } T *end() { return d.data() + d.size(); }
  const T *begin() const { return d.data(); } const T *end() const { return d.data() + d.size(); }
};
template <class T> void swap(Vec<T> &a, Vec<T> &b) { a.swap(b); }
template <class T> void append(Vec<T> &v, const T &x) { v.append(x); }
template <class T> void append(Vec<T> &v, const Vec<T> &x) { v.append(x); }
template <class T> void VectorCopy(Vec<T> &x, const Vec<T> &a, long n) { Vec<T> r; r.SetLength(n); for (long i = 0; i < n && i < a.length(); i++) r[i] = a[i]; x = r; }
template <class T> Vec<T> VectorCopy(const Vec<T> &a, long n) { Vec<T> r; VectorCopy(r, a, n); return r; }
typedef Vec<ZZ> vec_ZZ;
typedef Vec<vec_ZZ> vec_vec_ZZ;
template <class T> bool operator==(const Vec<T> &a, const Vec<T> &b) { if (a.length() != b.length()) return false; for (long i = 0; i < a.length(); i++) if (!(a[i] == b[i])) return false; return true; }
template <class T> bool operator!=(const Vec<T> &a, const Vec<T> &b) { return !(a == b); }
template <class T> std::ostream &operator<<(std::ostream &s, const Vec<T> &v) { s << "["; for (long i = 0; i < v.length(); i++) { if (i) s << " "; s << v[i]; } return s << "]"; }
template <class T> std::istream &operator>>(std::istream &s, Vec<T> &v) {
  char c; s >> c; if (!s || c != '[') { s.setstate(std::ios::failbit); return s; }
  Vec<T> r; while (true) { s >> std::ws; int k = s.peek(); if (k == ']') { s.get(); break; } if (k == EOF) { s.setstate(std::ios::failbit); return s; } T x; s >> x; if (!s) return s; r.append(x); }
  v = r; return s; }
inline void chkLen(long a, long b) { if (a != b) sx::fatal("NTL: dimension mismatch"); }
inline vec_ZZ operator+(const vec_ZZ &a, const vec_ZZ &b) { chkLen(a.length(), b.length()); vec_ZZ r; r.SetLength(a.length()); for (long i = 0; i < a.length(); i++) r[i] = a[i] + b[i]; return r; }
inline vec_ZZ operator-(const vec_ZZ &a, const vec_ZZ &b) { chkLen(a.length(), b.length()); vec_ZZ r; r.SetLength(a.length()); for (long i = 0; i < a.length(); i++) r[i] = a[i] - b[i]; return r; }
inline vec_ZZ operator-(const vec_ZZ &a) { vec_ZZ r; r.SetLength(a.length()); for (long i = 0; i < a.length(); i++) r[i] = -a[i]; return r; }
inline ZZ operator*(const vec_ZZ &a, const vec_ZZ &b) { ZZ s; long n = std::min(a.length(), b.length()); for (long i = 0; i < n; i++) s += a[i] * b[i]; return s; }
inline vec_ZZ operator*(const vec_ZZ &a, const ZZ &b) { vec_ZZ r; r.SetLength(a.length()); for (long i = 0; i < a.length(); i++) r[i] = a[i] * b; return r; }
inline vec_ZZ operator*(const ZZ &b, const vec_ZZ &a) { return a * b; }
inline vec_ZZ operator*(const vec_ZZ &a, long b) { return a * ZZ(b); }
inline vec_ZZ operator*(long b, const vec_ZZ &a) { return a * ZZ(b); }
inline vec_ZZ &operator+=(vec_ZZ &a, const vec_ZZ &b) { a = a + b; return a; }
inline vec_ZZ &operator-=(vec_ZZ &a, const vec_ZZ &b) { a = a - b; return a; }
inline vec_ZZ &operator*=(vec_ZZ &a, const ZZ &b) { a = a * b; return a; }
inline vec_ZZ &operator*=(vec_ZZ &a, long b) { a = a * ZZ(b); return a; }
inline void add(vec_ZZ &x, const vec_ZZ &a, const vec_ZZ &b) { x = a + b; }
inline void sub(vec_ZZ &x, const vec_ZZ &a, const vec_ZZ &b) { x = a - b; }
inline void negate(vec_ZZ &x, const vec_ZZ &a) { x = -a; }
inline void mul(vec_ZZ &x, const vec_ZZ &a, const ZZ &b) { x = a * b; }
inline void mul(vec_ZZ &x, const ZZ &b, const vec_ZZ &a) { x = a * b; }
inline void mul(vec_ZZ &x, const vec_ZZ &a, long b) { x = a * ZZ(b); }
inline void mul(vec_ZZ &x, long b, const vec_ZZ &a) { x = a * ZZ(b); }
inline void clear(vec_ZZ &x) { for (long i = 0; i < x.length(); i++) clear(x[i]); }
inline long IsZero(const vec_ZZ &a) { for (long i = 0; i < a.length(); i++) if (!IsZero(a[i])) return 0; return 1; }
inline void InnerProduct(ZZ &x, const vec_ZZ &a, const vec_ZZ &b) { x = a * b; }

// ---------------------------------------------------------------- matrices
template <class T> class Mat {
public:
  std::vector<Vec<T>> r; long nc = 0;
  Mat() {}
  Mat(const Mat &) = default; Mat(Mat &&) = default;
  Mat &operator=(const Mat &) = default; Mat &operator=(Mat &&) = default;
  Mat(INIT_SIZE_STRUCT, long n, long m) { SetDims(n, m); }
  void SetDims(long n, long m) { if (n < 0 || m < 0) sx::fatal("NTL: negative dimension"); 
    if (m != nc) { r.clear(); } r.resize(n); nc = m; for (auto &x : r) x.SetLength(m); }
  long NumRows() const { return r.size(); }
  long NumCols() const { return nc; }
  void kill() { r.clear(); nc = 0; }
  Vec<T> &operator[](long i) { if (i < 0 || i >= (long)r.size()) rangeError(); return r[i]; }
  const Vec<T> &operator[](long i) const { if (i < 0 || i >= (long)r.size()) rangeError(); return r[i]; }
  Vec<T> &operator()(long i) { return (*this)[i - 1]; }
  const Vec<T> &operator()(long i) const { return (*this)[i - 1]; }
  T &operator()(long i, long j) { return (*this)[i - 1][j - 1]; }
  const T &operator()(long i, long j) const { return (*this)[i - 1][j - 1]; }
  void swap(Mat &o) { r.swap(o.r); std::swap(nc, o.nc); }
};
template <class T> void swap(Mat<T> &a, Mat<T> &b) { a.swap(b); }
typedef Mat<ZZ> mat_ZZ;
template <class T> bool operator==(const Mat<T> &a, const Mat<T> &b) { if (a.NumRows() != b.NumRows() || a.NumCols() != b.NumCols()) return false; for (long i = 0; i < a.NumRows(); i++) if (!(a[i] == b[i])) return false; return true; }
template <class T> bool operator!=(const Mat<T> &a, const Mat<T> &b) { return !(a == b); }
template <class T> std::ostream &operator<<(std::ostream &s, const Mat<T> &m) { s << "["; for (long i = 0; i < m.NumRows(); i++) s << m[i] << "\n"; return s << "]"; }
template <class T> std::istream &operator>>(std::istream &s, Mat<T> &m) { Vec<Vec<T>> v; s >> v; if (!s) return s; m.kill(); m.SetDims(v.length(), v.length() ? v[0].length() : 0); for (long i = 0; i < v.length(); i++) m[i] = v[i]; return s; }
inline void transpose(mat_ZZ &x, const mat_ZZ &a) { mat_ZZ t; t.SetDims(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) t[j][i] = a[i][j]; x = t; }
inline mat_ZZ transpose(const mat_ZZ &a) { mat_ZZ x; transpose(x, a); return x; }
inline mat_ZZ operator*(const mat_ZZ &a, const mat_ZZ &b) { chkLen(a.NumCols(), b.NumRows()); mat_ZZ r; r.SetDims(a.NumRows(), b.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < b.NumCols(); j++) { ZZ s; for (long k = 0; k < a.NumCols(); k++) s += a[i][k] * b[k][j]; r[i][j] = s; } return r; }
inline vec_ZZ operator*(const mat_ZZ &a, const vec_ZZ &b) { chkLen(a.NumCols(), b.length()); vec_ZZ r; r.SetLength(a.NumRows()); for (long i = 0; i < a.NumRows(); i++) r[i] = a[i] * b; return r; }
inline vec_ZZ operator*(const vec_ZZ &b, const mat_ZZ &a) { chkLen(a.NumRows(), b.length()); vec_ZZ r; r.SetLength(a.NumCols()); for (long j = 0; j < a.NumCols(); j++) { ZZ s; for (long i = 0; i < a.NumRows(); i++) s += b[i] * a[i][j]; r[j] = s; } return r; }
inline mat_ZZ operator*(const mat_ZZ &a, const ZZ &b) { mat_ZZ r = a; for (long i = 0; i < a.NumRows(); i++) r[i] = a[i] * b; return r; }
inline mat_ZZ operator*(const ZZ &b, const mat_ZZ &a) { return a * b; }
inline mat_ZZ operator*(const mat_ZZ &a, long b) { return a * ZZ(b); }
inline mat_ZZ operator+(const mat_ZZ &a, const mat_ZZ &b) { mat_ZZ r = a; for (long i = 0; i < a.NumRows(); i++) r[i] = a[i] + b[i]; return r; }
inline mat_ZZ operator-(const mat_ZZ &a, const mat_ZZ &b) { mat_ZZ r = a; for (long i = 0; i < a.NumRows(); i++) r[i] = a[i] - b[i]; return r; }
inline mat_ZZ operator-(const mat_ZZ &a) { mat_ZZ r = a; for (long i = 0; i < a.NumRows(); i++) r[i] = -a[i]; return r; }
inline void mul(mat_ZZ &x, const mat_ZZ &a, const mat_ZZ &b) { x = a * b; }
inline void mul(vec_ZZ &x, const mat_ZZ &a, const vec_ZZ &b) { x = a * b; }
inline void mul(vec_ZZ &x, const vec_ZZ &a, const mat_ZZ &b) { x = a * b; }
inline void mul(mat_ZZ &x, const mat_ZZ &a, const ZZ &b) { x = a * b; }
inline void mul(mat_ZZ &x, const ZZ &b, const mat_ZZ &a) { x = a * b; }
inline void negate(mat_ZZ &x, const mat_ZZ &a) { x = -a; }
inline void add(mat_ZZ &x, const mat_ZZ &a, const mat_ZZ &b) { x = a + b; }
inline void ident(mat_ZZ &x, long n) { mat_ZZ r; r.SetDims(n, n); for (long i = 0; i < n; i++) r[i][i] = 1; x = r; }
inline mat_ZZ ident_mat_ZZ(long n) { mat_ZZ r; ident(r, n); return r; }
inline void clear(mat_ZZ &x) { for (long i = 0; i < x.NumRows(); i++) clear(x[i]); }
inline long IsZero(const mat_ZZ &a) { for (long i = 0; i < a.NumRows(); i++) if (!IsZero(a[i])) return 0; return 1; }
inline long IsIdent(const mat_ZZ &a, long n) { return a == ident_mat_ZZ(n); }
void determinant(ZZ &d, const mat_ZZ &a, long det = 0);
inline ZZ determinant(const mat_ZZ &a, long = 0) { ZZ d; determinant(d, a); return d; }
void inv(ZZ &d, mat_ZZ &x, const mat_ZZ &a, long det = 0);     // x*a = a*x = d*I, d = det(a)
inline void inv(mat_ZZ &x, const mat_ZZ &a) { ZZ d; mat_ZZ y; inv(d, y, a); if (d != 1 && d != -1) sx::fatal("NTL inv: non-invertible"); if (d == -1) y = -y; x = y; }
inline mat_ZZ inv(const mat_ZZ &a) { mat_ZZ x; inv(x, a); return x; }
void solve(ZZ &d, vec_ZZ &x, const mat_ZZ &a, const vec_ZZ &b, long det = 0); // x*a = d*b
void HNF(mat_ZZ &w, const mat_ZZ &a, const ZZ &d);
inline mat_ZZ HNF(const mat_ZZ &a, const ZZ &d) { mat_ZZ w; HNF(w, a, d); return w; }
long LLL(ZZ &det2, mat_ZZ &b, long verbose = 0);
long LLL(ZZ &det2, mat_ZZ &b, mat_ZZ &u, long verbose = 0);
long LLL(ZZ &det2, mat_ZZ &b, long a, long bb, long verbose = 0);
long LLL(ZZ &det2, mat_ZZ &b, mat_ZZ &u, long a, long bb, long verbose = 0);
long image(ZZ &det2, mat_ZZ &b, long verbose = 0);
long image(ZZ &det2, mat_ZZ &b, mat_ZZ &u, long verbose = 0);
long LatticeSolve(vec_ZZ &x, const mat_ZZ &a, const vec_ZZ &y, long reduce = 0);

// ---------------------------------------------------------------- RR: exact rationals stand for the (150 bit) floating point numbers
class RR {
public:
  sx::Int n, d;      // d > 0
  RR() : d(1) {}
  RR(double x);
  RR(const sx::Int &a, const sx::Int &b) : n(a), d(b) {}
  RR(INIT_VAL_STRUCT, long a) : n(a), d(1) {}
  RR &operator=(double x) { return *this = RR(x); }
  RR &operator=(long x) { n = sx::Int(x); d = sx::Int(1); return *this; }
  RR &operator=(int x) { return *this = (long)x; }
  static void SetPrecision(long) {} static long precision() { return 150; }
  static void SetOutputPrecision(long) {}
};
void rrNorm(RR &x);
inline RR mkRR(const sx::Int &a, const sx::Int &b) { RR r(a, b); rrNorm(r); return r; }
inline RR operator+(const RR &a, const RR &b) { return mkRR(a.n * b.d + b.n * a.d, a.d * b.d); }
inline RR operator-(const RR &a, const RR &b) { return mkRR(a.n * b.d - b.n * a.d, a.d * b.d); }
inline RR operator-(const RR &a) { return RR(-a.n, a.d); }
inline RR operator*(const RR &a, const RR &b) { return mkRR(a.n * b.n, a.d * b.d); }
inline RR operator/(const RR &a, const RR &b) { int s = sx::sgn(b.n); if (!s) sx::fatal("RR: division by zero"); return s > 0 ? mkRR(a.n * b.d, a.d * b.n) : mkRR(-(a.n * b.d), -(a.d * b.n)); }
inline RR &operator+=(RR &a, const RR &b) { return a = a + b; }
inline RR &operator-=(RR &a, const RR &b) { return a = a - b; }
inline RR &operator*=(RR &a, const RR &b) { return a = a * b; }
inline RR &operator/=(RR &a, const RR &b) { return a = a / b; }
#define SX_RR_CMP(op) inline long operator op(const RR &a, const RR &b) { return a.n * b.d op b.n * a.d; } \
  inline long operator op(const RR &a, double b) { return a op RR(b); } inline long operator op(double a, const RR &b) { return RR(a) op b; } \
  inline long operator op(const RR &a, int b) { return a op RR((double)b); } inline long operator op(const RR &a, long b) { return a op RR((double)b); }
SX_RR_CMP(==) SX_RR_CMP(!=) SX_RR_CMP(<) SX_RR_CMP(>) SX_RR_CMP(<=) SX_RR_CMP(>=)
#undef SX_RR_CMP
#define SX_RR_MIX(op) inline RR operator op(const RR &a, double b) { return a op RR(b); } inline RR operator op(double a, const RR &b) { return RR(a) op b; } \
  inline RR operator op(const RR &a, int b) { return a op RR((double)b); } inline RR operator op(int a, const RR &b) { return RR((double)a) op b; } \
  inline RR operator op(const RR &a, long b) { return a op RR((double)b); }
SX_RR_MIX(+) SX_RR_MIX(-) SX_RR_MIX(*) SX_RR_MIX(/)
#undef SX_RR_MIX
inline RR to_RR(const ZZ &a) { return RR(a.v, sx::Int(1)); }
inline RR to_RR(long a) { return RR(sx::Int(a), sx::Int(1)); }
inline RR to_RR(int a) { return RR(sx::Int(a), sx::Int(1)); }
inline RR to_RR(double a) { return RR(a); }
inline RR to_RR(const RR &a) { return a; }
inline void conv(RR &x, const ZZ &a) { x = to_RR(a); }
inline void conv(RR &x, long a) { x = to_RR(a); }
inline void conv(RR &x, int a) { x = to_RR(a); }
inline void conv(RR &x, double a) { x = RR(a); }
inline void conv(RR &x, const RR &a) { x = a; }
inline ZZ FloorToZZ(const RR &a) { return ZZ(sx::fdiv(a.n, a.d)); }
inline ZZ CeilToZZ(const RR &a) { return ZZ(sx::cdiv(a.n, a.d)); }
inline ZZ RoundToZZ(const RR &a) { return ZZ(sx::fdiv(sx::Int(2) * a.n + a.d, sx::Int(2) * a.d)); }
inline ZZ TruncToZZ(const RR &a) { return ZZ(sx::tdiv(a.n, a.d)); }
inline void conv(ZZ &x, const RR &a) { x = FloorToZZ(a); }
inline ZZ to_ZZ(const RR &a) { return FloorToZZ(a); }
inline RR floor(const RR &a) { return to_RR(FloorToZZ(a)); }
inline RR ceil(const RR &a) { return to_RR(CeilToZZ(a)); }
inline RR trunc(const RR &a) { return to_RR(TruncToZZ(a)); }
double rrDouble(const RR &a);
inline double to_double(const RR &a) { return rrDouble(a); }
inline int to_int(const RR &a) { return to_int(FloorToZZ(a)); }
inline long to_long(const RR &a) { return to_long(FloorToZZ(a)); }
inline void conv(double &x, const RR &a) { x = rrDouble(a); }
inline void conv(int &x, const RR &a) { x = to_int(a); }
inline void conv(long &x, const RR &a) { x = to_long(a); }
inline RR abs(const RR &a) { return RR(sx::abs(a.n), a.d); }
inline RR fabs(const RR &a) { return abs(a); }
inline long sign(const RR &a) { return sx::sgn(a.n); }
inline long IsZero(const RR &a) { return sx::isZero(a.n); }
inline RR sqrt(const RR &a) { return RR(std::sqrt(rrDouble(a))); }
inline RR SqrRoot(const RR &a) { return sqrt(a); }
inline RR log(const RR &a) { return RR(std::log(rrDouble(a))); }
inline RR exp(const RR &a) { return RR(std::exp(rrDouble(a))); }
RR power(const RR &a, long e);
inline void power(RR &x, const RR &a, long e) { x = power(a, e); }
inline void clear(RR &a) { a = RR(); } inline void set(RR &a) { a = 1L; }
inline void add(RR &x, const RR &a, const RR &b) { x = a + b; } inline void sub(RR &x, const RR &a, const RR &b) { x = a - b; }
inline void mul(RR &x, const RR &a, const RR &b) { x = a * b; } inline void div(RR &x, const RR &a, const RR &b) { x = a / b; }
inline void abs(RR &x, const RR &a) { x = abs(a); }
std::ostream &operator<<(std::ostream &s, const RR &a);
std::istream &operator>>(std::istream &s, RR &a);
typedef Vec<RR> vec_RR; typedef Mat<RR> mat_RR;
inline vec_RR operator+(const vec_RR &a, const vec_RR &b) { vec_RR r; r.SetLength(a.length()); for (long i = 0; i < a.length(); i++) r[i] = a[i] + b[i]; return r; }
inline vec_RR operator-(const vec_RR &a, const vec_RR &b) { vec_RR r; r.SetLength(a.length()); for (long i = 0; i < a.length(); i++) r[i] = a[i] - b[i]; return r; }
inline vec_RR operator-(const vec_RR &a) { vec_RR r; r.SetLength(a.length()); for (long i = 0; i < a.length(); i++) r[i] = -a[i]; return r; }
inline double GetTime() { return 0; } inline double GetWallTime() { return 0; }
inline RR operator*(const vec_RR &a, const vec_RR &b) { RR s; for (long i = 0; i < a.length() && i < b.length(); i++) s += a[i] * b[i]; return s; }
inline vec_RR operator*(const vec_RR &a, const RR &b) { vec_RR r; r.SetLength(a.length()); for (long i = 0; i < a.length(); i++) r[i] = a[i] * b; return r; }
inline vec_RR operator*(const RR &b, const vec_RR &a) { return a * b; }
inline vec_RR operator*(const mat_RR &a, const vec_RR &b) { vec_RR r; r.SetLength(a.NumRows()); for (long i = 0; i < a.NumRows(); i++) r[i] = a[i] * b; return r; }
inline vec_RR operator*(const vec_RR &b, const mat_RR &a) { vec_RR r; r.SetLength(a.NumCols()); for (long j = 0; j < a.NumCols(); j++) { RR s; for (long i = 0; i < a.NumRows(); i++) s += b[i] * a[i][j]; r[j] = s; } return r; }
inline void conv(vec_RR &x, const vec_ZZ &a) { x.SetLength(a.length()); for (long i = 0; i < a.length(); i++) conv(x[i], a[i]); }
inline void conv(mat_RR &x, const mat_ZZ &a) { x.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) conv(x[i][j], a[i][j]); }
inline vec_RR to_vec_RR(const vec_ZZ &a) { vec_RR r; conv(r, a); return r; }
inline mat_RR to_mat_RR(const mat_ZZ &a) { mat_RR r; conv(r, a); return r; }
inline void InnerProduct(RR &x, const vec_RR &a, const vec_RR &b) { x = a * b; }
mat_RR inv(const mat_RR &a); void inv(mat_RR &x, const mat_RR &a); void inv(RR &d, mat_RR &x, const mat_RR &a);
RR determinant(const mat_RR &a); inline void determinant(RR &d, const mat_RR &a) { d = determinant(a); }
inline mat_RR transpose(const mat_RR &a) { mat_RR t; t.SetDims(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) t[j][i] = a[i][j]; return t; }
inline void ident(mat_RR &x, long n) { mat_RR r; r.SetDims(n, n); for (long i = 0; i < n; i++) r[i][i] = 1L; x = r; }
inline mat_RR operator*(const mat_RR &a, const RR &b) { mat_RR r = a; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) r[i][j] = a[i][j] * b; return r; }
inline void transpose(mat_RR &x, const mat_RR &a) { x = transpose(a); }
inline void trunc(RR &x, const RR &a) { x = trunc(a); }
inline long IsZero(const mat_RR &a) { for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (!IsZero(a[i][j])) return 0; return 1; }
inline RR power2_RR(long e) { return e >= 0 ? RR(sx::pow(sx::Int(2), e), sx::Int(1)) : RR(sx::Int(1), sx::pow(sx::Int(2), -e)); }
inline void power2(ZZ &x, long e) { x = ZZ(sx::pow(sx::Int(2), e)); }
inline void LeftShift(ZZ &x, const ZZ &a, long e) { x = e >= 0 ? ZZ(a.v * sx::pow(sx::Int(2), e)) : ZZ(sx::tdiv(a.v, sx::pow(sx::Int(2), -e))); }
template <class A, class B> void conv_helper(A &, const B &);
template <class A, class B> A conv(const B &b) { A a; conv(a, b); return a; }
}
#endif
