#include "../include/sx_gmp.h"
#include <sstream>
using sx::Int;
void sx_q_light(sx_mpq_s &q) { if (q.canon) return; sx::synReduce(q.n.v, q.d.v); if (q.d.v.isConst() && q.d.v.small() && q.d.v.sval() == 1) q.canon = true; }
void sx_q_canon(sx_mpq_s &q) {
  if (q.canon || q.raw) return;
  sx_q_light(q); if (q.canon) return;
  Int g = sx::gcd(q.n.v, q.d.v); if (g != Int(1)) { q.n.v = sx::fdiv(q.n.v, g); q.d.v = sx::fdiv(q.d.v, g); }
  Int c; if (sx::knownConst(q.n.v, c)) q.n.v = c; if (sx::knownConst(q.d.v, c)) q.d.v = c;
  q.canon = true; }
static void fin(sx_mpq_s &r) { r.raw = false; r.canon = false; sx_q_light(r); }
static bool isOne(const Int &a) { return a.small() && a.sval() == 1; }
int sx_q_sgn(const sx_mpq_s &a) { return sx::sgn(a.n.v); }
int sx_q_cmp(const sx_mpq_s &a, const sx_mpq_s &b) { return sx::sgn(a.n.v * b.d.v - b.n.v * a.d.v); }
bool sx_q_eq(const sx_mpq_s &a, const sx_mpq_s &b) {
  if (a.raw || b.raw) { sx_mpq_s x = a, y = b; sx_q_canon(x); sx_q_canon(y); return x.n.v == y.n.v && x.d.v == y.d.v; }
  return sx::isZero(a.n.v * b.d.v - b.n.v * a.d.v); }
void sx_q_add(sx_mpq_s &r, const sx_mpq_s &a, const sx_mpq_s &b) { sx_mpq_s t; if (isOne(a.d.v) && isOne(b.d.v)) { t.n.v = a.n.v + b.n.v; r = t; return; } t.n.v = a.n.v * b.d.v + b.n.v * a.d.v; t.d.v = a.d.v * b.d.v; fin(t); r = t; }
void sx_q_sub(sx_mpq_s &r, const sx_mpq_s &a, const sx_mpq_s &b) { sx_mpq_s t; if (isOne(a.d.v) && isOne(b.d.v)) { t.n.v = a.n.v - b.n.v; r = t; return; } t.n.v = a.n.v * b.d.v - b.n.v * a.d.v; t.d.v = a.d.v * b.d.v; fin(t); r = t; }
void sx_q_mul(sx_mpq_s &r, const sx_mpq_s &a, const sx_mpq_s &b) { sx_mpq_s t; t.n.v = a.n.v * b.n.v; t.d.v = a.d.v * b.d.v; fin(t); r = t; }
void sx_q_div(sx_mpq_s &r, const sx_mpq_s &a, const sx_mpq_s &b) { int s = sx::sgn(b.n.v); if (!s) sx::fatal("mpq: division by zero"); sx_mpq_s t; t.n.v = a.n.v * b.d.v; t.d.v = a.d.v * b.n.v; if (s < 0) { t.n.v = -t.n.v; t.d.v = -t.d.v; } fin(t); r = t; }
std::string sx_q_str(const sx_mpq_s &a0) { sx_mpq_s a = a0; sx_q_canon(a); if (a.raw && !a.d.v.isConst()) ; if (a.d.v == Int(1)) return a.n.v.str(); return a.n.v.str() + "/" + a.d.v.str(); }
static bool allDigits(const std::string &s) { size_t i = 0; if (i < s.size() && (s[i] == '-' )) i++; if (i == s.size()) return false; for (; i < s.size(); i++) if (!isdigit((unsigned char)s[i])) return false; return true; }
bool sx_q_parse(sx_mpq_s &q, const std::string &s0) { std::string s; for (char c : s0) if (!isspace((unsigned char)c)) s += c; size_t k = s.find('/'); std::string a = s.substr(0, k), b = k == std::string::npos ? "1" : s.substr(k + 1); if (!allDigits(a) || !allDigits(b)) return false; q.n.v = Int::parse(a); q.d.v = Int::parse(b); q.raw = k != std::string::npos; q.canon = !q.raw; return true; }
int mpz_set_str(mpz_ptr z, const char *s, int) { std::string t; for (const char *p = s; *p; p++) if (!isspace((unsigned char)*p)) t += *p; if (!allDigits(t)) return -1; z->v = Int::parse(t); return 0; }
char *mpz_get_str(char *buf, int, mpz_srcptr z) { std::string s = z->v.str(); if (!buf) buf = (char *)malloc(s.size() + 2); strcpy(buf, s.c_str()); return buf; }
static const unsigned char MAG[4] = {0xC5, 0x3D, 0xA7, 0x91};
void mpz_import(mpz_ptr r, size_t count, int order, size_t size, int endian, size_t nails, const void *op) {
  const unsigned char *p = (const unsigned char *)op; size_t n = count * size;
  if (n >= 32 && !memcmp(p, MAG, 4)) { r->v = Int::parse(std::string((const char *)p + 4)); return; }
  Int v(0); if (order == -1) for (size_t i = n; i-- > 0;) v = v * Int(256) + Int((int)p[i]); else for (size_t i = 0; i < n; i++) v = v * Int(256) + Int((int)p[i]); r->v = v; }
void *mpz_export(void *r, size_t *count, int order, size_t size, int endian, size_t nails, mpz_srcptr a) {
  Int c; unsigned char *p = (unsigned char *)r;
  if (!sx::knownConst(a->v, c)) { Int v = sx::abs(a->v); if (!sx::knownConst(v, c)) { if (!p) p = (unsigned char *)malloc(40); memset(p, 0, 32); memcpy(p, MAG, 4); std::string s = v.str(); memcpy(p + 4, s.data(), s.size()); if (count) *count = 32 / size; return p; } }
  if (c < Int(0)) c = -c; size_t n = (sx::bitlen(c) + 7) / 8; n = (n + size - 1) / size * size; if (!p) p = (unsigned char *)malloc(n + 1);
  for (size_t i = 0; i < n; i++) { p[order == -1 ? i : n - 1 - i] = sx::concretize(sx::fmod(c, Int(256))); c = sx::fdiv(c, Int(256)); } if (count) *count = n / size; return p; }
void mpz_bin_uiui(mpz_ptr r, unsigned long n, unsigned long k) { Int v(1); for (unsigned long i = 0; i < k; i++) v = sx::fdiv(v * Int(n - i), Int(i + 1)); if (k > n) v = Int(0); r->v = v; }
mpz_class::mpz_class(double a) { char b[400]; snprintf(b, sizeof b, "%.0f", a < 0 ? -__builtin_floor(-a) : __builtin_floor(a)); z.v = Int::parse(b); }
mpq_class::mpq_class(double x) { int e; double m = __builtin_frexp(x, &e); long k = (long)__builtin_ldexp(m, 53); e -= 53; while (k && !(k & 1)) { k /= 2; e++; } q.n.v = Int(k); if (e >= 0) q.n.v = q.n.v * sx::pow(Int(2), e); else if (k) { q.d.v = sx::pow(Int(2), -e); } }
std::ostream &operator<<(std::ostream &s, mpz_srcptr a) { return s << a->v.str(); }
std::ostream &operator<<(std::ostream &s, mpq_srcptr a) { return s << sx_q_str(*a); }
static bool readInt(std::istream &s, std::string &t) { int c = s.peek(); if (c == '-' || c == '+') { if (c == '-') t += '-'; s.get(); c = s.peek(); } bool any = false; while (c != EOF && isdigit(c)) { t += (char)c; any = true; s.get(); c = s.peek(); } if (any && c == EOF) s.clear(std::ios::eofbit); return any; }
std::istream &operator>>(std::istream &s, mpz_class &a) { s >> std::ws; std::string t; if (!readInt(s, t)) { s.setstate(std::ios::failbit); return s; } a.z.v = Int::parse(t); return s; }
std::istream &operator>>(std::istream &s, mpz_ptr a) { mpz_class t; s >> t; if (s) a->v = t.z.v; return s; }
std::istream &operator>>(std::istream &s, mpq_class &a) { s >> std::ws; std::string t, u; if (!readInt(s, t)) { s.setstate(std::ios::failbit); return s; } a.q.n.v = Int::parse(t); a.q.d.v = Int(1); a.q.raw = false; a.q.canon = true;
  if (s.good() && s.peek() == '/') { s.get(); if (!readInt(s, u)) { s.setstate(std::ios::failbit); return s; } a.q.d.v = Int::parse(u); a.q.raw = true; a.q.canon = false; } return s; }
