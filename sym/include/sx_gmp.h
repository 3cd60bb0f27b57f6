// Stand-in for GMP / gmpxx: the part LattE uses, on symbolic integers.
#ifndef SX_GMP_H
#define SX_GMP_H
#include <iostream>
#include <string>
#include <cstring>
#include <cstddef>
#include <cstdint>
#include "../rt/sym.h"
#define __GMP_H__ 1
#define __GNU_MP__ 6
#define __GMP_PLUSPLUS__ 1
#define __GNU_MP_VERSION 6
typedef unsigned long sx_mp_bitcnt_t;
#define mp_bitcnt_t sx_mp_bitcnt_t
struct sx_mpz_s { sx::Int v; };
// a rational: value n/d.  raw: set by the user without canonicalize(); otherwise the
// pair stands for its canonical form, which is computed when it is looked at.
struct sx_mpq_s { sx_mpz_s n, d; bool raw, canon; sx_mpq_s() : raw(false), canon(true) { d.v = sx::Int(1); } };
typedef sx_mpz_s sx_mpz_t[1]; typedef sx_mpq_s sx_mpq_t[1];
typedef sx_mpz_s *sx_mpz_ptr; typedef const sx_mpz_s *sx_mpz_srcptr; typedef sx_mpq_s *sx_mpq_ptr; typedef const sx_mpq_s *sx_mpq_srcptr;
#define mpz_t sx_mpz_t
#define mpq_t sx_mpq_t
#define mpz_ptr sx_mpz_ptr
#define mpz_srcptr sx_mpz_srcptr
#define mpq_ptr sx_mpq_ptr
#define mpq_srcptr sx_mpq_srcptr
#define __mpz_struct sx_mpz_s
#define __mpq_struct sx_mpq_s
void sx_q_canon(sx_mpq_s &q);      // force the canonical form
void sx_q_light(sx_mpq_s &q);      // cheap syntactic reduction
int sx_q_cmp(const sx_mpq_s &a, const sx_mpq_s &b);
int sx_q_sgn(const sx_mpq_s &a);
bool sx_q_eq(const sx_mpq_s &a, const sx_mpq_s &b);
void sx_q_add(sx_mpq_s &r, const sx_mpq_s &a, const sx_mpq_s &b);
void sx_q_sub(sx_mpq_s &r, const sx_mpq_s &a, const sx_mpq_s &b);
void sx_q_mul(sx_mpq_s &r, const sx_mpq_s &a, const sx_mpq_s &b);
void sx_q_div(sx_mpq_s &r, const sx_mpq_s &a, const sx_mpq_s &b);
std::string sx_q_str(const sx_mpq_s &a); bool sx_q_parse(sx_mpq_s &a, const std::string &s);
// ---- C interface
#define mpz_init sx_mpz_init
#define mpz_clear sx_mpz_clear
#define mpz_set sx_mpz_set
#define mpz_set_si sx_mpz_set_si
#define mpz_set_ui sx_mpz_set_ui
#define mpz_init_set sx_mpz_init_set
#define mpz_init_set_si sx_mpz_init_set_si
#define mpz_init_set_ui sx_mpz_init_set_ui
#define mpz_set_str sx_mpz_set_str
#define mpz_init_set_str sx_mpz_init_set_str
#define mpz_get_str sx_mpz_get_str
#define mpz_get_si sx_mpz_get_si
#define mpz_get_ui sx_mpz_get_ui
#define mpz_get_d sx_mpz_get_d
#define mpz_pow_ui sx_mpz_pow_ui
#define mpz_ui_pow_ui sx_mpz_ui_pow_ui
#define mpz_lcm sx_mpz_lcm
#define mpz_gcd sx_mpz_gcd
#define mpz_add sx_mpz_add
#define mpz_sub sx_mpz_sub
#define mpz_mul sx_mpz_mul
#define mpz_neg sx_mpz_neg
#define mpz_abs sx_mpz_abs
#define mpz_fdiv_q sx_mpz_fdiv_q
#define mpz_fdiv_r sx_mpz_fdiv_r
#define mpz_cdiv_q sx_mpz_cdiv_q
#define mpz_tdiv_q sx_mpz_tdiv_q
#define mpz_tdiv_r sx_mpz_tdiv_r
#define mpz_mod sx_mpz_mod
#define mpz_divexact sx_mpz_divexact
#define mpz_cmp sx_mpz_cmp
#define mpz_cmp_si sx_mpz_cmp_si
#define mpz_cmp_ui sx_mpz_cmp_ui
#define mpz_sgn sx_mpz_sgn
#define mpz_sizeinbase sx_mpz_sizeinbase
#define mpz_import sx_mpz_import
#define mpz_export sx_mpz_export
#define mpz_bin_uiui sx_mpz_bin_uiui
#define mpz_fits_sint_p sx_mpz_fits_sint_p
#define mpz_fits_slong_p sx_mpz_fits_slong_p
#define mpz_swap sx_mpz_swap
#define mpq_init sx_mpq_init
#define mpq_clear sx_mpq_clear
#define mpq_set sx_mpq_set
#define mpq_set_si sx_mpq_set_si
#define mpq_set_ui sx_mpq_set_ui
#define mpq_set_z sx_mpq_set_z
#define mpq_set_num sx_mpq_set_num
#define mpq_set_den sx_mpq_set_den
#define mpq_canonicalize sx_mpq_canonicalize
#define mpq_add sx_mpq_add
#define mpq_sub sx_mpq_sub
#define mpq_mul sx_mpq_mul
#define mpq_div sx_mpq_div
#define mpq_neg sx_mpq_neg
#define mpq_cmp sx_mpq_cmp
#define mpq_equal sx_mpq_equal
#define mpq_sgn sx_mpq_sgn
#define mpq_numref sx_mpq_numref
#define mpq_denref sx_mpq_denref
#define mpq_get_str sx_mpq_get_str
#define mpq_set_str sx_mpq_set_str
inline void mpz_init(mpz_ptr z) { new (z) sx_mpz_s(); }
inline void mpz_clear(mpz_ptr z) { z->v = sx::Int(0); }
inline void mpz_set(mpz_ptr z, mpz_srcptr a) { z->v = a->v; }
inline void mpz_set_si(mpz_ptr z, long a) { z->v = sx::Int(a); }
inline void mpz_set_ui(mpz_ptr z, unsigned long a) { z->v = sx::Int(a); }
inline void mpz_init_set(mpz_ptr z, mpz_srcptr a) { mpz_init(z); z->v = a->v; }
inline void mpz_init_set_si(mpz_ptr z, long a) { mpz_init(z); z->v = sx::Int(a); }
inline void mpz_init_set_ui(mpz_ptr z, unsigned long a) { mpz_init(z); z->v = sx::Int(a); }
inline int gmp_printf(const char *, ...) { return 0; }
#define gmp_fprintf(...) 0
int mpz_set_str(mpz_ptr z, const char *s, int base);
inline int mpz_init_set_str(mpz_ptr z, const char *s, int base) { mpz_init(z); return mpz_set_str(z, s, base); }
char *mpz_get_str(char *buf, int base, mpz_srcptr z);
inline long mpz_get_si(mpz_srcptr z) { return sx::concretize(z->v); }
inline unsigned long mpz_get_ui(mpz_srcptr z) { return sx::concretize(sx::abs(z->v)); }
inline double mpz_get_d(mpz_srcptr z) { return sx::toDouble(z->v); }
inline void mpz_pow_ui(mpz_ptr r, mpz_srcptr a, unsigned long e) { r->v = sx::pow(a->v, e); }
inline void mpz_ui_pow_ui(mpz_ptr r, unsigned long a, unsigned long e) { r->v = sx::pow(sx::Int(a), e); }
inline void mpz_lcm(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sx::lcm(a->v, b->v); }
inline void mpz_gcd(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sx::gcd(a->v, b->v); }
inline void mpz_add(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = a->v + b->v; }
inline void mpz_sub(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = a->v - b->v; }
inline void mpz_mul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = a->v * b->v; }
inline void mpz_neg(mpz_ptr r, mpz_srcptr a) { r->v = -a->v; }
inline void mpz_abs(mpz_ptr r, mpz_srcptr a) { r->v = sx::abs(a->v); }
inline void mpz_fdiv_q(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sx::fdiv(a->v, b->v); }
inline void mpz_fdiv_r(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sx::fmod(a->v, b->v); }
inline void mpz_cdiv_q(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sx::cdiv(a->v, b->v); }
inline void mpz_tdiv_q(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sx::tdiv(a->v, b->v); }
inline void mpz_tdiv_r(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sx::tmod(a->v, b->v); }
inline void mpz_mod(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sx::fmod(a->v, sx::abs(b->v)); }
inline void mpz_divexact(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = sx::fdiv(a->v, b->v); }
inline int mpz_cmp(mpz_srcptr a, mpz_srcptr b) { return sx::cmp(a->v, b->v); }
inline int mpz_cmp_si(mpz_srcptr a, long b) { return sx::cmp(a->v, sx::Int(b)); }
inline int mpz_cmp_ui(mpz_srcptr a, unsigned long b) { return sx::cmp(a->v, sx::Int(b)); }
inline int mpz_sgn(mpz_srcptr a) { return sx::sgn(a->v); }
inline size_t mpz_sizeinbase(mpz_srcptr a, int base) { if (a->v.isConst()) return base == 2 ? (sx::bitlen(a->v) ? sx::bitlen(a->v) : 1) : a->v.str().size(); return base == 2 ? sx::bitlen(a->v) : 40; }
inline int mpz_fits_sint_p(mpz_srcptr a) { return a->v >= sx::Int(-2147483647L - 1) && a->v <= sx::Int(2147483647L); }
inline int mpz_fits_slong_p(mpz_srcptr a) { return a->v >= sx::Int::parse("-9223372036854775808") && a->v <= sx::Int::parse("9223372036854775807"); }
inline void mpz_swap(mpz_ptr a, mpz_ptr b) { a->v.swap(b->v); }
void mpz_import(mpz_ptr r, size_t count, int order, size_t size, int endian, size_t nails, const void *op);
void *mpz_export(void *r, size_t *count, int order, size_t size, int endian, size_t nails, mpz_srcptr a);
void mpz_bin_uiui(mpz_ptr r, unsigned long n, unsigned long k);
inline void mpq_init(mpq_ptr q) { new (q) sx_mpq_s(); }
inline void mpq_clear(mpq_ptr q) { q->n.v = sx::Int(0); q->d.v = sx::Int(1); q->raw = false; q->canon = true; }
inline void mpq_set(mpq_ptr q, mpq_srcptr a) { *q = *a; }
inline void mpq_set_si(mpq_ptr q, long a, unsigned long b) { q->n.v = sx::Int(a); q->d.v = sx::Int(b); q->raw = b != 1; q->canon = b == 1; }
inline void mpq_set_ui(mpq_ptr q, unsigned long a, unsigned long b) { q->n.v = sx::Int(a); q->d.v = sx::Int(b); q->raw = b != 1; q->canon = b == 1; }
inline void mpq_set_z(mpq_ptr q, mpz_srcptr a) { q->n.v = a->v; q->d.v = sx::Int(1); q->raw = false; q->canon = true; }
inline void mpq_set_num(mpq_ptr q, mpz_srcptr a) { sx_q_canon(*q); q->n.v = a->v; q->raw = true; q->canon = false; }
inline void mpq_set_den(mpq_ptr q, mpz_srcptr a) { sx_q_canon(*q); q->d.v = a->v; q->raw = true; q->canon = false; }
inline void mpq_canonicalize(mpq_ptr q) { q->raw = false; q->canon = false; if (sx::isNeg(q->d.v)) { q->n.v = -q->n.v; q->d.v = -q->d.v; } else if (sx::isZero(q->d.v)) sx::fatal("mpq: zero denominator"); sx_q_light(*q); }
inline void mpq_add(mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { sx_q_add(*r, *a, *b); }
inline void mpq_sub(mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { sx_q_sub(*r, *a, *b); }
inline void mpq_mul(mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { sx_q_mul(*r, *a, *b); }
inline void mpq_div(mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { sx_q_div(*r, *a, *b); }
inline void mpq_neg(mpq_ptr r, mpq_srcptr a) { *r = *a; r->n.v = -r->n.v; }
inline int mpq_cmp(mpq_srcptr a, mpq_srcptr b) { return sx_q_cmp(*a, *b); }
inline int mpq_equal(mpq_srcptr a, mpq_srcptr b) { return sx_q_eq(*a, *b); }
inline int mpq_sgn(mpq_srcptr a) { return sx_q_sgn(*a); }
inline mpz_ptr mpq_numref(mpq_ptr q) { sx_q_canon(*q); q->raw = true; return &q->n; }
inline mpz_ptr mpq_denref(mpq_ptr q) { sx_q_canon(*q); q->raw = true; return &q->d; }
inline mpz_srcptr mpq_numref(mpq_srcptr q) { sx_q_canon(*(mpq_ptr)q); return &q->n; }
inline mpz_srcptr mpq_denref(mpq_srcptr q) { sx_q_canon(*(mpq_ptr)q); return &q->d; }
std::ostream &operator<<(std::ostream &s, mpz_srcptr a);
std::ostream &operator<<(std::ostream &s, mpq_srcptr a);

// ---- C++ interface
#define mpz_class sx_mpz_class
#define mpq_class sx_mpq_class
class mpz_class {
public:
  sx_mpz_s z;
  mpz_class() {}
  mpz_class(const sx::Int &v) { z.v = v; }
  mpz_class(int a) { z.v = sx::Int((long)a); }
  mpz_class(long a) { z.v = sx::Int(a); }
  mpz_class(unsigned a) { z.v = sx::Int((unsigned long)a); }
  mpz_class(unsigned long a) { z.v = sx::Int(a); }
  mpz_class(double a);
  mpz_class &operator=(const char *s) { set_str(s, 10); return *this; }
  mpz_class &operator=(const std::string &s) { set_str(s, 10); return *this; }
  mpz_class &operator=(const mpz_class &) = default;
  mpz_class &operator=(int a) { z.v = sx::Int((long)a); return *this; }
  mpz_class &operator=(long a) { z.v = sx::Int(a); return *this; }
  mpz_class &operator=(unsigned a) { z.v = sx::Int((unsigned long)a); return *this; }
  mpz_class &operator=(unsigned long a) { z.v = sx::Int(a); return *this; }
  mpz_class &operator=(double a) { return *this = mpz_class(a); }
  mpz_class(const mpz_class &) = default;
  explicit mpz_class(mpz_srcptr a) { z.v = a->v; }
  explicit mpz_class(const std::string &s, int base = 0) { if (set_str(s, base)) sx::fatal("mpz_class: invalid string"); }
  explicit mpz_class(const char *s, int base = 0) { if (set_str(s, base)) sx::fatal("mpz_class: invalid string"); }
  explicit mpz_class(const class mpq_class &q);
  int set_str(const std::string &s, int base) { return mpz_set_str(&z, s.c_str(), base ? base : 10); }
  std::string get_str(int base = 10) const { return z.v.str(); }
  mpz_ptr get_mpz_t() { return &z; }
  mpz_srcptr get_mpz_t() const { return &z; }
  long get_si() const { return sx::concretize(z.v); }
  unsigned long get_ui() const { return sx::concretize(sx::abs(z.v)); }
  double get_d() const { return sx::toDouble(z.v); }
  bool fits_sint_p() const { return mpz_fits_sint_p(&z); }
  bool fits_slong_p() const { return mpz_fits_slong_p(&z); }
  void swap(mpz_class &o) { z.v.swap(o.z.v); }
  mpz_class &operator++() { z.v += sx::Int(1); return *this; }
  mpz_class operator++(int) { mpz_class t(*this); z.v += sx::Int(1); return t; }
  mpz_class &operator--() { z.v -= sx::Int(1); return *this; }
  mpz_class operator--(int) { mpz_class t(*this); z.v -= sx::Int(1); return t; }
  explicit operator bool() const { return !sx::isZero(z.v); }
};
class mpq_class {
public:
  sx_mpq_s q;
  mpq_class() {}
  mpq_class(int a) { q.n.v = sx::Int((long)a); }
  mpq_class(long a) { q.n.v = sx::Int(a); }
  mpq_class(unsigned a) { q.n.v = sx::Int((unsigned long)a); }
  mpq_class(unsigned long a) { q.n.v = sx::Int(a); }
  mpq_class(double a);
  mpq_class(const mpz_class &a) { q.n.v = a.z.v; }
  explicit mpq_class(mpq_srcptr a) { q = *a; }
  mpq_class(const mpz_class &a, const mpz_class &b) { q.n.v = a.z.v; q.d.v = b.z.v; q.raw = true; q.canon = false; }
  explicit mpq_class(const std::string &s, int base = 0) { if (set_str(s, base)) sx::fatal("mpq_class: invalid string"); }
  explicit mpq_class(const char *s, int base = 0) { if (set_str(s, base)) sx::fatal("mpq_class: invalid string"); }
  int set_str(const std::string &s, int base) { return sx_q_parse(q, s) ? 0 : -1; }
  std::string get_str(int base = 10) const { return sx_q_str(q); }
  void canonicalize() { mpq_canonicalize(&q); }
  mpq_ptr get_mpq_t() { return &q; }
  mpq_srcptr get_mpq_t() const { return &q; }
  mpz_class &get_num() { sx_q_canon(q); q.raw = true; return *(mpz_class *)&q.n; }
  mpz_class &get_den() { sx_q_canon(q); q.raw = true; return *(mpz_class *)&q.d; }
  const mpz_class &get_num() const { sx_q_canon(*(sx_mpq_s *)&q); return *(const mpz_class *)&q.n; }
  const mpz_class &get_den() const { sx_q_canon(*(sx_mpq_s *)&q); return *(const mpz_class *)&q.d; }
  mpz_ptr get_num_mpz_t() { return &get_num().z; }
  mpz_ptr get_den_mpz_t() { return &get_den().z; }
  mpz_srcptr get_num_mpz_t() const { return &get_num().z; }
  mpz_srcptr get_den_mpz_t() const { return &get_den().z; }
  double get_d() const { return sx::toDouble(q.n.v) / sx::toDouble(q.d.v); }
  void swap(mpq_class &o) { std::swap(q, o.q); }
};
inline mpz_class::mpz_class(const mpq_class &q) { z.v = sx::tdiv(q.q.n.v, q.q.d.v); }
#define SX_ZOP(op, f) inline mpz_class operator op(const mpz_class &a, const mpz_class &b) { return mpz_class(f(a.z.v, b.z.v)); } \
  inline mpz_class &operator op##=(mpz_class &a, const mpz_class &b) { a.z.v = f(a.z.v, b.z.v); return a; } \
  inline mpz_class operator op(const mpz_class &a, long b) { return a op mpz_class(b); } inline mpz_class operator op(long a, const mpz_class &b) { return mpz_class(a) op b; } \
  inline mpz_class operator op(const mpz_class &a, int b) { return a op mpz_class(b); } inline mpz_class operator op(int a, const mpz_class &b) { return mpz_class(a) op b; } \
  inline mpz_class operator op(const mpz_class &a, unsigned long b) { return a op mpz_class(b); } inline mpz_class operator op(unsigned long a, const mpz_class &b) { return mpz_class(a) op b; } \
  inline mpz_class operator op(const mpz_class &a, unsigned b) { return a op mpz_class(b); } inline mpz_class operator op(unsigned a, const mpz_class &b) { return mpz_class(a) op b; }
namespace sx { inline Int i_add(const Int &a, const Int &b) { return a + b; } inline Int i_sub(const Int &a, const Int &b) { return a - b; } inline Int i_mul(const Int &a, const Int &b) { return a * b; } }
SX_ZOP(+, sx::i_add) SX_ZOP(-, sx::i_sub) SX_ZOP(*, sx::i_mul) SX_ZOP(/, sx::tdiv) SX_ZOP(%, sx::tmod)
#undef SX_ZOP
inline mpz_class operator-(const mpz_class &a) { return mpz_class(-a.z.v); }
inline mpz_class operator+(const mpz_class &a) { return a; }
#define SX_QOP(op, f) inline mpq_class operator op(const mpq_class &a, const mpq_class &b) { mpq_class r; f(r.q, a.q, b.q); return r; } \
  inline mpq_class &operator op##=(mpq_class &a, const mpq_class &b) { sx_mpq_s t; f(t, a.q, b.q); a.q = t; return a; } \
  inline mpq_class operator op(const mpq_class &a, const mpz_class &b) { return a op mpq_class(b); } inline mpq_class operator op(const mpz_class &a, const mpq_class &b) { return mpq_class(a) op b; } \
  inline mpq_class operator op(const mpq_class &a, long b) { return a op mpq_class(b); } inline mpq_class operator op(long a, const mpq_class &b) { return mpq_class(a) op b; } \
  inline mpq_class operator op(const mpq_class &a, int b) { return a op mpq_class(b); } inline mpq_class operator op(int a, const mpq_class &b) { return mpq_class(a) op b; } \
  inline mpq_class operator op(const mpq_class &a, unsigned long b) { return a op mpq_class(b); } inline mpq_class operator op(unsigned long a, const mpq_class &b) { return mpq_class(a) op b; }\
  inline mpq_class operator op(const mpq_class &a, unsigned b) { return a op mpq_class(b); } inline mpq_class operator op(unsigned a, const mpq_class &b) { return mpq_class(a) op b; }
SX_QOP(+, sx_q_add) SX_QOP(-, sx_q_sub) SX_QOP(*, sx_q_mul) SX_QOP(/, sx_q_div)
#undef SX_QOP
inline mpq_class operator-(const mpq_class &a) { mpq_class r(a); r.q.n.v = -r.q.n.v; return r; }
#define SX_ZCMP(op) inline bool operator op(const mpz_class &a, const mpz_class &b) { return a.z.v op b.z.v; } \
  inline bool operator op(const mpz_class &a, long b) { return a.z.v op sx::Int(b); } inline bool operator op(long a, const mpz_class &b) { return sx::Int(a) op b.z.v; } \
  inline bool operator op(const mpz_class &a, int b) { return a.z.v op sx::Int(b); } inline bool operator op(int a, const mpz_class &b) { return sx::Int(a) op b.z.v; } \
  inline bool operator op(const mpz_class &a, unsigned long b) { return a.z.v op sx::Int(b); } inline bool operator op(const mpz_class &a, unsigned b) { return a.z.v op sx::Int((unsigned long)b); } \
  inline bool operator op(const mpz_class &a, double b) { return a op mpz_class(b); }
SX_ZCMP(==) SX_ZCMP(!=) SX_ZCMP(<) SX_ZCMP(>) SX_ZCMP(<=) SX_ZCMP(>=)
#undef SX_ZCMP
inline bool operator==(const mpq_class &a, const mpq_class &b) { return sx_q_eq(a.q, b.q); }
inline bool operator!=(const mpq_class &a, const mpq_class &b) { return !sx_q_eq(a.q, b.q); }
inline bool operator<(const mpq_class &a, const mpq_class &b) { return sx_q_cmp(a.q, b.q) < 0; }
inline bool operator>(const mpq_class &a, const mpq_class &b) { return sx_q_cmp(a.q, b.q) > 0; }
inline bool operator<=(const mpq_class &a, const mpq_class &b) { return sx_q_cmp(a.q, b.q) <= 0; }
inline bool operator>=(const mpq_class &a, const mpq_class &b) { return sx_q_cmp(a.q, b.q) >= 0; }
#define SX_QCMP(op) template <class T> inline bool operator op(const mpq_class &a, const T &b) { return a op mpq_class(b); } inline bool operator op(int a, const mpq_class &b) { return mpq_class(a) op b; }
SX_QCMP(==) SX_QCMP(!=) SX_QCMP(<) SX_QCMP(>) SX_QCMP(<=) SX_QCMP(>=)
#undef SX_QCMP
inline mpz_class abs(const mpz_class &a) { return mpz_class(sx::abs(a.z.v)); }
inline mpq_class abs(const mpq_class &a) { mpq_class r(a); r.q.n.v = sx::abs(r.q.n.v); return r; }
inline int sgn(const mpz_class &a) { return sx::sgn(a.z.v); }
inline int sgn(const mpq_class &a) { return sx_q_sgn(a.q); }
inline int cmp(const mpz_class &a, const mpz_class &b) { return sx::cmp(a.z.v, b.z.v); }
inline int cmp(const mpq_class &a, const mpq_class &b) { return sx_q_cmp(a.q, b.q); }
inline mpz_class gcd(const mpz_class &a, const mpz_class &b) { return mpz_class(sx::gcd(a.z.v, b.z.v)); }
inline mpz_class lcm(const mpz_class &a, const mpz_class &b) { return mpz_class(sx::lcm(a.z.v, b.z.v)); }
inline void swap(mpz_class &a, mpz_class &b) { a.swap(b); }
inline void swap(mpq_class &a, mpq_class &b) { a.swap(b); }
inline std::ostream &operator<<(std::ostream &s, const mpz_class &a) { return s << a.get_str(); }
inline std::ostream &operator<<(std::ostream &s, const mpq_class &a) { return s << a.get_str(); }
std::istream &operator>>(std::istream &s, mpz_class &a);
std::istream &operator>>(std::istream &s, mpq_class &a);
std::istream &operator>>(std::istream &s, mpz_ptr a);
#endif
