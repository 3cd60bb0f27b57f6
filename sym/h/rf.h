// Exact rationals and truncated Laurent series over the engine's integers, and a parser of printed expressions in t.
#pragma once
#include "hx.h"
struct Rat {
  Int n, d; Rat() : n(0), d(1) {} Rat(const Int &a) : n(a), d(1) {} Rat(long a) : n(a), d(1) {} Rat(const Int &a, const Int &b) : n(a), d(b) { red(); }
  void red() { if (d.isConst()) { if (d < Int(0)) { n = -n; d = -d; } if (n.isConst()) { Int g = sx::gcd(n, d); if (!(g == Int(1)) && !(g == Int(0))) { n = sx::fdiv(n, g); d = sx::fdiv(d, g); } } else sx::synReduce(n, d); } }
  bool zero() const { return sx::isZero(n); }
};
inline Rat operator+(const Rat &a, const Rat &b) { return Rat(a.n * b.d + b.n * a.d, a.d * b.d); }
inline Rat operator-(const Rat &a, const Rat &b) { return Rat(a.n * b.d - b.n * a.d, a.d * b.d); }
inline Rat operator*(const Rat &a, const Rat &b) { return Rat(a.n * b.n, a.d * b.d); }
inline Rat operator/(const Rat &a, const Rat &b) { return Rat(a.n * b.d, a.d * b.n); }
inline Rat rpow(const Rat &a, long e) { Rat r(1); for (long i = 0; i < (e < 0 ? -e : e); i++) r = r * a; return e < 0 ? Rat(1) / r : r; }
inline Rat R(const mpq_class &q) { return Rat(I(mpz_class(q.get_num())), I(mpz_class(q.get_den()))); }
inline void checkRat(const Rat &a, const Rat &b, const std::string &l) { sx::checkFrac(a.n, a.d, b.n, b.d, l); }
// coefficient c[i] belongs to t^(v+i); exact for exponents < v + c.size()
struct Ser {
  long v = 0; std::vector<Rat> c;
  static int prec() { return 28; }
  static Ser mono(const Rat &a, long e) { Ser s; s.v = e; s.c.assign(prec(), Rat()); s.c[0] = a; return s; }
  long end() const { return v + (long)c.size(); }
  Rat at(long e) const { return e < v || e >= end() ? Rat() : c[e - v]; }
  void norm() { size_t k = 0; while (k < c.size() && c[k].zero()) k++; if (k == c.size()) return; c.erase(c.begin(), c.begin() + k); v += k; }
  bool isz() const { for (auto &x : c) if (!x.zero()) return false; return true; }
};
inline Ser operator+(const Ser &a, const Ser &b) { Ser s; s.v = std::min(a.v, b.v); long e = std::min(a.end(), b.end()); for (long i = s.v; i < e; i++) s.c.push_back(a.at(i) + b.at(i)); return s; }
inline Ser operator*(const Ser &a, const Ser &b) {
  Ser s; s.v = a.v + b.v; size_t n = std::min(a.c.size(), b.c.size());
  for (size_t k = 0; k < n; k++) { Rat r; for (size_t i = 0; i <= k; i++) if (!a.c[i].n.small() || a.c[i].n.sval()) if (!b.c[k - i].n.small() || b.c[k - i].n.sval()) r = r + a.c[i] * b.c[k - i]; s.c.push_back(r); } return s;
}
inline bool inverse(Ser b, Ser &r) {
  if (b.isz()) return false; b.norm(); r.v = -b.v; r.c.clear(); Rat i0 = Rat(1) / b.c[0];
  for (size_t k = 0; k < b.c.size(); k++) { Rat s = k ? Rat() : Rat(1); for (size_t i = 1; i <= k; i++) s = s - b.c[i] * r.c[k - i]; r.c.push_back(s * i0); } return true;
}
struct SerParser {
  const std::string &s; size_t p; bool ok; std::string err;
  SerParser(const std::string &t, size_t at = 0) : s(t), p(at), ok(true) {}
  void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
  bool is(char ch) { ws(); return p < s.size() && s[p] == ch; }
  bool eat(char ch) { if (is(ch)) { p++; return true; } return false; }
  Ser bad(const std::string &e) { if (ok) err = e; ok = false; return Ser::mono(Rat(0), 0); }
  Int num() { ws(); size_t b = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; bool o; Int v = Int::parse(s.substr(b, p - b), &o); if (!o) bad("number"); return v; }
  long expo() { bool par = eat('('); bool neg = eat('-'); long e = sx::concretize(num()); if (par && !eat(')')) bad(")"); return neg ? -e : e; }
  Ser atom() {
    ws(); if (p >= s.size()) return bad("end"); Ser r; bool t = false;
    if (eat('(')) { r = expr(); if (!eat(')')) return bad(")"); }
    else if (eat('t')) { r = Ser::mono(Rat(1), 1); t = true; }
    else if (eat('-')) { return Ser::mono(Rat(-1), 0) * atom(); }
    else if (isdigit((unsigned char)s[p])) r = Ser::mono(Rat(num()), 0);
    else return bad(std::string("char ") + s[p]);
    while (eat('^')) { long e = expo(); if (t) { r = Ser::mono(Rat(1), e); continue; } Ser q = Ser::mono(Rat(1), 0), b = r; if (e < 0) { if (!inverse(r, b)) return bad("division by zero"); e = -e; } for (long i = 0; i < e; i++) q = q * b; r = q; }
    return r;
  }
  Ser term() { Ser r = atom(); while (ok) { if (eat('*')) r = r * atom(); else if (eat('/')) { Ser i; Ser b = atom(); if (!ok) break; if (!inverse(b, i)) return bad("division by zero"); r = r * i; } else break; } return r; }
  Ser expr() { Ser r = term(); while (ok) { if (eat('+')) r = r + term(); else if (eat('-')) r = r + Ser::mono(Rat(-1), 0) * term(); else break; } return r; }
};
// sum of "c * t^e" terms as printed for polynomials ("15/2 * t^1", "36t^2", "1")
