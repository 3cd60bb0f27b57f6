// The written multivariate generating function is the one of the integer points: every term is expanded as a Laurent
// series in one common direction and the coefficient of every monomial of a box is compared with membership.
#include "rf.h"
#include "count.h"
struct Term { Int c; std::vector<IV> num; IM rays; };
struct GfParser {
  const std::string &s; size_t p = 0; int d; std::string err;
  GfParser(const std::string &t, int dim) : s(t), d(dim) {}
  void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
  bool is(char c) { ws(); return p < s.size() && s[p] == c; }
  bool eat(char c) { if (is(c)) { p++; return true; } return false; }
  void need(char c) { if (!eat(c) && err.empty()) err = std::string("expected ") + c + " at " + s.substr(p, 20); }
  Int num() { ws(); bool neg = eat('-'); size_t b = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; bool o; Int v = Int::parse(s.substr(b, p - b), &o); if (!o && err.empty()) err = "number at " + s.substr(b, 20); return neg ? -v : v; }
  IV mono() {
    IV e(d, Int(0)); if (is('1')) { p++; return e; }
    do { need('x'); need('['); long i = sx::concretize(num()); need(']'); if (!err.empty() || i < 0 || i >= d) { if (err.empty()) err = "index"; return e; }
      Int x(1); if (eat('^')) { if (eat('(')) { x = num(); need(')'); } else x = num(); } e[i] = e[i] + x; } while (eat('*'));
    return e;
  }
  Term term() {
    Term t; t.c = Int(1); ws(); size_t q = p;
    if (is('(')) { p++; if (is('-') || (is('1') ? !(p + 1 < s.size() && (s[p + 1] == '+' || s[p + 1] == ')') && s.find("*", p) != p + 2) : isdigit((unsigned char)s[p]))) { t.c = num(); need(')'); need('*'); } else p = q; }
    if (eat('(')) { t.num.push_back(mono()); while (eat('+')) t.num.push_back(mono()); need(')'); } else t.num.push_back(mono());
    need('/'); need('('); if (!is(')')) do { need('('); need('1'); need('-'); t.rays.push_back(mono()); need(')'); } while (err.empty() && eat('*')); need(')');
    return t;
  }
  std::vector<Term> sum() { std::vector<Term> r; ws(); if (p >= s.size()) return r; r.push_back(term()); while (err.empty() && eat('+')) r.push_back(term()); return r; }
};
struct Solver { int k; std::vector<std::vector<Int>> L, N; IV D; bool ok; };  // lambda_i = L_i.v / D_i ; N.v = 0
static Solver solver(const IM &rays, int d) {
  int k = rays.size(); std::vector<std::vector<Rat>> A(d, std::vector<Rat>(k + d)); for (int i = 0; i < d; i++) { for (int j = 0; j < k; j++) A[i][j] = Rat(rays[j][i]); A[i][k + i] = Rat(1); }
  Solver S; S.k = k; S.ok = true; int r = 0;
  for (int j = 0; j < k; j++) { int q = r; while (q < d && A[q][j].zero()) q++; if (q == d) { S.ok = false; return S; } std::swap(A[q], A[r]); Rat f = Rat(1) / A[r][j]; for (auto &x : A[r]) x = x * f; for (int i = 0; i < d; i++) if (i != r && !A[i][j].zero()) { Rat g = A[i][j]; for (int t = 0; t < k + d; t++) A[i][t] = A[i][t] - g * A[r][t]; } r++; }
  for (int i = 0; i < d; i++) { Int den(1); for (int t = k; t < k + d; t++) den = sx::lcm(den, A[i][t].d); IV row; for (int t = k; t < k + d; t++) row.push_back(A[i][t].n * sx::fdiv(den, A[i][t].d)); if (i < k) { S.L.push_back(row); S.D.push_back(den); } else S.N.push_back(row); }
  return S;
}
static void h() {
  Cfg c(sx::config()); std::map<std::string, Int> in; Poly p = parsePoly(c, in); std::vector<long> lo = c.v("lo"), hi = c.v("hi"), dir = c.v("dir"); std::string what = c.s("what", "rat"); long mg = c.n("m", 1);
  if (c.s("need") == "nonempty") sx::assume(anyBox(p, lo, hi));
  putFile("in.hrep", c.n("cdd") ? cddHrep(p) : hrep(p));
  std::vector<std::string> a = {"count"}; if (what == "rat") a.push_back("--multivariate-generating-function"); for (auto &w : words(c.s("opt"))) a.push_back(w); a.push_back("in.hrep");
  Args ar(a); CountAnswerContainer ans; Run r = runCode([&]() { ans = mainCountDriver(ar.c(), ar.p()); });
  if (r.bad()) { sx::reach("none"); std::string t; bool ok = false; Int v; if (getFile("numOfLatticePoints", t) && words(t).size() == 1) v = Int::parse(words(t)[0], &ok); if (!ok) { sx::fail("gives-answer"); return; } Int w = countBox(p, lo, hi, c.n("dil", 1)); sx::checkEq(v, w, "count-instead-of-function"); if ((r.err + r.out).find("The number of lattice points is 1.") != std::string::npos) { sx::fail("function-for-single-point"); return; } sx::check(sx::cEq(w, Int(0)), "no-function-only-if-empty"); return; }
  std::string t; if (!getFile(what == "rat" ? "in.hrep.rat" : "in.hrep.maple", t)) { sx::fail("function-written"); return; }
  if (what != "rat") { size_t b = t.find("gF:="), e = t.find(';'); if (b == std::string::npos || e == std::string::npos) { sx::fail("maple-form"); return; } t = t.substr(b + 4, e - b - 4); }
  if (getenv("SX_DUMP")) fprintf(stderr, "GF %s\n", t.c_str());
  int d = p.d; GfParser ps(t, d); std::vector<Term> T = ps.sum(); ps.ws();
  if (!ps.err.empty() || ps.p != t.size()) { sx::note("parse: " + ps.err); sx::fail("function-parses"); return; }
  static const long gen[] = {1, 17, 331, 2801, 19937}; struct E { Int s; IV a; int sol; }; std::vector<E> es; std::vector<Solver> sols;
  for (auto &x : T) {
    Int sg = x.c; IV sh(d, Int(0)); IM R;
    for (auto &ry : x.rays) { Int w(0); IV q; for (int j = 0; j < d; j++) { Int e = Int(sx::concretize(ry[j])); q.push_back(e); w = w + e * Int(gen[j] + (dir.size() ? 100000 * dir[j] : 0)); } if (sx::isZero(w)) { bool z = true; for (auto &e : q) z = z && sx::isZero(e); if (z) { sx::fail("no-zero-denominator"); return; } sx::cut("ray orthogonal to the expansion direction"); return; }
      if (sx::isNeg(w)) { sg = -sg; for (int j = 0; j < d; j++) { sh[j] = sh[j] - q[j]; q[j] = -q[j]; } } R.push_back(q); }
    Solver S = solver(R, d); if (!S.ok) { sx::fail("rays-independent"); return; } sols.push_back(S);
    for (auto &n : x.num) { E e; e.s = sg; e.sol = sols.size() - 1; for (int j = 0; j < d; j++) e.a.push_back(n[j] + sh[j]); es.push_back(e); }
  }
  sx::reach(T.size() ? "function" : "zero-function");
  std::vector<long> l = lo, u = hi; long dil = c.n("dil", 1); for (auto &x : l) x = x * dil - mg; for (auto &x : u) x = x * dil + mg;
  boxPoints(l, u, [&](const std::vector<long> &x) {
    Int sum(0);
    for (auto &e : es) { const Solver &S = sols[e.sol]; Cond cd(true); IV v; for (int j = 0; j < d; j++) v.push_back(Int(x[j]) - e.a[j]);
      for (auto &row : S.N) { Int w(0); for (int j = 0; j < d; j++) w = w + row[j] * v[j]; cd = cd && sx::cEq(w, Int(0)); }
      for (int i = 0; i < S.k; i++) { Int w(0); for (int j = 0; j < d; j++) w = w + S.L[i][j] * v[j]; cd = cd && sx::cLe(Int(0), w); if (!(S.D[i] == Int(1))) cd = cd && sx::cEq(sx::fmod(w, S.D[i]), Int(0)); }
      sum = sum + e.s * sx::ite(cd, Int(1), Int(0)); }
    std::string nm; for (auto &z : x) nm += (nm.size() ? "," : "") + std::to_string(z);
    sx::checkEq(sum, sx::ite(inPoly(p, x, dil), Int(1), Int(0)), "coefficient-of-(" + nm + ")");
  });
}
HARNESS_MAIN(h)
