// Top Ehrhart coefficients: the simplicial cones, weights and request handed to the Maple script describe the weighted
// lattice points of every dilation (Lawrence-Varchenko: cones flipped into one common direction, half open).
#include "vol.h"
#include "valuation/valuation.h"
std::vector<std::string> &sx_commands();
struct MpP { const std::string &s; size_t p; bool ok = true; MpP(const std::string &t, size_t at) : s(t), p(at) {}
  void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; } bool is(char c) { ws(); return p < s.size() && s[p] == c; } bool eat(char c) { if (is(c)) { p++; return true; } return false; } void need(char c) { if (!eat(c)) ok = false; }
  Rat num() { ws(); bool neg = eat('-'); auto dig = [&]() { size_t b = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; bool o = false; Int v = b < p ? Int::parse(s.substr(b, p - b), &o) : Int(0); if (!o) ok = false; return v; }; Int n = dig(), d(1); if (eat('/')) { bool m = eat('-'); d = dig(); if (m) d = -d; } return Rat(neg ? -n : n, d); }
  RV nums() { RV r; need('['); if (!is(']')) do r.push_back(num()); while (ok && eat(',')); need(']'); return r; } };
struct TC { RV v; std::vector<RV> rays; };
static void h() {
  Cfg c(sx::config()); std::map<std::string, Int> in; Poly p = parsePoly(c, in); std::vector<long> lo = c.v("lo"), hi = c.v("hi"), dir = c.v("dir"); int d = p.d; if (c.s("need") == "nonempty") sx::assume(anyBox(p, lo, hi));
  std::string what = c.s("val"), txt; MPoly f; Int cd(c.n("cden", 1)); auto co = [&](const Int &n) { return n.str() + (c.n("cden") ? "/" + cd.str() : ""); }; if (what.empty()) f = pconst(Rat(1), d);
  for (auto &r : parseRows(c.s("w"), in)) { if (what.empty()) break; txt += (txt.size() ? "," : "[") + std::string("[") + co(r[0]) + ","; Rat k(r[0], cd);
    if (what == "mono") { txt += "["; std::vector<int> e; for (int j = 0; j < d; j++) { e.push_back((int)sx::concretize(r[j + 1])); txt += (j ? "," : "") + std::to_string(e[j]); } txt += "]]"; MPoly m; m[e] = k; padd(f, m); continue; }
    long M = sx::concretize(r[1]); txt += "[" + std::to_string(M) + ",["; RV l; for (int j = 0; j < d; j++) { l.push_back(Rat(r[2 + j])); txt += (j ? "," : "") + r[2 + j].str(); } txt += "]]]"; padd(f, pmul(pconst(k, d), ppow(plin(l), M, d))); }
  putFile("f.txt", txt + "]\n"); putFile("in.hrep", c.n("cdd") ? cddHrep(p) : hrep(p)); delFile("compute-top-ehrhart.mpl");
  std::vector<std::string> a = {"integrate", "--valuation=top-ehrhart"}; if (what == "mono") a.push_back("--monomials=f.txt"); if (what == "lf") a.push_back("--linear-forms=f.txt"); if (what.empty()) a.push_back("--top-ehrhart-unweighted");
  std::string nc = c.s("k"); if (nc.size()) a.push_back("--num-coefficients=" + nc); if (c.n("real")) a.push_back("--real-dilations"); std::string save = c.s("save"); if (save.size()) a.push_back("--top-ehrhart-save=" + save); for (auto &w : words(c.s("opt"))) a.push_back(w); a.push_back("in.hrep");
  Args ar(a); Run r = runCode([&]() { Valuation::mainValuationDriver((const char **)ar.p(), ar.c()); });
  if (r.bad()) { sx::reach("refused"); Rat w = integratePoly(p, pconst(Rat(1), d)); sx::check(sx::cEq(w.n, Int(0)), "refused-only-if-not-full-dimensional"); return; }
  std::string t; if (!getFile("compute-top-ehrhart.mpl", t)) { sx::fail("script-written"); return; }
  // cones
  size_t q = t.find("simpleCones"); q = q == std::string::npos ? q : t.find(":=", q); if (q == std::string::npos) { sx::fail("cones-written"); return; } MpP m(t, q + 2); std::vector<TC> C; m.need('[');
  if (!m.is(']')) do { TC k; m.need('['); k.v = m.nums(); m.need(','); m.need('['); if (!m.is(']')) do k.rays.push_back(m.nums()); while (m.ok && m.eat(',')); m.need(']'); m.need(']'); C.push_back(k); } while (m.ok && m.eat(',')); m.need(']'); m.need(':'); if (!m.ok) { sx::note(t.substr(q, 300)); sx::fail("cones-well-formed"); return; }
  // weights
  q = t.find("linearForms", m.p); q = q == std::string::npos ? q : t.find(":=", q); if (q == std::string::npos) { sx::fail("weights-written"); return; } m.p = q + 2; MPoly g; m.need('[');
  if (!m.is(']')) do { m.need('['); Rat k = m.num(); m.need(','); m.need('['); Rat e = m.num(); m.need(','); RV l = m.nums(); m.need(']'); m.need(']'); if (!m.ok || (int)l.size() != d) { m.ok = false; break; } padd(g, pmul(pconst(k, d), ppow(plin(l), sx::concretize(e.n), d))); } while (m.ok && m.eat(',')); m.need(']'); m.need(':'); if (!m.ok) { sx::note(t.substr(q, 300)); sx::fail("weights-well-formed"); return; }
  std::set<std::vector<int>> keys; for (auto &x : f) keys.insert(x.first); for (auto &x : g) keys.insert(x.first); for (auto &k : keys) checkRat(g.count(k) ? g[k] : Rat(), f.count(k) ? f[k] : Rat(), "weight-coefficient");
  // request
  q = t.find("epoly:=", m.p); size_t e = q == std::string::npos ? q : t.find("):", q); if (e == std::string::npos) { sx::fail("request-written"); return; } std::string call; for (char ch : t.substr(q + 7, e - q - 7)) if (!isspace((unsigned char)ch)) call.push_back(ch);
  bool all = nc.empty() || nc == "-1"; std::string want = std::string(all ? "printIncrementalEhrhartPolynomial" : "findEhrhartPolynomial") + "(t,T,simpleCones,linearForms," + std::to_string(d) + "," + (c.n("real") ? "true" : "false") + "," + (all ? "-1" : nc) + "," + (save.empty() ? "-1" : "\"" + save + "\""); sx::check(call == want, "request");
#ifdef rand
  bool ran = false; for (auto &x : sx_commands()) { auto w = words(x); if (w.size() == 3 && w[0].size() >= 5 && w[0].substr(w[0].size() - 5) == "maple" && w[1] == "-q" && w[2] == "compute-top-ehrhart.mpl") ran = true; } sx::check(ran, "script-run");
#endif
  sx::reach("written");
  static const long gen[] = {1, 17, 331, 2801, 19937}; struct F { int sg; std::vector<RV> L; std::vector<int> fl; RV v; }; std::vector<F> fs;
  for (auto &k : C) { if ((int)k.v.size() != d || (int)k.rays.size() != d) { sx::fail("cones-simplicial"); return; } std::vector<RV> A(d, RV(2 * d)); F x; x.sg = 1; x.v = k.v;
    for (int j = 0; j < d; j++) { if ((int)k.rays[j].size() != d) { sx::fail("ray-length"); return; } Int w(0); for (int i = 0; i < d; i++) { if (!(k.rays[j][i].d == Int(1))) { sx::fail("rays-integral"); return; } Int z(sx::concretize(k.rays[j][i].n)); A[i][j] = Rat(z); w = w + z * Int(gen[i] + (dir.size() ? 100000 * dir[i] : 0)); } if (sx::isZero(w)) { sx::cut("ray orthogonal to the expansion direction"); return; } bool n = sx::isNeg(w); x.fl.push_back(n); if (n) x.sg = -x.sg; }
    for (int i = 0; i < d; i++) A[i][d + i] = Rat(1);
    for (int j = 0; j < d; j++) { int z = j; while (z < d && A[z][j].zero()) z++; if (z == d) { sx::fail("rays-independent"); return; } std::swap(A[z], A[j]); Rat iv = Rat(1) / A[j][j]; for (auto &y : A[j]) y = y * iv; for (int i = 0; i < d; i++) if (i != j && !A[i][j].zero()) { Rat s = A[i][j]; for (int u = 0; u < 2 * d; u++) A[i][u] = A[i][u] - s * A[j][u]; } }
    for (int i = 0; i < d; i++) x.L.push_back(RV(A[i].begin() + d, A[i].end())); fs.push_back(x); }
  std::vector<long> dil = c.v("dils"); if (dil.empty()) dil = {1, 2}; long dd = c.n("dden", 1), mg = c.n("m", 1);
  for (long n : dil) { std::vector<long> l = lo, u = hi; for (auto &x : l) x = (x * n - (x < 0 ? dd - 1 : 0)) / dd - mg; for (auto &x : u) x = x * n / dd + mg;
    boxPoints(l, u, [&](const std::vector<long> &x) { Int sum(0);
      for (auto &k : fs) { Cond cd2(true); for (int i = 0; i < d; i++) { Rat w(0); for (int j = 0; j < d; j++) w = w + k.L[i][j] * (Rat(Int(x[j] * dd)) - Rat(Int(n)) * k.v[j]); Int wn = w.n; if (sx::isNeg(w.d)) wn = -wn; cd2 = cd2 && (k.fl[i] ? sx::cLt(wn, Int(0)) : sx::cLe(Int(0), wn)); } sum = sum + Int(k.sg) * sx::ite(cd2, Int(1), Int(0)); }
      Cond ip(true); for (size_t i = 0; i < p.rows.size(); i++) { Int w = p.rows[i][0] * Int(n); for (int j = 0; j < d; j++) w = w + p.rows[i][j + 1] * Int(x[j] * dd); bool eq = false; for (auto z : c.v("eq")) if (z == (long)i + 1) eq = true; ip = ip && (eq ? sx::cEq(w, Int(0)) : sx::cLe(Int(0), w)); }
      sx::checkEq(sum, sx::ite(ip, Int(1), Int(0)), "point-covered-once"); }); }
}
HARNESS_MAIN(h)
