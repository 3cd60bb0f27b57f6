// Volumes and integrals printed by the integrate driver equal the exact integral.
#include "vol.h"
#include "valuation/valuation.h"
static bool parseRat(const std::string &s, Rat &r) { size_t k = s.find('/'); bool a, b = true; Int n = Int::parse(s.substr(0, k), &a), d(1); if (k != std::string::npos) d = Int::parse(s.substr(k + 1), &b); if (!a || !b) return false; r = Rat(n, d); return true; }
static void h() {
  Cfg c(sx::config()); std::map<std::string, Int> in; Poly p; std::vector<Vert> PV; bool pts = c.s("pts").size();
  if (pts) { IM P = parseRows(c.s("pts"), in); p.d = P[0].size() - 1; for (auto &r : P) { Vert v; for (int j = 0; j < p.d; j++) v.x.push_back(Rat(r[j + 1], r[0])); PV.push_back(v); } p.rows = P; }
  else p = parsePoly(c, in);
  if (c.s("need") == "nonempty") { std::vector<long> lo = c.v("lo"), hi = c.v("hi"); sx::assume(anyBox(p, lo, hi)); }
  if (pts) { std::vector<RV> M; for (int i = 1; i <= p.d; i++) { M.push_back({}); for (int j = 0; j < p.d; j++) M.back().push_back(PV[i].x[j] - PV[0].x[j]); } sx::assume(!sx::cEq(detR(M).n, Int(0))); }
  std::string what = c.s("val"), txt; MPoly f; int d = p.d; Int cd(c.n("cden", 1));
  auto co = [&](const Int &n) { return n.str() + (c.n("cden") ? "/" + cd.str() : ""); };
  if (what == "volume") f = pconst(Rat(1), d);
  for (auto &r : parseRows(c.s(what), in)) {
    if (what == "volume") break;
    txt += (txt.size() ? "," : "[") + std::string("[") + co(r[0]) + ","; Rat k(r[0], cd); MPoly t = pconst(k, d);
    if (what == "mono") { txt += "["; std::vector<int> e; for (int j = 0; j < d; j++) { e.push_back(r[j + 1].sval()); txt += (j ? "," : "") + std::to_string(e[j]); } txt += "]]"; MPoly m; m[e] = k; padd(f, m); continue; }
    if (what == "plf") txt += "[";
    for (size_t i = 1; i + d < r.size() + 0 && i < r.size(); i += d + 1) { long M = r[i].sval(); if (i > 1) txt += ","; txt += "[" + std::to_string(M) + ",["; RV l; for (int j = 0; j < d; j++) { l.push_back(Rat(r[i + 1 + j])); txt += (j ? "," : "") + r[i + 1 + j].str(); } txt += "]]"; t = pmul(t, ppow(plin(l), M, d)); }
    if (what == "plf") txt += "]"; txt += "]"; padd(f, t);
  }
  if (p.N.size()) { MPoly g; for (auto &t : f) { MPoly m = pconst(t.second, d); for (int j = 0; j < d; j++) { MPoly l; for (int k = 0; k < d; k++) { std::vector<int> e(d); e[k] = 1; l[e] = Rat(p.Ninv[j][k]); } padd(l, pconst(Rat(p.sh[j]), d)); m = pmul(m, ppow(l, t.first[j], d)); } padd(g, m); } f = g; }
  txt += "]\n"; putFile("in.hrep", pts ? hrep(p) : c.n("cdd") ? cddHrep(p) : hrep(p)); putFile("f.txt", txt);
  std::vector<std::string> a = {"integrate", what == "volume" ? "--valuation=volume" : "--valuation=integrate"};
  if (what == "mono") a.push_back("--monomials=f.txt"); if (what == "lf") a.push_back("--linear-forms=f.txt"); if (what == "plf") a.push_back("--product-linear-forms=f.txt");
  if (pts) a.push_back("--vrep"); for (auto &w : words(c.s("opt"))) a.push_back(w); a.push_back("in.hrep");
  Args ar(a); Valuation::ValuationContainer ans; Run r = runCode([&]() { ans = Valuation::mainValuationDriver((const char **)ar.p(), ar.c()); });
  Rat want;
  if (pts) { std::vector<RV> s; for (auto &v : PV) s.push_back(v.x); want = integrateSimplex(f, s); }
  else { if (r.bad()) { want = integratePoly(p, pconst(Rat(1), d)); sx::reach("refused"); sx::check(sx::cEq(want.n, Int(0)), "refused-only-if-volume-zero"); return; } want = integratePoly(p, f); }
  if (r.bad()) { sx::fail("gives-answer"); return; }
  std::vector<Rat> got; std::istringstream s(r.out); std::string l; while (std::getline(s, l)) { auto w = words(l); if (w.size() >= 2 && w[0] == "Answer:") { Rat x; if (!parseRat(w[1], x)) { sx::fail("prints-number"); return; } got.push_back(x); } }
  bool one = false; for (auto &w : words(c.s("opt"))) if (w == "--cone-decompose" || w == "--triangulate" || w == "--polynomial-as-plf") one = true;
  size_t n = one || what == "plf" ? 1 : what == "mono" ? 3 : 2; if (got.size() != n || ans.answers.size() < n) { sx::fail("one-answer-per-method"); return; }
  sx::reach("answered");
  for (size_t i = 0; i < n; i++) { checkRat(got[i], want, "printed-answer-" + std::to_string(i)); Rat x(I(ans.answers[i].answer.getNumerator()), I(ans.answers[i].answer.getDenominator())); checkRat(x, want, "returned-answer-" + std::to_string(i)); }
}
HARNESS_MAIN(h)
