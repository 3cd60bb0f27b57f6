// Ehrhart polynomials, Ehrhart series and their Taylor coefficients describe the counts of all dilations.
#include "rf.h"
#include "count.h"
extern int ehrhart_main(int, char **);
static void h() {
  Cfg c(sx::config()); std::map<std::string, Int> in; Poly p = parsePoly(c, in); std::vector<long> lo = c.v("lo"), hi = c.v("hi"); long T = c.n("T", 4); std::string what = c.s("what");
  if (c.s("need") == "nonempty") sx::assume(anyBox(p, lo, hi));
  auto want = [&](long t) { std::vector<long> l = lo, u = hi; for (auto &x : l) x *= t; for (auto &x : u) x *= t; if (c.s("want").size() || c.s("fiber").size()) { Cfg c2 = c; c2.m["lo"] = c2.m["hi"] = ""; for (auto &x : l) c2.m["lo"] += std::to_string(x) + ","; for (auto &x : u) c2.m["hi"] += std::to_string(x) + ","; return wantCount(p, c2, in, t); } return countBox(p, l, u, t); };
  bool cdd = c.n("cdd"); std::string fn = "in.hrep"; putFile(fn, cdd ? cddHrep(p) : hrep(p));
  bool eh = c.n("ehrhart"); std::vector<std::string> a = {eh ? "ehrhart" : "count"};
  if (!eh) a.push_back(what == "taylor" ? "--ehrhart-taylor=" + std::to_string(T) : what == "poly" ? "--ehrhart-polynomial" : "--ehrhart-series");
  for (auto &w : words(c.s("opt"))) a.push_back(w); if (eh && what == "taylor") a.push_back(std::to_string(T)); a.push_back(fn);
  Args ar(a); CountAnswerContainer ans; Run r = runCode([&]() { if (eh) ehrhart_main(ar.c(), ar.p()); else ans = mainCountDriver(ar.c(), ar.p()); });
  std::string e = r.err + r.out;
  if (e.find("The number of lattice points is 1.") != std::string::npos) { sx::fail("answer-for-single-point"); return; }
  if (what == "poly") {
    Cond integral(true); { std::stringstream s(c.s("integral")); std::string t; while (std::getline(s, t, ',')) { size_t k = t.find('%'); integral = integral && sx::cEq(sx::fmod(in[t.substr(0, k)], Int(atol(t.c_str() + k + 1))), Int(0)); } }
    if (r.bad() && e.find("only implemented") != std::string::npos) { sx::reach("refused"); sx::check(!integral, "refused-only-if-not-integral"); return; }
    if (r.bad()) { sx::reach("empty"); Int n = want(1); sx::check(sx::cEq(n, Int(0)), "no-answer-only-if-empty"); return; }
    sx::reach("polynomial"); sx::check(integral, "not-refused-only-if-integral");
    // the printed line
    std::vector<Rat> co; { size_t q = r.out.rfind("t^"); size_t b = q == std::string::npos ? q : r.out.rfind('\n', q); std::string l = q == std::string::npos ? "" : r.out.substr(b == std::string::npos ? 0 : b + 1); auto w = words(l);
      for (size_t i = 0; i + 3 < w.size(); i += 4) { bool ok; size_t s = w[i + 1].find('/'); Rat v(Int::parse(w[i + 1].substr(0, s), &ok), s == std::string::npos ? Int(1) : Int::parse(w[i + 1].substr(s + 1))); if (!ok || w[i + 2] != "*" || w[i + 3].compare(0, 2, "t^")) { sx::fail("printed-form"); return; } size_t k = atol(w[i + 3].c_str() + 2); while (co.size() <= k) co.push_back(Rat()); co[k] = co[k] + (w[i] == "-" ? Rat(0) - v : v); } }
    for (long t = 0; t <= T; t++) { Rat v, pr; Int tp(1); for (size_t i = 0; i < ans.ehrhart_coefficients.size(); i++) { v = v + R(ans.ehrhart_coefficients[i]) * Rat(tp); tp = tp * Int(t); } tp = Int(1); for (auto &x : co) { pr = pr + x * Rat(tp); tp = tp * Int(t); }
      Int n = want(t); checkRat(v, Rat(n), "polynomial-at-" + std::to_string(t)); checkRat(pr, Rat(n), "printed-polynomial-at-" + std::to_string(t)); }
    return;
  }
  if (r.exited ? r.code != 0 : r.threw) { sx::reach("empty"); sx::check(sx::cEq(want(1), Int(0)), "no-answer-only-if-empty"); return; }
  if (what == "taylor") {
    size_t at = 0; if (eh) { at = r.out.find("Taylor Expansion:"); if (at == std::string::npos) at = 0; else at += 17; }
    std::vector<bool> seen(T + 1, false); std::istringstream s(r.out.substr(at)); std::string l; bool any = false;
    while (std::getline(s, l)) { auto w = words(l); if (w.size() != 1) continue; size_t k = w[0].find("t^"); bool ok; Int v = Int::parse(w[0].substr(0, k), &ok); if (!ok) continue; long d = k == std::string::npos ? 0 : atol(w[0].c_str() + k + 2); if (d > T || seen[d]) { sx::fail("taylor-lines"); return; } seen[d] = true; any = true; sx::checkEq(v, want(d), "taylor-coefficient-" + std::to_string(d)); }
    if (!any) { sx::fail("taylor-printed"); return; }
    sx::reach("taylor"); for (long d = 0; d <= T; d++) if (!seen[d]) sx::check(sx::cEq(want(d), Int(0)), "missing-coefficient-is-zero");
    if (!eh) { if (ans.seriesExpansion.length() < T + 1) { sx::fail("series-returned"); return; } for (long d = 0; d <= T; d++) sx::checkEq(I(ans.seriesExpansion[d]), want(d), "returned-coefficient-" + std::to_string(d)); }
    return;
  }
  std::string t; if (!getFile(fn + ".rat", t)) { sx::fail("series-written"); return; }
  size_t k = t.find(":="); SerParser sp(t, k == std::string::npos ? 0 : k + 2); Ser s = sp.expr(); sp.ws();
  if (!sp.ok || sp.p >= t.size() || (t[sp.p] != ':' && t[sp.p] != ';')) { sx::note("parse: " + sp.err); sx::fail("series-parses"); return; }
  if (s.end() <= T) { sx::cut("series precision of the harness"); return; }
  sx::reach("series"); for (long d = s.v; d < 0; d++) checkRat(s.at(d), Rat(0), "no-negative-power");
  for (long d = 0; d <= T; d++) checkRat(s.at(d), Rat(want(d)), "series-coefficient-" + std::to_string(d));
}
HARNESS_MAIN(h)
