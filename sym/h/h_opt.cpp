// Integer maximization / minimization: the reported optimum is the true one and is attained.
#include "hx.h"
#include "count.h"
WITH_COUNT(mainCountDriver)
extern int maximize_main(int, char **); extern int minimize_main(int, char **);
// finds "text" in s and parses the bracketed vector or number after it
static bool after(const std::string &s, const std::string &t, std::string &r) { size_t p = s.find(t); if (p == std::string::npos) return false; p += t.size(); size_t e = s.find('\n', p); r = s.substr(p, e - p); return true; }
static bool vec(std::string t, IV &v) {
  size_t a = t.find('['), b = t.find(']'); if (a == std::string::npos || b == std::string::npos || b < a) return false;
  for (auto &w : words(t.substr(a + 1, b - a - 1))) { bool ok = false; v.push_back(Int::parse(w, &ok)); if (!ok) return false; } return true;
}
static void h() {
  Cfg c(sx::config()); std::map<std::string, Int> in; bool mx = !c.n("min");
  Poly p = parsePoly(c, in); std::vector<long> lo = c.v("lo"), hi = c.v("hi");
  IV cost; { std::stringstream s(c.s("cost")); std::string e; while (std::getline(s, e, ',')) cost.push_back(parseEntry(e, in)); }
  Cond any = anyBox(p, lo, hi);
  if (c.s("need") == "nonempty") sx::assume(any);
  if (c.s("need") == "integrally-empty") sx::assume(!any);
  if (c.s("real").size()) { // a real point exists: some box point of the real-th refinement
    Cond r(false); long k = c.n("real"); std::vector<long> l2 = lo, h2 = hi; for (auto &x : l2) x *= k; for (auto &x : h2) x *= k; boxPoints(l2, h2, [&](const std::vector<long> &x) { r = r || inPoly(p, x, k); }); sx::assume(r); }
  putFile("in.hrep", c.n("cdd") ? cddHrep(p) : hrep(p));
  std::ostringstream cf; cf << "1 " << p.d << "\n"; for (auto &x : p.N.empty() ? cost : vecMat(cost, p.N)) cf << x.str() << " "; cf << "\n"; putFile("in.hrep.cost", cf.str());
  std::vector<std::string> a = {mx ? "maximize" : "minimize"}; for (auto &w : words(c.s("opt"))) a.push_back(w); a.push_back("in.hrep");
  bool bbs = c.s("opt").find("bbs") != std::string::npos; if (bbs) setupCount();
  Args ar(a); int rc = -1;
  Run r = runCode([&]() { rc = mx ? maximize_main(ar.c(), ar.p()) : minimize_main(ar.c(), ar.p()); });
  std::string o = r.err + r.out, t;
  if (o.find("Integrally empty polytope") != std::string::npos || r.threw) { sx::reach("reported-empty"); sx::check(!any, "empty-report-true"); return; }
  if (!r.exited || r.code != 0) { sx::fail("normal-end"); return; }
  bool ok = false; IV sol; Int val, off(0); if (p.N.size()) { IV k = vecMat(cost, p.N); for (int j = 0; j < p.d; j++) off = off + k[j] * p.sh[j]; }
  if (bbs) {
    size_t q = o.rfind("The optimal value: "); if (q == std::string::npos || !after(o.substr(q), "The optimal value: ", t)) { sx::fail("prints-value"); return; }
    val = Int::parse(words(t).size() ? words(t)[0] : "", &ok); if (!ok) { sx::fail("value-parses"); return; }
    val = val - off; sx::reach("optimum"); Cond best(true), att(false);
    boxPoints(lo, hi, [&](const std::vector<long> &x) { Int v(0); for (int i = 0; i < p.d; i++) v = v + cost[i] * Int(x[i]); Cond f = inPoly(p, x); att = att || (f && sx::cEq(v, val)); best = best && (!f || (mx ? sx::cLe(v, val) : sx::cLe(val, v))); });
    sx::check(best, "nothing-better"); sx::check(att, "value-attained"); return;
  }
  if (!after(o, "The optimal value is: ", t)) { sx::fail("prints-value"); return; }
  { std::string w = words(t).size() ? words(t)[0] : ""; if (w.size() && w.back() == '.') w.pop_back(); val = Int::parse(w, &ok); } if (!ok) { sx::fail("value-parses"); return; }
  if (!after(o, " is: ", t)) { sx::fail("prints-solution"); return; }
  size_t q = o.find("An optimal solution for "); if (q == std::string::npos || !after(o.substr(q), " is: ", t) || !vec(t, sol) || (int)sol.size() != p.d) { sx::fail("solution-parses"); return; }
  val = val - off; sol = originalPoint(p, sol);
  sx::reach("optimum");
  Int s(0); for (int i = 0; i < p.d; i++) s = s + sol[i] * cost[i];
  sx::checkEq(s, val, "value-of-solution");
  Cond f(true); for (int i = 0; i < p.m(); i++) { Int v = p.rows[i][0]; for (int j = 0; j < p.d; j++) v = v + p.rows[i][j + 1] * sol[j]; f = f && (p.eq.count(i) ? sx::cEq(v, Int(0)) : sx::cLe(Int(0), v)); }
  sx::check(f, "solution-feasible");
  Cond best(true);
  boxPoints(lo, hi, [&](const std::vector<long> &x) { Int v(0); for (int i = 0; i < p.d; i++) v = v + cost[i] * Int(x[i]); best = best && (!inPoly(p, x) || (mx ? sx::cLe(v, val) : sx::cLe(val, v))); });
  sx::check(best, "nothing-better");
}
HARNESS_MAIN_COUNT(h)
