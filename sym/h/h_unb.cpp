// Emptiness and unboundedness: refused exactly when the polyhedron is unbounded, 0 exactly when it is empty.
#include "hx.h"
#include "count.h"
// Ground truth by Fourier-Motzkin style conditions over the symbolic rows, independent of the code: dimension 1 and 2.
// real feasibility of rows b + a.x >= 0 (all inequalities) in dimension d, as a condition
struct Row { Int b; IV a; };
static Cond feas(std::vector<Row> rows, int d) {
  if (d == 0) { Cond c(true); for (auto &r : rows) c = c && sx::cLe(Int(0), r.b); return c; }
  // eliminate variable d-1; signs of its coefficients must be decided
  std::vector<Row> pos, neg, out; int k = d - 1;
  for (auto &r : rows) { int s = sx::sgn(r.a[k]); if (s > 0) pos.push_back(r); else if (s < 0) neg.push_back(r); else out.push_back(r); }
  for (auto &p : pos) for (auto &n : neg) { Row q; q.b = p.b * (-n.a[k]) + n.b * p.a[k]; for (int j = 0; j < d; j++) q.a.push_back(p.a[j] * (-n.a[k]) + n.a[j] * p.a[k]); out.push_back(q); }
  return feas(out, d - 1);
}
static void h() {
  Cfg c(sx::config()); std::map<std::string, Int> in; Poly p = parsePoly(c, in);
  std::vector<Row> rows; for (int i = 0; i < p.m(); i++) { Row r; r.b = p.rows[i][0]; r.a = IV(p.rows[i].begin() + 1, p.rows[i].end()); rows.push_back(r); if (p.eq.count(i)) { r.b = -r.b; for (auto &x : r.a) x = -x; rows.push_back(r); } }
  Cond nonempty = feas(rows, p.d), unb(false);
  for (int j = 0; j < p.d; j++) for (int s = -1; s <= 1; s += 2) { std::vector<Row> q = rows; for (auto &r : q) r.b = Int(0); Row t; t.b = Int(-1); t.a = IV(p.d, Int(0)); t.a[j] = Int(s); q.push_back(t); unb = unb || feas(q, p.d); }
  if (c.n("bounded-if-empty", 1)) sx::assume(nonempty || !unb);
  if (c.s("need") == "nonempty") sx::assume(nonempty);
  putFile("in.hrep", c.n("cdd") ? cddHrep(p) : hrep(p));
  std::vector<std::string> a = {"count"}; for (auto &w : words(c.s("opt"))) a.push_back(w); a.push_back("in.hrep");
  Args ar(a); CountAnswerContainer ans; Run r = runCode([&]() { ans = mainCountDriver(ar.c(), ar.p()); });
  std::string t; bool num = false; Int v; if (getFile("numOfLatticePoints", t) && words(t).size() == 1) v = Int::parse(words(t)[0], &num);
  std::string e = r.err + r.out; bool emptymsg = e.find("Empty polytope or unbounded polytope") != std::string::npos;
  if (r.bad() && !emptymsg && (e.find("unbounded") != std::string::npos || e.find("Unbounded") != std::string::npos || e.find("not bounded") != std::string::npos)) { sx::reach("refused"); sx::check(unb && nonempty, "refused-only-if-unbounded"); return; }
  if (r.threw) { sx::reach("zero"); if (!num) { sx::fail("gives-answer"); return; } sx::checkEq(v, Int(0), "only-zero-on-refusal"); sx::check(!nonempty, "zero-only-if-empty"); return; }
  sx::reach("counted"); sx::check(num, "prints-number"); sx::check(!(unb && nonempty), "no-count-when-unbounded"); 
  sx::check(nonempty || sx::cEq(v, Int(0)), "empty-counts-zero");
}
HARNESS_MAIN(h)
