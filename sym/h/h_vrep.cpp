// Counting from a list of points counts the integer points of their convex hull.
#include "hx.h"
#include "count.h"
struct P { Int w; IV x; };   // the point x / w, w > 0
static Int det(std::vector<IV> m) { int n = m.size(); if (n == 1) return m[0][0]; Int s(0); for (int j = 0; j < n; j++) { std::vector<IV> q; for (int i = 1; i < n; i++) { IV r; for (int k = 0; k < n; k++) if (k != j) r.push_back(m[i][k]); q.push_back(r); } Int t = m[0][j] * det(q); s = (j & 1) ? s - t : s + t; } return s; }
static IV hom(const P &p) { IV v = {p.w}; for (auto &c : p.x) v.push_back(c); return v; }
// z in the (possibly degenerate) hull of d+1 points: nondegenerate simplices, plus segments in the plane/line
static Cond inHull(const std::vector<P> &ps, const P &z, int d) {
  Cond c(false); int n = ps.size(); std::vector<int> id(d + 1);
  std::function<void(int, int)> rec = [&](int k, int from) {
    if (k == d + 1) {
      std::vector<IV> m; for (int i : id) m.push_back(hom(ps[i])); Int D = det(m); Cond pos = sx::cLt(Int(0), D), neg = sx::cLt(D, Int(0));
      for (int i = 0; i <= d; i++) { auto q = m; q[i] = hom(z); Int e = det(q); pos = pos && sx::cLe(Int(0), e); neg = neg && sx::cLe(e, Int(0)); }
      c = c || pos || neg; return; }
    for (int i = from; i < n; i++) { id[k] = i; rec(k + 1, i + 1); } };
  rec(0, 0);
  for (int i = 0; i < n; i++) { // z equals a point / lies on a segment (d <= 3)
    Cond e(true); for (int j = 0; j < d; j++) e = e && sx::cEq(ps[i].x[j] * z.w, z.x[j] * ps[i].w); c = c || e;
    for (int k = i + 1; k < n; k++) { Cond on(true);
      for (int a = 0; a < d; a++) { // between in every coordinate
        Int l = ps[i].x[a] * z.w - z.x[a] * ps[i].w, u = ps[k].x[a] * z.w - z.x[a] * ps[k].w; on = on && sx::cLe(l * u, Int(0)); }
      for (int a = 0; a < d; a++) for (int b = a + 1; b < d; b++) on = on && sx::cEq(det({{ps[i].w, ps[i].x[a], ps[i].x[b]}, {ps[k].w, ps[k].x[a], ps[k].x[b]}, {z.w, z.x[a], z.x[b]}}), Int(0));
      if (d > 1 || true) c = c || on; } }
  return c;
}
static void h() {
  Cfg c(sx::config()); std::map<std::string, Int> in; IM pts = parseRows(c.s("pts"), in); int d = pts[0].size() - 1; bool cdd = c.n("cdd");
  std::vector<P> ps; for (auto &r : pts) { P p; p.w = r[0]; p.x = IV(r.begin() + 1, r.end()); ps.push_back(p); }
  if (c.n("full", 1)) { // assume: affinely spans the space
    Cond f(false); int n = ps.size(); std::vector<int> id(d + 1); std::function<void(int, int)> rec = [&](int k, int from) { if (k == d + 1) { std::vector<IV> m; for (int i : id) m.push_back(hom(ps[i])); f = f || !sx::cEq(det(m), Int(0)); return; } for (int i = from; i < n; i++) { id[k] = i; rec(k + 1, i + 1); } }; rec(0, 0); sx::assume(f); }
  std::ostringstream o; if (cdd) o << "V-representation\nbegin\n"; o << ps.size() << " " << d + 1 << (cdd ? " rational\n" : "\n");
  for (auto &p : ps) { o << "1"; for (auto &x : p.x) { o << " " << x.str(); if (!(p.w.isConst() && p.w.small() && p.w.sval() == 1)) o << "/" << p.w.str(); } o << "\n"; } if (cdd) o << "end\n"; putFile("in.ext", o.str());
  std::vector<std::string> a = {"count"}; for (auto &w : words(c.s("opt", cdd ? "--cdd" : "--vrep"))) a.push_back(w); a.push_back("in.ext");
  Args ar(a); CountAnswerContainer ans; Run r = runCode([&]() { ans = mainCountDriver(ar.c(), ar.p()); });
  std::string t; bool ok = false; Int v; if (getFile("numOfLatticePoints", t)) v = Int::parse(last(t), &ok);
  Int want(0); boxPoints(c.v("lo"), c.v("hi"), [&](const std::vector<long> &x) { P z; z.w = Int(1); for (long y : x) z.x.push_back(Int(y)); want = want + sx::ite(inHull(ps, z, d), Int(1), Int(0)); });
  if (r.exited && r.err.find("Redundant vertices!") != std::string::npos) { // documented refusal: only for a list with a non-vertex
    sx::reach("refused"); Cond red(false); for (size_t i = 0; i < ps.size(); i++) { auto q = ps; q.erase(q.begin() + i); red = red || inHull(q, ps[i], d); } sx::check(red, "refusal-justified"); return; }
  if (!ok) { sx::fail("gives-answer"); return; }
  sx::reach("counted"); sx::checkEq(v, want, "count-of-hull");
  if (!r.bad()) sx::checkEq(I(ans.numLaticePoints), want, "returned-count");
}
HARNESS_MAIN(h)
