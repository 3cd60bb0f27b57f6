// Polytope generators. polymake is not installed: a model of the properties asked of it (over symbolic or concrete numbers,
// by definition: all subsets of points) answers in both builds.
#include "rf.h"
#include "vol.h"
#include "buildPolytopes/BuildPolytope.h"
#include "buildPolytopes/BuildRandomPolytope.h"
#include "buildPolytopes/BuildGraphPolytope.h"
#include "buildPolytopes/BuildHypersimplexEdgePolytope.h"
#include "buildPolytopes/GraphMaker.h"
#include "buildPolytopes/BuildRandomPolynomials.h"
typedef std::vector<Rat> RV; typedef std::vector<RV> RM;
static std::string rs(const Rat &r) { mpq_class q(Mz(r.n), Mz(r.d)); q.canonicalize(); return q.get_str(); }
static int rsgn(const Rat &r) { int a = sx::isZero(r.n) ? 0 : sx::isNeg(r.n) ? -1 : 1; int b = sx::isNeg(r.d) ? -1 : 1; return a * b; }
static Rat rdot(const RV &a, const RV &b) { Rat s(0); for (size_t i = 0; i < a.size(); i++) s = s + a[i] * b[i]; return s; }
// pivot columns and a basis of the kernel
static std::vector<int> elim(RM &m, int n) { std::vector<int> piv; size_t r = 0; for (int c = 0; c < n && r < m.size(); c++) { size_t k = r; while (k < m.size() && !rsgn(m[k][c])) k++; if (k == m.size()) continue; std::swap(m[k], m[r]); Rat p = m[r][c]; for (auto &x : m[r]) x = x / p; for (size_t i = 0; i < m.size(); i++) if (i != r) { Rat f = m[i][c]; if (!f.zero()) for (int j = 0; j < n; j++) m[i][j] = m[i][j] - f * m[r][j]; } piv.push_back(c); r++; } m.resize(r); return piv; }
static RM kernel(RM m, int n) { std::vector<int> p = elim(m, n); RM k; for (int c = 0; c < n; c++) if (std::find(p.begin(), p.end(), c) == p.end()) { RV v(n, Rat(0)); v[c] = Rat(1); for (size_t i = 0; i < p.size(); i++) v[p[i]] = Rat(0) - m[i][c]; k.push_back(v); } return k; }
struct Hull { int amb = 0, dim = 0; RM pts, eq, fac; std::vector<std::set<int>> tight; std::vector<int> verts; };
static void subsets(int n, int k, std::function<void(const std::vector<int> &)> f) { std::vector<int> s(k); std::function<void(int, int)> rec = [&](int i, int from) { if (i == k) { f(s); return; } for (int j = from; j < n; j++) { s[i] = j; rec(i + 1, j + 1); } }; rec(0, 0); }
static Hull hull(const RM &p0) {
  Hull h; h.amb = p0[0].size() - 1; int n = h.amb + 1;
  for (auto &p : p0) { RV q = p; for (auto &x : q) x = x / p[0]; bool dup = false; for (auto &o : h.pts) { bool e = true; for (int j = 0; j < n && e; j++) if (rsgn(o[j] - q[j])) e = false; dup = dup || e; } if (!dup) h.pts.push_back(q); }
  RM m = h.pts; std::vector<int> col = elim(m, n); h.dim = col.size() - 1; h.eq = kernel(h.pts, n); int D = col.size();
  subsets(h.pts.size(), D - 1, [&](const std::vector<int> &s) {
    RM a; for (int i : s) { RV r; for (int c : col) r.push_back(h.pts[i][c]); a.push_back(r); } RM k = kernel(a, D); if (k.size() != 1) return;
    RV f(n, Rat(0)); for (int j = 0; j < D; j++) f[col[j]] = k[0][j]; int sg = 0; std::set<int> t;
    for (size_t i = 0; i < h.pts.size(); i++) { int g = rsgn(rdot(f, h.pts[i])); if (!g) t.insert(i); else if (!sg) sg = g; else if (sg != g) return; }
    if (!sg) return; for (auto &o : h.tight) if (o == t) return; if (sg < 0) for (auto &x : f) x = Rat(0) - x; h.fac.push_back(f); h.tight.push_back(t); });
  for (size_t i = 0; i < h.pts.size(); i++) { bool v = true; for (size_t q = 0; q < h.pts.size() && v; q++) if (q != i) { bool sup = true; for (auto &t : h.tight) if (t.count(i) && !t.count(q)) sup = false; if (sup) v = false; } if (v) h.verts.push_back(i); }
  return h;
}
typedef std::map<std::string, RM> Sec;
static Sec readSec(const std::string &t) { Sec s; std::istringstream in(t); std::string l, cur; while (std::getline(in, l)) { if (l.empty()) { cur = ""; continue; } if (isalpha(l[0])) { cur = l; s[cur]; continue; } RV r; std::istringstream i(l); std::string w; while (i >> w) { size_t k = w.find('/'); Rat q; q.n = Int::parse(w.substr(0, k)); q.d = k == std::string::npos ? Int(1) : Int::parse(w.substr(k + 1)); r.push_back(q); } s[cur].push_back(r); } return s; }
static int polymake(const std::vector<std::string> &w0) {
  std::vector<std::string> w; for (auto &x : w0) { if (x == ">") break; w.push_back(x); } std::string prog = w[0]; size_t k = prog.rfind('/'); if (k != std::string::npos) prog = prog.substr(k + 1);
  std::string in = prog == "center" ? w[2] : w[1], t; if (!getFile(in, t)) return 256;
  Sec s = readSec(t); RM P = s.count("VERTICES") ? s["VERTICES"] : s["POINTS"]; if (P.empty()) return 256; Hull h = hull(P);
  auto rows = [&](const RM &m) { std::string o; for (auto &r : m) { for (auto &x : r) o += rs(x) + " "; o += "\n"; } return o; };
  if (prog == "center") { RM v; RV b(h.amb + 1, Rat(0)); for (int i : h.verts) for (int j = 0; j <= h.amb; j++) b[j] = b[j] + h.pts[i][j] / Rat((long)h.verts.size()); for (int i : h.verts) { RV q = h.pts[i]; for (int j = 1; j <= h.amb; j++) q[j] = q[j] - b[j]; v.push_back(q); } putFile(w[1], "VERTICES\n" + rows(v) + "\nCENTERED\n1\n\n"); return 0; }
  std::string o = t; if (o.size() < 2 || o.substr(o.size() - 2) != "\n\n") o += "\n";
  for (size_t i = 2; i < w.size(); i++) { const std::string &p = w[i]; if (s.count(p)) continue; o += p + "\n";
    if (p == "DIM") o += std::to_string(h.dim) + "\n"; else if (p == "AMBIENT_DIM") o += std::to_string(h.amb) + "\n";
    else if (p == "AFFINE_HULL") o += rows(h.eq);
    else if (p == "FACETS") { RM f = h.fac; for (size_t q = 0; q < f.size(); q++) for (auto &x : f[q]) x = x / Rat((long)(q + 2)); o += rows(f); }
    else if (p == "VERTICES") { RM v; for (int q : h.verts) v.push_back(h.pts[q]); o += rows(v); }
    else if (p == "CENTERED") { bool c = h.dim == h.amb; for (auto &f : h.fac) if (rsgn(f[0]) <= 0) c = false; o += c ? "1\n" : "0\n"; }
    else if (p == "SIMPLE") { bool c = true; for (int v : h.verts) { int n = 0; for (auto &t2 : h.tight) n += t2.count(v); if (n != h.dim) c = false; } o += c ? "1\n" : "0\n"; }
    else if (p == "SIMPLICIAL") { bool c = true; for (auto &t2 : h.tight) { int n = 0; for (int v : h.verts) n += t2.count(v); if (n != h.dim) c = false; } o += c ? "1\n" : "0\n"; }
    o += "\n"; }
  putFile(in, o); return 0;
}
#ifdef SX_SYMBOLIC
extern int (*sx_polymake_hook)(const std::vector<std::string> &);
static void setup() { sx_polymake_hook = polymake; }
static bool asPolymake(int, char **) { return false; }
#else
#include <unistd.h>
static void setup() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, 4095); if (n > 0) { b[n] = 0; if (symlink(b, "polymake") || symlink(b, "center")) {} } char c[4096]; if (getcwd(c, 4096)) setenv("PATH", (std::string(c) + ":" + getenv("PATH")).c_str(), 1); }
static bool asPolymake(int c, char **v) { std::string s = v[0]; size_t k = s.rfind('/'); if (k != std::string::npos) s = s.substr(k + 1); if (s != "polymake" && s != "center") return false; std::vector<std::string> w; w.push_back(s); for (int i = 1; i < c; i++) { w.push_back(v[i]); } _exit(polymake(w) ? 1 : 0); }
#endif
static int drawK = 0, drawN = 0, draws = 0, scaled = 0; static unsigned long drawS = 1;
static int draw() { if (draws < drawN) { std::string n = "rnd" + std::to_string(draws++); Int v = sx::input(n, 0, drawK - 1); long k = 0; while (k + 1 < drawK && !(v == Int(k))) k++; return scaled ? (int)((2147483648UL * k + 1073741824UL) / drawK) : (int)k; } drawS = drawS * 6364136223846793005UL + 1442695040888963407UL; return (drawS >> 33) & 0x7fffffff; }
#ifdef rand
extern int (*sx_rand_hook)();
static void hookRand() { sx_rand_hook = draw; }
#else
extern "C" int rand() noexcept { return draw(); }
static void hookRand() {}
#endif
static Cond propRow(const RV &a, const RV &b, bool pos) { if (a.size() != b.size()) return Cond(false); Cond c(true); bool nz = false; for (size_t i = 0; i < a.size(); i++) { if (pos) c = c && sx::cLe(Int(0), a[i].n * a[i].d * b[i].n * b[i].d); for (size_t j = i + 1; j < a.size(); j++) c = c && sx::cEq(a[i].n * a[j].d * b[j].n * b[i].d, b[i].n * b[j].d * a[j].n * a[i].d); c = c && sx::cEq(sx::ite(sx::cEq(a[i].n, Int(0)), Int(1), Int(0)), sx::ite(sx::cEq(b[i].n, Int(0)), Int(1), Int(0))); nz = true; } return nz ? c : Cond(false); }
static void sameSet(const RM &got, const RM &want, const std::string &l) {
  sx::check(got.size() == want.size(), l + "-number"); if (got.size() != want.size()) return;
  for (auto &w : want) { Cond f(false); for (auto &g : got) f = f || propRow(g, w, true); sx::check(f, l); }
}
struct LF { bool ok = false; RM rows; std::set<int> lin; };
static LF latte(const std::string &name) { LF d; std::string t, w; if (!getFile(name, t)) return d; std::istringstream in(t); int m, n; if (!(in >> m >> n)) return d; d.ok = true; for (int i = 0; i < m; i++) { RV r; for (int j = 0; j < n; j++) { if (!(in >> w)) { d.ok = false; return d; } bool ok = true; Rat q; q.n = Int::parse(w, &ok); if (!ok) { d.ok = false; return d; } r.push_back(q); } d.rows.push_back(r); } while (in >> w) { int k, x; in >> k; while (k-- > 0 && in >> x) if (w == "linearity") d.lin.insert(x - 1); else d.ok = false; } return d; }
struct Given : BuildPolytope { void dims(int d) { ambientDim = d; } };
static void hullCheck(const Cfg &c) {
  std::map<std::string, Int> in; IM P = parseRows(c.s("pts"), in); std::vector<long> den = c.v("den"); Given b; int d = P[0].size(); std::string name = c.s("name", "poly"); for (auto &ch : name) if (ch == '~') ch = ' '; else if (ch == '^') ch = '\''; b.setBaseFileName(name); b.dims(d);
  RM pts; for (size_t i = 0; i < P.size(); i++) { RV r(1, Rat(1)); std::vector<mpq_class> q; for (auto &x : P[i]) { long D = den.size() ? den[i % den.size()] : 1; r.push_back(Rat(x, Int(D))); q.push_back(Mq(x, Int(D))); } pts.push_back(r); b.addPoint(q); }
  Hull h = hull(pts); if (h.dim == 0) sx::assume(Cond(false)); bool full = h.dim == d; std::string ops = c.s("ops");
  auto vs = [&]() { RM v; for (int i : h.verts) v.push_back(h.pts[i]); return v; };
  auto center = [&]() { bool cen = full; for (auto &f : h.fac) if (rsgn(f[0]) <= 0) cen = false; if (cen) return; RM v = vs(); RV m(d + 1, Rat(0)); for (auto &x : v) for (int j = 0; j <= d; j++) m[j] = m[j] + x[j] / Rat((long)v.size()); for (auto &x : v) for (int j = 1; j <= d; j++) x[j] = x[j] - m[j]; h = hull(v); };
  if (full) { for (size_t i = 0; i < ops.size(); i++) if (strchr("hvdc", ops[i])) break; } else for (char o : ops) if (strchr("hvdcS", o)) sx::assume(Cond(false));
  for (char o : ops) {
    if (strchr("hvdc", o)) center();
    bool bv = false; long nv = 0; Run r = runCode([&]() { switch (o) { case 'H': b.buildLatteHRepFile(); break; case 'V': b.buildLatteVRepFile(); break; case 'h': b.buildLatteHRepDualFile(); break; case 'v': b.buildLatteVRepDualFile(); break; case 'd': b.buildPolymakeDualFile(); break; case 'c': b.centerPolytope(); break;
      case 's': bv = b.isSimple(); break; case 't': bv = b.isSimplicial(); break; case 'x': bv = b.isDualSimple(); break; case 'y': bv = b.isDualSimplicial(); break; case 'n': nv = b.getVertexCount(); break; } });
    if (r.bad()) { sx::fail("ends-normally"); return; }
    auto simple = [&]() { for (int v : h.verts) { int n = 0; for (auto &t2 : h.tight) n += t2.count(v); if (n != h.dim) return false; } return true; };
    auto simplicial = [&]() { for (auto &t2 : h.tight) { int n = 0; for (int v : h.verts) n += t2.count(v); if (n != h.dim) return false; } return true; };
    if (o == 's' || o == 'y') sx::check(bv == simple(), o == 's' ? "is-simple" : "dual-is-simplicial"); if (o == 't' || o == 'x') sx::check(bv == simplicial(), o == 't' ? "is-simplicial" : "dual-is-simple"); if (o == 'n') sx::check(nv == (long)h.verts.size(), "vertex-count");
    if (o == 'H') { LF f = latte(b.getLatteHRepFile()); if (!f.ok) { sx::fail("file-readable"); return; } RM in2, eq; for (size_t i = 0; i < f.rows.size(); i++) (f.lin.count(i) ? eq : in2).push_back(f.rows[i]); if (full) sameSet(in2, h.fac, "facets"); else { sx::check(in2.size() == h.fac.size(), "facets-number"); std::set<std::set<int>> seen; for (auto &f2 : in2) { std::set<int> t; for (size_t i = 0; i < h.pts.size(); i++) { int g = rsgn(rdot(f2, h.pts[i])); if (g < 0) sx::fail("facet-valid"); if (!g) t.insert(i); } seen.insert(t); } std::set<std::set<int>> want(h.tight.begin(), h.tight.end()); sx::check(seen == want, "facets"); }
      sx::check(eq.size() == h.eq.size(), "equations-number"); { RM m = eq; if (m.size()) sx::check(elim(m, d + 1).size() == h.eq.size(), "equations-independent"); } for (auto &e : eq) for (auto &p : h.pts) { Rat v = rdot(e, p); sx::checkEq(v.n, Int(0), "equations"); } sx::reach("hrep"); }
    if (o == 'V' || o == 'v') { LF f = latte(o == 'V' ? b.getLatteVRepFile() : b.getLatteVRepDualFile()); if (!f.ok) { sx::fail("file-readable"); return; } for (auto &x : f.rows) sx::check(sx::cLt(Int(0), x[0].n), "leading-entry"); sameSet(f.rows, o == 'V' ? vs() : h.fac, o == 'V' ? "vertices" : "dual-vertices"); sx::reach("vrep"); }
    if (o == 'h') { LF f = latte(b.getLatteHRepDualFile()); if (!f.ok) { sx::fail("file-readable"); return; } sx::check(f.lin.empty(), "no-equations"); sameSet(f.rows, vs(), "dual-facets"); sx::reach("dual"); }
    if (o == 'd') { std::string t; if (!getFile(b.getPolymakeDualFile(), t)) { sx::fail("file-readable"); return; } Sec s = readSec(t); sameSet(s["VERTICES"], h.fac, "dual-vertices"); sx::reach("dual"); }
  }
}
struct Gm : GraphMaker { int nv() { return numVertex; } };
static void graph(const Cfg &c) {
  std::map<std::string, Int> in; auto num = [&](const std::string &k) { std::string s = c.s(k); if (s.empty()) return 0L; return sx::concretize(parseEntry(s, in)); };
  long n = num("n"), m = num("m"); std::string type = c.s("type"); Gm g; hookRand(); drawK = c.n("rnd"); drawN = drawK ? c.n("draws") : 0; drawS = c.n("seed", 1);
  if (c.n("pre")) { runCode([&]() { g.makeCircleGraph(7); }); }
  std::vector<std::pair<int, int>> own; std::string typed; if (type == "my") { for (int i = 0; i < c.n("e", 2); i++) { long a = sx::concretize(sx::input("u" + std::to_string(i), 0, n)), b2 = sx::concretize(sx::input("w" + std::to_string(i), 0, n)); typed += std::to_string(a) + " " + std::to_string(b2) + "\n"; if (a < n && b2 < n) own.push_back({std::min(a, b2), std::max(a, b2)}); } typed = std::to_string(n) + "\n" + typed + "-1\n"; }
  Run r; { std::istringstream ci(typed); std::streambuf *o = std::cin.rdbuf(ci.rdbuf()); std::cin.clear(); r = runCode([&]() {
    if (type == "lin") g.makeLinearGraph(n); else if (type == "cir") g.makeCircleGraph(n); else if (type == "circ") g.makeCircleWithCenter(n, m); else if (type == "check") g.makeCheckerboard(n, m); else if (type == "kneser") g.makeKneserGraph(n, m);
    else if (type == "pet") g.makePetersenGraph(); else if (type == "petfun") g.makePetersenFunGraph(n); else if (type == "randC") g.makeRandomConnectedGraph(n, m); else if (type == "randD") g.makeRandomDisconnectedGraph(n, m); else if (type == "my") g.makeYourOwnGraph(); }); std::cin.rdbuf(o); }
  if (r.bad()) { sx::fail("ends-normally"); return; }
  const auto &E = g.getEdges(); std::set<std::pair<int, int>> S; long cnt = 0; int N = E.size(); bool ok = true;
  for (int i = 0; i < N; i++) for (int j : E[i]) { if (j < 0 || j >= N || (i == j && type != "my")) ok = false; else S.insert({std::min(i, j), std::max(i, j)}); cnt++; }
  sx::check(ok, "edges-in-range"); sx::check(cnt == (long)S.size(), "edges-distinct"); if (!ok) return;
  auto deg = [&](int v) { int d = 0; for (auto &e : S) d += (e.first == v) + (e.second == v); return d; };
  auto comp = [&](int a, int b2) { std::vector<int> p(N); for (int i = 0; i < N; i++) p[i] = i; std::function<int(int)> f = [&](int x) { return p[x] == x ? x : p[x] = f(p[x]); }; for (auto &e : S) p[f(e.first)] = f(e.second); int k = 0; for (int i = a; i < b2; i++) k += f(i) == i; return k; };
  auto choose = [](long a, long b2) { long r2 = 1; for (long i = 0; i < b2; i++) r2 = r2 * (a - i) / (i + 1); return r2; };
  std::set<std::pair<int, int>> W; long wn = -1; bool exact = true;
  if (type == "lin") { if (n < 2) return; wn = n; for (int i = 0; i + 1 < n; i++) W.insert({i, i + 1}); }
  else if (type == "cir") { if (n < 3) return; wn = n; for (int i = 0; i < n; i++) W.insert({std::min(i, (int)((i + 1) % n)), std::max(i, (int)((i + 1) % n))}); }
  else if (type == "circ") { if (n < 4) return; wn = n; for (int i = 0; i < n - 1; i++) { int j = (i + 1) % (n - 1); W.insert({std::min(i, j), std::max(i, j)}); if (i % m == 0) W.insert({i, (int)n - 1}); } }
  else if (type == "check") { if (n < 2 || m < 2) return; wn = n * m; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { if (j + 1 < m) W.insert({(int)(i * m + j), (int)(i * m + j + 1)}); if (i + 1 < n) W.insert({(int)(i * m + j), (int)((i + 1) * m + j)}); } }
  else if (type == "my") { wn = n; W.insert(own.begin(), own.end()); }
  else exact = false;
  if (exact) { sx::check(N == wn, "number-of-vertices"); sx::check(S == W, "edges"); }
  else if (type == "kneser") { if (m > (n + 1) / 2 || m >= n) return; sx::check(N == choose(n, m), "number-of-vertices"); long dg = n - m < m ? 0 : choose(n - m, m); sx::check((long)S.size() * 2 == N * dg, "number-of-edges"); for (int i = 0; i < N; i++) sx::check(deg(i) == dg, "degrees"); }
  else if (type == "pet" || type == "petfun") { int k = type == "pet" ? 1 : n; sx::check(N == 10 * k && (int)S.size() == 15 * k, "number-of-edges"); if (N != 10 * k) return; sx::check(comp(0, N) == k, "components"); for (int i = 0; i < N; i++) sx::check(deg(i) == 3, "degrees");
    auto adj = [&](int a, int b2) { return S.count({std::min(a, b2), std::max(a, b2)}) > 0; }; for (int a = 0; a < N; a++) for (int b2 = a + 1; b2 < N; b2++) { int cm = 0; for (int x = 0; x < N; x++) cm += adj(a, x) && adj(b2, x); if (a / 10 == b2 / 10) sx::check(cm == (adj(a, b2) ? 0 : 1), "strongly-regular"); } }
  else if (type == "randC") { if (n <= 2 || n > m + 1 || m > n * (n - 1) / 2) return; sx::check(N == n && (long)S.size() == m, "number-of-edges"); sx::check(comp(0, N) == 1, "connected"); }
  else if (type == "randD") { long a = (n + 1) / 2, b2 = n / 2, x = (m + 1) / 2, y = m / 2; if (n < 4) return; if (x > a * (a - 1) / 2 || y > b2 * (b2 - 1) / 2) { sx::reach("refused"); return; } sx::check(N == n && (long)S.size() == m, "number-of-edges"); long in1 = 0; for (auto &e : S) { sx::check((e.first < a) == (e.second < a), "disconnected"); in1 += e.second < a; } sx::check(in1 == x, "edges-per-part"); }
  if (c.s("poly").size()) { bool sym = c.s("poly") == "se"; BuildGraphPolytope p; p.setBaseFileName("gp"); sym ? p.findSymmetricEdgePolytope(E) : p.findEdgePolytope(E); p.buildPolymakeFile(); std::string t; getFile(p.getPolymakeFile(), t); Sec s = readSec(t); const RM &P = s["POINTS"]; sx::check(p.getAmbientDim() == N && P.size() == S.size() * (sym ? 2 : 1), "edge-polytope-points"); std::set<std::vector<long>> got, want; for (auto &x : P) { std::vector<long> v; for (auto &q : x) v.push_back(q.n.sval()); got.insert(v); }
    for (auto &e : S) for (int sg = 1; sg >= (sym ? -1 : 1); sg -= 2) { std::vector<long> v(N + 1, 0); v[0] = 1; v[e.first + 1] = sg; v[e.second + 1] = sym ? -sg : 1; want.insert(v); } sx::check(got == want, "edge-polytope-points"); }
  sx::reach("made");
}
static void others(const Cfg &c, const std::string &w) {
  std::map<std::string, Int> in; auto num = [&](const std::string &k) { return sx::concretize(parseEntry(c.s(k), in)); }; hookRand(); drawK = c.n("rnd"); drawN = drawK ? c.n("draws") : 0; drawS = c.n("seed", 1);
  if (w == "hyper") { long n = num("n"), k = num("k"); BuildHypersimplexEdgePolytope h; if (c.n("twice")) h.generatePoints(4, 2); h.generatePoints(n, k); h.setBaseFileName("hs"); h.buildPolymakeFile(); std::string t; getFile(h.getPolymakeFile(), t); Sec s = readSec(t); std::set<std::vector<long>> got; bool ok = true; for (auto &x : s["POINTS"]) { std::vector<long> v; long sum = 0; for (auto &q : x) { v.push_back(q.n.sval()); sum += q.n.sval(); if (q.n.sval() != 0 && q.n.sval() != 1) ok = false; } if ((long)v.size() != n + 1 || v[0] != 1 || sum != k + 1) ok = false; got.insert(v); }
    long b = 1; for (long i = 0; i < k; i++) b = b * (n - i) / (i + 1); sx::check(ok, "points-have-k-ones"); sx::check((long)s["POINTS"].size() == b, "number-of-points"); sx::check((long)got.size() == b, "points-distinct"); sx::check(GraphMaker::nchoosek(n, k) == b, "binomial"); sx::reach("made"); return; }
  if (w == "rpoly") { long d = num("d"), g = num("deg"), m = num("m"); std::string s; Run r = runCode([&]() { s = makeRandomPolynomial(d, g, m); }); if (r.bad()) { sx::fail("ends-normally"); return; } for (auto &ch : s) if (ch == ',') ch = ' '; std::string u; for (char ch : s) { if (ch == '[' || ch == ']') { u += ' '; u += ch; u += ' '; } else u += ch; } std::istringstream i(u); std::string t; auto exp = [&](const std::string &e) { return bool(i >> t) && t == e; }; bool ok = exp("["); for (long k = 0; k < m && ok; k++) { ok = exp("[") && exp("1") && exp("["); long sum = 0; for (long j = 0; j < d && ok; j++) { long e = -1; ok = bool(i >> e) && e >= 0; sum += e; } ok = ok && exp("]") && exp("]") && sum == g; } ok = ok && exp("]"); sx::check(ok, "polynomial-as-announced"); sx::reach("made"); return; }
  long d = num("d"), n = num("n"), mx = num("max"); scaled = c.n("scaled"); struct B2 : BuildRandomPolytope {} b; b.setBaseFileName("rp"); if (c.n("rat")) b.setIntegerPoints(false); double pr = c.n("pneg", 50) / 100.0; b.makePoints(d, n, mx, pr); b.buildPolymakeFile(); std::string t; getFile(b.getPolymakeFile(), t); Sec s = readSec(t); bool ok = (long)s["POINTS"].size() == n; for (auto &x : s["POINTS"]) { if ((long)x.size() != d + 1 || x[0].n.sval() != 1) { ok = false; continue; } for (long j = 1; j <= d; j++) { long a = x[j].n.sval(), q = x[j].d.sval(); if (q < 1 || q > mx || labs(a) >= mx || (!c.n("rat") && q != 1)) ok = false; if (pr == 0 && a < 0) ok = false; if (pr > 1 && a > 0) ok = false; } } sx::check(ok, "points-as-announced"); sx::reach("made");
}
static void h() { Cfg c(sx::config()); std::string w = c.s("what"); setup(); if (w == "hull") hullCheck(c); else if (w == "graph") graph(c); else others(c, w); }
int main(int c, char **v) { if (asPolymake(c, v)) return 0; return sx::run(c, v, h); }
