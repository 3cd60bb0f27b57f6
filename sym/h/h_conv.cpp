// File formats: conversions between the native and the cdd formats, the ways of writing the same polyhedron, and lists of
// cones written and read back.
#include "rf.h"
#include "count.h"
#include "cone.h"
#include "print.h"
#include "ReadSubcones.h"
#include "cone_consumer.h"
int latte2ine_main(int, char **); int latte2ext_main(int, char **); int convcdd_main(int, const char **); int p2c_main(int, char **);
static Rat ratOf(const std::string &w, bool &ok) { size_t k = w.find('/'); bool o1 = true, o2 = true; Rat r; r.n = Int::parse(w.substr(0, k), &o1); r.d = Int(1); if (k != std::string::npos) r.d = Int::parse(w.substr(k + 1), &o2); if (!o1 || !o2) ok = false; return r; }
typedef std::vector<Rat> RV;
struct Desc { bool ok = false; std::vector<RV> rows; std::set<int> lin; bool gen = false; };
// cdd format
static Desc parseCdd(const std::string &t) {
  Desc d; std::istringstream in(t); std::string w; bool found = false;
  while (!found && in >> w) { if (w == "V-representation") d.gen = true; else if (w == "linearity") { int k, x; in >> k; while (k-- > 0 && in >> x) d.lin.insert(x - 1); } else if (w == "begin") found = true; }
  int m, n; if (!found || !(in >> m >> n >> w)) return d; d.ok = true;
  for (int i = 0; i < m; i++) { RV r; for (int j = 0; j < n; j++) { if (!(in >> w)) { d.ok = false; return d; } r.push_back(ratOf(w, d.ok)); } d.rows.push_back(r); }
  if (!(in >> w) || w != "end") d.ok = false;
  while (in >> w) if (w == "linearity") { int k, x; in >> k; while (k-- > 0 && in >> x) d.lin.insert(x - 1); }
  return d;
}
// native format
static Desc parseLatte(const std::string &t) {
  Desc d; std::istringstream in(t); std::string w; int m, n; if (!(in >> m >> n)) return d; d.ok = true;
  for (int i = 0; i < m; i++) { RV r; for (int j = 0; j < n; j++) { if (!(in >> w)) { d.ok = false; return d; } r.push_back(ratOf(w, d.ok)); } d.rows.push_back(r); }
  while (in >> w) { int k, x; in >> k; while (k-- > 0 && in >> x) { if (w == "linearity") d.lin.insert(x - 1); else { RV r(n, Rat()); for (auto &e : r) { e.n = Int(0); e.d = Int(1); } r[x].n = Int(1); d.rows.push_back(r); } } }
  return d;
}
// one row is a positive multiple of the other (any nonzero multiple for an equation)
static Cond sameRow(const RV &a, const std::vector<Rat> &b, bool eq, bool exact) {
  if (a.size() != b.size()) return Cond(false); Cond c(true); size_t n = a.size();
  for (size_t i = 0; i < n; i++) { if (exact) { c = c && sx::cEq(a[i].n * b[i].d, b[i].n * a[i].d); continue; }
    c = c && sx::cEq(sx::ite(sx::cEq(a[i].n, Int(0)), Int(1), Int(0)), sx::ite(sx::cEq(b[i].n, Int(0)), Int(1), Int(0)));
    if (!eq) c = c && sx::cLe(Int(0), a[i].n * a[i].d * b[i].n * b[i].d);
    for (size_t j = i + 1; j < n; j++) c = c && sx::cEq(a[i].n * a[j].d * b[j].n * b[i].d, b[i].n * b[j].d * a[j].n * a[i].d); }
  return c;
}
static void compare(const Desc &d, const std::vector<std::vector<Rat>> &want, const std::set<int> &lin, bool exact) {
  if (!d.ok) { sx::fail("output-readable"); return; }
  sx::check(d.rows.size() == want.size(), "same-number-of-rows"); if (d.rows.size() != want.size()) return;
  sx::check(d.lin == lin, "equations-kept");
  for (size_t i = 0; i < want.size(); i++) sx::check(sameRow(d.rows[i], want[i], lin.count(i), exact), "same-rows");
  sx::reach("converted");
}
struct CinFrom { std::istringstream s; std::streambuf *o; CinFrom(const std::string &t) : s(t) { o = std::cin.rdbuf(s.rdbuf()); std::cin.clear(); } ~CinFrom() { std::cin.rdbuf(o); } };
static std::string withStdout(std::function<void()> f) { char *b = 0; size_t n = 0; fflush(stdout); FILE *o = stdout, *m = open_memstream(&b, &n); stdout = m; f(); fflush(m); stdout = o; fclose(m); std::string s(b, n); free(b); return s; }
static listVector *mkList(const IM &m) { listVector *l = 0, **t = &l; for (auto &r : m) { *t = new listVector(Zv(r)); t = &(*t)->rest; } return l; }
static IM unList(listVector *l) { IM m; for (; l; l = l->rest) m.push_back(Iv(l->first)); return m; }
static Cond sameIM(const IM &a, const IM &b) { if (a.size() != b.size()) return Cond(false); Cond c(true); for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) return Cond(false); for (size_t j = 0; j < a[i].size(); j++) c = c && sx::cEq(a[i][j], b[i][j]); } return c; }
static std::string nl(std::string s) { for (auto &ch : s) { if (ch == '~') ch = '\n'; if (ch == '^') ch = '\t'; } return s; }
static void conv(const Cfg &c, const std::string &what) {
  std::map<std::string, Int> in; Poly p = parsePoly(c, in); int n = p.d + 1; std::vector<long> den = c.v("den");
  std::vector<std::vector<Rat>> want; std::set<int> lin = p.eq; std::ostringstream o; bool cdd = what == "i2l";
  std::string sep = nl(c.s("sep", " ")), eol = nl(c.s("eol", "~"));
  if (cdd) { o << nl(c.s("head")) << "H-representation\n"; if (c.s("linpos") != "end" && lin.size()) { o << "linearity " << lin.size(); for (int e : lin) o << " " << e + 1; o << "\n"; } o << "begin\n" << p.m() << " " << n << " " << c.s("type", "rational") << "\n"; }
  else o << p.m() << sep << n << eol;
  int q = 0; for (auto &r : p.rows) { want.push_back({}); for (int j = 0; j < n; j++) { long D = den.size() ? den[(q + j) % den.size()] : 1; mpq_class x = Mq(r[j], Int(D)); o << (j ? sep : "") << x.get_str(); Rat t; t.n = I(x.get_num()); t.d = I(x.get_den()); want.back().push_back(t); } q++; o << eol; }
  std::string extra = nl(c.s("extra")); if (!cdd && lin.size() && c.s("linpos") != "own") { o << "linearity " << lin.size(); for (int e : lin) o << " " << e + 1; o << eol; }
  if (cdd) { o << "end\n"; if (c.s("linpos") == "end" && lin.size()) { o << "linearity " << lin.size(); for (int e : lin) o << " " << e + 1; o << "\n"; } }
  o << extra;
  { std::istringstream i(extra); std::string w; while (i >> w) { int k, x; i >> k; while (k-- > 0 && i >> x) if (w == "nonnegative") { std::vector<Rat> r(n); for (auto &e : r) { e.n = Int(0); e.d = Int(1); } r[x].n = Int(1); want.push_back(r); } } }
  Desc d; Run r;
  if (cdd) { putFile("in.ine", o.str()); Args a({"ConvertCDDineToLatte", "in.ine", "out.hrep"}); r = runCode([&]() { convcdd_main(3, (const char **)a.p()); }); std::string t; if (r.bad() || !getFile("out.hrep", t)) { sx::fail("ends-normally"); return; } d = parseLatte(t); compare(d, want, lin, false); return; }
  Args a({what == "l2e" ? "latte2ext" : "latte2ine"}); std::string out;
  { CinFrom f(o.str()); out = withStdout([&]() { r = runCode([&]() { (what == "l2e" ? latte2ext_main : latte2ine_main)(1, a.p()); }); }); }
  if (r.bad()) { sx::fail("ends-normally"); return; }
  d = parseCdd(out); if (d.ok) sx::check(d.gen == (what == "l2e"), "right-representation"); compare(d, want, lin, what == "l2e");
}
static void cones(const Cfg &c) {
  std::map<std::string, Int> in; std::vector<listCone *> ks; listCone *first = 0; int d = c.n("d", 2); std::vector<long> den = c.v("den");
  for (int k = 0; k < c.n("n", 1); k++) { std::string s = std::to_string(k); listCone *K = createListCone(); K->coefficient = k % 2 ? -1 : 1; K->rays = mkList(parseRows(c.s("r" + s), in)); if (c.s("f" + s).size()) K->facets = mkList(parseRows(c.s("f" + s), in));
    IV v = parseRows(c.s("v" + s), in)[0]; ZZ z; if (den.size()) K->vertex = new Vertex(new rationalVector(Zv(v), Z(Int(den[k % den.size()])))); else K->vertex = new Vertex(new rationalVector(Zv(v), Z(Int(1))));
    if (ks.size()) ks.back()->rest = K; else first = K; ks.push_back(K); }
  listCone *back = 0; Run r = runCode([&]() { printListConeToFile("cones.txt", first, d);
    if (c.n("consumer")) { CollectingConeConsumer ccc; ListConeReadingConeProducer p("cones.txt"); p.Produce(ccc); back = ccc.Collected_Cones; } else back = readListConeFromFile("cones.txt"); });
  if (r.bad()) { sx::fail("ends-normally"); return; }
  std::vector<listCone *> b; for (listCone *k = back; k; k = k->rest) b.push_back(k);
  sx::check(b.size() == ks.size(), "number-of-cones"); if (b.size() != ks.size()) return;
  if (c.n("consumer")) std::reverse(b.begin(), b.end());
  for (size_t i = 0; i < b.size(); i++) { sx::check(b[i]->coefficient == ks[i]->coefficient, "coefficient"); sx::check(sameIM(unList(b[i]->rays), unList(ks[i]->rays)), "rays"); sx::check(sameIM(unList(b[i]->facets), unList(ks[i]->facets)), "facets");
    for (int j = 0; j < d; j++) sx::checkEq(I(b[i]->vertex->vertex->numerators()[j]) * I(ks[i]->vertex->vertex->denominators()[j]), I(ks[i]->vertex->vertex->numerators()[j]) * I(b[i]->vertex->vertex->denominators()[j]), "vertex"); }
  sx::reach("read-back");
}
struct Keep : ConeConsumer { std::vector<listCone *> l; int ConsumeCone(listCone *c) { l.push_back(c); return 1; } };
static void sub(const Cfg &c) {
  std::map<std::string, Int> in; IM R = parseRows(c.s("rays"), in); int d = R[0].size(), m = R.size(), n = c.n("n", 2); listCone *K = createListCone(); K->rays = mkList(R); K->vertex = new Vertex(new rationalVector(d));
  for (int i = 0; i < m; i++) for (int j = i + 1; j < m; j++) { Cond e(true); for (int q = 0; q < d; q++) e = e && sx::cEq(R[i][q], R[j][q]); sx::assume(!e); }
  std::vector<std::vector<bool>> ind(n, std::vector<bool>(m)); for (int k = 0; k < n; k++) for (int i = 0; i < m; i++) ind[k][i] = sx::input("s" + std::to_string(k) + "_" + std::to_string(i), 0, 1) == Int(1);
  long off = c.n("hint", -1); Keep out;
  Run r = runCode([&]() { { SubconePrintingConeConsumer w(K, "sub.txt");
      for (int k = 0; k < n; k++) { listCone *s = createListCone(); s->vertex = new Vertex(*K->vertex); listVector **t = &s->rays; for (int i = 0; i < m; i++) if (ind[k][i]) { *t = new listVector(Zv(R[i])); (*t)->index_hint = off < 0 ? -1 : (i + off) % (m + 1); t = &(*t)->rest; } w.ConsumeCone(s); } }
    SubconeReadingConeProducer p(K, "sub.txt"); p.Produce(out); });
  if (r.bad()) { sx::fail("ends-normally"); return; }
  sx::check((int)out.l.size() == n, "number-of-subcones"); if ((int)out.l.size() != n) return;
  for (int k = 0; k < n; k++) { IM got = unList(out.l[k]->rays); std::vector<int> want; for (int i = 0; i < m; i++) if (ind[k][i]) want.push_back(i); sx::check(got.size() == want.size(), "number-of-rays"); if (got.size() != want.size()) return;
    for (int i : want) { Cond f(false); for (auto &g : got) { Cond e(true); for (int q = 0; q < d; q++) e = e && sx::cEq(g[q], R[i][q]); f = f || e; } sx::check(f, "same-rays"); } }
  sx::reach("read-back");
}
// the same polyhedron given in another way
static void style(const Cfg &c) {
  std::map<std::string, Int> in; Poly p = parsePoly(c, in); std::vector<long> lo = c.v("lo"), hi = c.v("hi"); std::string via = c.s("via"), extra = nl(c.s("extra")); Int want(0);
  Poly q = p; for (long j : c.v("plus")) { IV r(p.d + 1, Int(0)); r[j] = Int(1); q.rows.push_back(r); }
  want = countBox(q, lo, hi, c.n("dil", 1)); sx::assume(anyBox(q, lo, hi));
  auto text = [&]() { std::string sep = nl(c.s("sep", " ")), eol = nl(c.s("eol", "~")); std::ostringstream o; o << p.m() << sep << p.d + 1 << eol; for (auto &r : p.rows) { for (auto &x : r) o << x.str() << sep; o << eol; } if (p.eq.size() && c.s("linpos") != "own") { o << "linearity " << p.eq.size(); for (int e : p.eq) o << " " << e + 1; o << "\n"; } o << extra; return o.str(); };
  std::vector<std::string> a = {"count"}; for (auto &w : words(c.s("opt"))) a.push_back(w);
  auto pre = [&](const std::string &opt) { std::vector<std::string> b = {"polyhedron-to-cones"}; for (auto &w : words(opt)) b.push_back(w); b.push_back("--output-cones=C.txt"); b.push_back("in.hrep"); Args ar(b); Run r = runCode([&]() { p2c_main(ar.c(), ar.p()); }); return !r.bad(); };
  if (via == "file") { putFile("in.hrep", text()); a.push_back("in.hrep"); }
  else if (via == "cdd") { std::string h = cddHrep(p); if (c.s("linpos") == "end" && p.eq.size()) { size_t k = h.find("linearity"), e = h.find('\n', k); std::string l = h.substr(k, e - k + 1); h = h.substr(0, k) + h.substr(e + 1) + l; } putFile("in.ine", h); a.push_back("--cdd"); a.push_back("in.ine"); }
  else if (via == "cones") { putFile("in.hrep", text()); if (!pre(c.s("pre"))) { sx::fail("writes-cones"); return; } a.push_back("--input-vertex-cones=C.txt"); }
  else if (via == "homogcones") { putFile("in.hrep", text()); if (!pre("--homog " + c.s("pre"))) { sx::fail("writes-cones"); return; } a.push_back("--input-dual-homog-cones=C.txt"); }
  else if (via == "dualext" || via == "primext") {
    std::ostringstream o; IM rows; if (via == "dualext") for (auto &r : p.rows) { IV v; for (int j = 1; j <= p.d; j++) v.push_back(-r[j]); v.push_back(-r[0]); rows.push_back(v); } else rows = parseRows(c.s("pts"), in);
    if (c.n("listfmt")) { listCone *K = createListCone(); K->rays = mkList(rows); K->vertex = new Vertex(new rationalVector(p.d + 1)); printListConeToFile("C.txt", K, p.d + 1); a.push_back((via == "dualext" ? "--input-dual-homog-cones=" : "--input-primal-homog-cones=") + std::string("C.txt")); }
    else { o << "V-representation\nbegin\n" << rows.size() << " " << p.d + 2 << " integer\n"; for (auto &v : rows) { o << "0"; for (auto &x : v) o << " " << x.str(); o << "\n"; } o << "end\n"; putFile("C.ext", o.str()); a.push_back((via == "dualext" ? "--input-dual-homog-cone=" : "--input-primal-homog-cone=") + std::string("C.ext")); }
    if (c.s("sub").size()) { putFile("S.txt", nl(c.s("sub"))); a.push_back("--subcones=S.txt"); } }
  Args ar(a); CountAnswerContainer ans; Run r = runCode([&]() { ans = mainCountDriver(ar.c(), ar.p()); });
  std::string t; bool ok = false; Int v; if (getFile("numOfLatticePoints", t)) v = Int::parse(last(t), &ok);
  if (!ok) { sx::fail("gives-answer"); return; }
  sx::reach("counted"); sx::checkEq(v, want, "same-count"); if (!r.bad()) sx::checkEq(I(ans.numLaticePoints), want, "returned-count");
}
static void h() { Cfg c(sx::config()); std::string w = c.s("what"); if (w == "l2i" || w == "l2e" || w == "i2l") conv(c, w); else if (w == "cones") cones(c); else if (w == "sub") sub(c); else style(c); }
HARNESS_MAIN(h)
