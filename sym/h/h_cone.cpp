// Single cones: dualization, irrationalization, signed decomposition, triangulation and parallelepipeds, called on the
// real functions with symbolic rays and vertices; identities of sets are checked at a symbolic point.
#include "vol.h"
#include <climits>
#include "cone.h"
#include "print.h"
#include "dual.h"
#include "Irrational.h"
#include "barvinok/barvinok.h"
#include "barvinok/dec.h"
#include "triangulation/triangulate.h"
#include "genFunction/piped.h"
static listVector *mkList(const IM &m) { listVector *l = 0, **t = &l; for (auto &r : m) { *t = new listVector(Zv(r)); t = &(*t)->rest; } return l; }
static IM unList(listVector *l) { IM m; for (; l; l = l->rest) m.push_back(Iv(l->first)); return m; }
static IM conc(const IM &m) { IM r; for (auto &x : m) { r.push_back({}); for (auto &e : x) r.back().push_back(Int(sx::concretize(e))); } return r; }
static Int dot(const IV &a, const IV &b) { Int s(0); for (size_t i = 0; i < a.size(); i++) s = s + a[i] * b[i]; return s; }
// lambda_i * |det| of x in the basis R
static IV coords(const IM &R, const IV &x) { IV l; Int D = detI(R); bool neg = sx::isNeg(D); for (size_t i = 0; i < R.size(); i++) { IM M = R; M[i] = x; Int t = detI(M); l.push_back(neg ? -t : t); } return l; }
static Cond nonneg(const IV &l) { Cond c(true); for (auto &x : l) c = c && sx::cLe(Int(0), x); return c; }
static Cond nonzero(const IV &l) { Cond c(true); for (auto &x : l) c = c && !sx::cEq(x, Int(0)); return c; }
static void subsets(int n, int k, std::function<void(const std::vector<int> &)> f) { std::vector<int> s(k); std::function<void(int, int)> rec = [&](int i, int from) { if (i == k) { f(s); return; } for (int j = from; j < n; j++) { s[i] = j; rec(i + 1, j + 1); } }; rec(0, 0); }
// membership in the cone generated by R (any number of rays, full-dimensional)
static Cond inCone(const IM &R, const IV &x) { int d = x.size(); Cond c(false); subsets(R.size(), d, [&](const std::vector<int> &s) { IM M; for (int i : s) M.push_back(R[i]); if (sx::isZero(detI(M))) return; c = c || nonneg(coords(M, x)); }); return c; }
static IV symPoint(int d, long n) { IV x; for (int i = 0; i < d; i++) x.push_back(sx::input("x" + std::to_string(i), -n, n)); return x; }
static bool primitive(const IV &v) { Int g(0); for (auto &e : v) g = sx::gcd(g, e); return g == Int(1); }
// the first draws of the C library generator are chosen by the solver (rnd=K: K equally likely values), the others come from a fixed sequence
static int drawK = 0, drawN = 0, draws = 0; static unsigned long drawS = 1;
static int draw() { if (draws < drawN) { std::string n = "rnd" + std::to_string(draws++); Int v = sx::input(n, 0, drawK - 1); long k = 0; while (k + 1 < drawK && !(v == Int(k))) k++; return (int)((2147483648UL * k + 1073741824UL) / drawK); } drawS = drawS * 6364136223846793005UL + 1442695040888963407UL; return (drawS >> 33) & 0x7fffffff; }
#ifdef rand
extern int (*sx_rand_hook)();
static void hookRand() { sx_rand_hook = draw; }
#else
extern "C" int rand() noexcept { return draw(); }
static void hookRand() {}
#endif
int triangulate_main(int, char **);
static void h() {
  Cfg c(sx::config()); std::map<std::string, Int> in; IM R = parseRows(c.s("rays"), in); int d = R[0].size(); std::string what = c.s("what");
  for (auto &r : R) { Int g(0); for (auto &e : r) g = sx::gcd(g, e); sx::assume(sx::cEq(g, Int(1))); }
  if ((int)R.size() == d) sx::assume(!sx::cEq(detI(R), Int(0)));
  else for (size_t i = 0; i < R.size(); i++) { IM O = R; O.erase(O.begin() + i); sx::assume(!inCone(O, R[i])); }   // every ray is extreme (the configurations are pointed by construction)
  IV v(d, Int(0)); Int den(1);
  if (c.s("v").size()) { v = parseRows(c.s("v"), in)[0]; den = Int(c.n("den", 1)); }
  BarvinokParameters P; P.Number_of_Variables = d; P.File_Name = "in"; P.max_determinant = c.n("maxdet", 1);
  if (c.s("dual").size()) P.dualization = c.s("dual") == "cdd" ? BarvinokParameters::DualizationWithCdd : BarvinokParameters::DualizationWith4ti2;
  if (c.s("tri").size()) P.triangulation = triangulation_type_from_name(c.s("tri").c_str());
  prescribed_height_data hd; vec_ZZ hts;
  if (c.s("ht").size()) { IV hv = parseRows(c.s("ht"), in)[0]; hts = Zv(hv); hd.special_rays = mkList(R); hd.special_heights = &hts; P.triangulation_prescribed_height_data = &hd; }
  listCone *K = createListCone(); K->coefficient = 1; K->rays = mkList(R); K->vertex = new Vertex(new rationalVector(Zv(v), Z(den)));
  long N = c.n("box", 50); hookRand(); drawK = c.n("rnd"); drawN = drawK ? c.n("draws", R.size()) : 0; drawS = c.n("seed", 1); if (c.n("maxh")) P.triangulation_max_height = c.n("maxh"); if (c.s("bias").size()) P.triangulation_bias = c.n("bias");
  auto vf = [&](const IV &f) { return sx::fdiv(dot(f, v), den); };
  if (what == "dual") {
    Run r = runCode([&]() { dualizeCone(K, d, &P); }); if (r.bad()) { sx::fail("ends-normally"); return; }
    IM F = unList(K->rays), B = unList(K->facets); sx::reach("dualized");
    for (auto &f : F) { bool p = primitive(f); if (!p) sx::fail("facets-primitive"); }
    for (size_t i = 0; i < F.size(); i++) for (auto &r : R) sx::check(sx::cLe(dot(F[i], r), Int(0)), "facet-normal-is-valid");
    sx::check(B.size() == R.size(), "original-rays-kept");
    for (size_t i = 0; i < B.size() && i < R.size(); i++) for (int j = 0; j < d; j++) sx::checkEq(B[i][j], R[i][j], "original-rays-kept");
    if ((int)R.size() == d) {
      sx::check(F.size() == R.size(), "simplicial-facet-count");
      for (size_t i = 0; i < F.size(); i++) for (size_t j = 0; j < R.size(); j++) { Int p = dot(F[i], R[j]); if (i != j) sx::checkEq(p, Int(0), "facet-contains-other-rays"); else { sx::check(sx::cLt(p, Int(0)), "facet-opposite-its-ray"); sx::checkEq(-p, I(K->facet_divisors[i]), "facet-divisor-is-the-height"); } }
      sx::checkEq(sx::abs(I(K->dual_determinant)), sx::abs(detI(R)), "index-of-original"); sx::checkEq(sx::abs(I(K->determinant)), sx::abs(detI(F)), "index-of-dual");
    }
    IM Fc = conc(F), Rc = conc(R); IV x = symPoint(d, N); Cond all(true); for (auto &f : Fc) all = all && sx::cLe(dot(f, x), Int(0));
    Cond ic = inCone(Rc, x); sx::check((all && ic) || (!all && !ic), "facets-describe-the-cone");
    Run r2 = runCode([&]() { dualizeCone(K, d, &P); }); if (r2.bad()) { sx::fail("ends-normally"); return; }
    IM R2 = unList(K->rays), F2 = unList(K->facets); sx::check(R2.size() == R.size() && F2.size() == F.size(), "twice-gives-back");
    for (size_t i = 0; i < R2.size() && i < R.size(); i++) for (int j = 0; j < d; j++) sx::checkEq(R2[i][j], R[i][j], "twice-gives-back");
    if (c.n("again")) {   // dualize the facets from scratch: the original rays in some order
      listCone *L = createListCone(); L->coefficient = 1; L->rays = mkList(F); L->vertex = new Vertex(new rationalVector(Zv(v), Z(den)));
      Run r3 = runCode([&]() { dualizeCone(L, d, &P); }); if (r3.bad()) { sx::fail("ends-normally"); return; }
      if (getenv("HC_DUMP")) for (auto &q : conc(unList(L->rays))) { fprintf(stderr, "ray"); for (auto &e : q) fprintf(stderr, " %s", e.str().c_str()); fprintf(stderr, "\n"); }
      IM G = conc(unList(L->rays)); std::multiset<std::string> a, b; auto key = [](const IV &q) { std::string s; for (auto &e : q) s += e.str() + ","; return s; };
      for (auto &q : G) a.insert(key(q)); for (auto &q : Rc) b.insert(key(q)); sx::check(a == b, "dual-of-dual-has-the-original-rays");
    }
    return;
  }
  if (what == "irr") {
    Run r = runCode([&]() { if (c.n("dualfirst", 1)) { dualizeCone(K, d, &P); dualizeCone(K, d, &P); } irrationalizeCone(K, d); });
    if (r.bad()) { sx::fail("ends-normally"); return; } sx::reach("irrationalized");
    IM F = unList(K->facets); IM R2 = unList(K->rays); for (size_t i = 0; i < R.size(); i++) for (int j = 0; j < d; j++) sx::checkEq(R2[i][j], R[i][j], "rays-unchanged");
    vec_ZZ nm = K->vertex->vertex->numerators(), dn = K->vertex->vertex->denominators(); Int L(1); for (int i = 0; i < d; i++) { Int q = I(dn[i]); sx::check(sx::cLt(Int(0), q), "denominator-positive"); L = sx::lcm(L, q); }
    IV w; for (int i = 0; i < d; i++) w.push_back(I(nm[i]) * sx::fdiv(L, I(dn[i])));
    for (auto &f : F) { Int s = dot(f, w); sx::check(!sx::cEq(sx::fmod(s, L), Int(0)), "no-lattice-point-on-the-boundary"); sx::checkEq(sx::fdiv(s, L), vf(f), "same-integer-points"); }
    return;
  }
  if (what == "piped") {
    Run r = runCode([&]() { computeDetAndFacetsOfSimplicialCone(K, d); computePointsInParallelepiped(K, d, &P); });
    if (r.bad()) { sx::fail("ends-normally"); return; }
    IM pts = unList(K->latticePoints); Int D = sx::abs(detI(R)); sx::reach("enumerated");
    sx::checkEq(Int((long)pts.size()), D, "number-of-points-is-the-index");
    for (auto &p : pts) { IV q; for (int j = 0; j < d; j++) q.push_back(p[j] * den - v[j]); IV l = coords(R, q); for (auto &t : l) { sx::check(sx::cLe(Int(0), t) && sx::cLt(t, D * den), "points-lie-in-the-half-open-parallelepiped"); } }
    Cond dis(true); for (size_t i = 0; i < pts.size(); i++) for (size_t j = 0; j < i; j++) { Cond eq(true); for (int k = 0; k < d; k++) eq = eq && sx::cEq(pts[i][k], pts[j][k]); dis = dis && !eq; } sx::check(dis, "points-distinct");
    if (c.s("g").size()) {
      IV g = parseRows(c.s("g"), in)[0]; listCone *C2 = copyCone(K); freeListVector(C2->latticePoints); C2->latticePoints = 0;
      Run r2 = runCode([&]() { computeLatticePointsScalarProducts(C2, d, Zv(g), &P); }); if (r2.bad()) { sx::fail("ends-normally"); return; }
      IV s = Iv(C2->lattice_points_scalar_products); sx::check(s.size() == pts.size(), "number-of-scalar-products"); IV e; for (auto &p : pts) e.push_back(dot(g, p));
      for (size_t i = 0; i < s.size() && e.size() == s.size(); i++) { Int a(0), b(0); for (size_t j = 0; j < s.size(); j++) { a = a + sx::ite(sx::cEq(s[i], s[j]), Int(1), Int(0)); b = b + sx::ite(sx::cEq(s[i], e[j]), Int(1), Int(0)); } sx::checkEq(a, b, "scalar-products-of-the-points"); }
    }
    return;
  }
  if (what == "tri") {
    listCone *T = 0; Run r;
    if (c.n("prog")) {   // the triangulate program, on a LattE cone file or a cdd .ext file
      std::string fn = c.n("prog") == 2 ? "in.ext" : "in.cone"; if (c.n("prog") == 1) { std::ofstream o(fn); printConeToFile(o, K, d); } else { std::string t = "V-representation\nbegin\n " + std::to_string(R.size()) + " " + std::to_string(d + 1) + " integer\n"; for (auto &q : R) { t += " 0"; for (auto &e : q) t += " " + e.str(); t += "\n"; } putFile(fn, t + "end\n"); }
      std::vector<std::string> a = {"triangulate"}; for (auto &w : words(c.s("opt"))) a.push_back(w); a.push_back(fn); Args ar(a); r = runCode([&]() { triangulate_main(ar.c(), ar.p()); }); if (!r.bad()) T = readListConeFromFile("triangulation");
    } else r = runCode([&]() { T = triangulateCone(K, d, &P); });
    if (r.bad()) { sx::fail("ends-normally"); return; } sx::reach("triangulated");
    if (getenv("HC_DUMP")) for (listCone *t = T; t; t = t->rest) { for (listVector *l = t->rays; l; l = l->rest) fprintf(stderr, "(%s)", [&] { std::string s; for (auto &e : Iv(l->first)) s += " " + e.str(); return s; }().c_str()); fprintf(stderr, " coef %d\n", t->coefficient); }
    IM Rc = conc(R); std::vector<IM> S; std::set<std::string> rs; auto key = [](const IV &q) { std::string s; for (auto &e : q) s += e.str() + ","; return s; }; for (auto &q : Rc) rs.insert(key(q));
    for (listCone *t = T; t; t = t->rest) { IM M = conc(unList(t->rays)); sx::check((int)M.size() == d, "pieces-simplicial"); if ((int)M.size() != d) return; bool z = sx::isZero(detI(M)); sx::check(!z, "pieces-full-dimensional"); if (z) return; bool known = true; for (auto &q : M) known = known && rs.count(key(q)); if (c.s("tri") != "boundary") sx::check(known, "pieces-use-the-given-rays"); S.push_back(M); sx::check(t->coefficient == 1 || c.s("tri") == "boundary", "coefficient-one"); }
    IV x = symPoint(d, N); Int sum(0); Cond gen(true);
    { listCone *t = T; for (auto &M : S) { IV l = coords(M, x); gen = gen && nonzero(l); sum = sum + Int(t->coefficient) * sx::ite(nonneg(l), Int(1), Int(0)); t = t->rest; } }
    sx::assume(gen); sx::checkEq(sum, sx::ite(inCone(Rc, x), Int(1), Int(0)), "pieces-dissect-the-cone");
    return;
  }
  if (what == "dec") {
    std::string m = c.s("mode", "dual"); listCone *T = 0;
    P.decomposition = m == "dual" ? BarvinokParameters::DualDecomposition : m == "irr" ? BarvinokParameters::IrrationalPrimalDecomposition : BarvinokParameters::IrrationalAllPrimalDecomposition;
    Run r = runCode([&]() { if (m == "all") { if ((int)R.size() != d) { dualizeCone(K, d, &P); dualizeCone(K, d, &P); } irrationalizeCones(K, d); } T = decomposeCones(K, m != "all", P); });
    if (r.bad()) { sx::fail("ends-normally"); return; } sx::reach("decomposed");
    IM Rc = conc(R); IV x = symPoint(d, N); Int sum(0); Cond gen(true);
    for (listCone *t = T; t; t = t->rest) {
      IM M = conc(unList(t->rays)); sx::check((int)M.size() == d, "pieces-simplicial"); if ((int)M.size() != d) return; Int D = sx::abs(detI(M)); bool z = sx::isZero(D); sx::check(!z, "pieces-full-dimensional"); if (z) return;
      if (P.max_determinant) sx::check(sx::cLe(D, Int(P.max_determinant)), "index-bounded"); sx::check(t->coefficient == 1 || t->coefficient == -1, "coefficient-is-a-sign");
      sx::checkEq(sx::abs(I(t->determinant)), D, "stored-index");
      IM F = conc(unList(t->facets)); sx::check((int)F.size() == d, "facets-stored"); for (size_t i = 0; i < F.size(); i++) for (int j = 0; j < d; j++) { Int p = dot(F[i], M[j]); sx::check((int)i == j ? p < Int(0) : p == Int(0), "facets-stored"); }
      vec_ZZ nm = t->vertex->vertex->numerators(), dn = t->vertex->vertex->denominators();
      if (m == "dual") {   // compare the polar cones
        Cond in2(true); for (auto &q : M) { Int p = dot(q, x); gen = gen && !sx::cEq(p, Int(0)); in2 = in2 && sx::cLe(p, Int(0)); } sum = sum + Int(t->coefficient) * sx::ite(in2, Int(1), Int(0));
        for (int i = 0; i < d; i++) sx::checkEq(I(nm[i]) * den, v[i] * I(dn[i]), "vertex-kept");
      } else {             // the integer point x in the shifted cones, exactly
        Cond in2(true); Int L(1); for (int i = 0; i < d; i++) L = sx::lcm(L, I(dn[i])); IV w; for (int i = 0; i < d; i++) w.push_back(I(nm[i]) * sx::fdiv(L, I(dn[i])));
        for (auto &f : F) in2 = in2 && sx::cLe(dot(f, x), sx::fdiv(dot(f, w), L)); sum = sum + Int(t->coefficient) * sx::ite(in2, Int(1), Int(0));
        for (auto &f : F) sx::check(!sx::cEq(sx::fmod(dot(f, w), L), Int(0)), "no-lattice-point-on-the-boundary");
      }
    }
    Cond in0(true);
    if (m == "dual") { for (auto &q : Rc) in0 = in0 && sx::cLe(dot(q, x), Int(0)); sx::assume(gen); }
    else { IV y; for (int i = 0; i < d; i++) y.push_back(x[i] * den - v[i]); in0 = inCone(Rc, y); }
    sx::checkEq(sum, sx::ite(in0, Int(1), Int(0)), "signed-sum-is-the-cone");
    return;
  }
  sx::fail("unknown-what");
}
HARNESS_MAIN(h)
