// Exact arithmetic building blocks on symbolic values: rationals and rational vectors, number conversions, polynomial
// interpolation, Hermite and Smith forms, Taylor and Todd series, the expression trees of the substitution.
#include "vol.h"
#include "rf.h"
#include "cone.h"
#include "print.h"
#include "ramon.h"
#include "rational.h"
#include "convert.h"
#include "dual.h"
#include "preprocess.h"
#include "PolyTree.h"
#include "ExponentialSubst.h"
#include "barvinok/barvinok.h"
#include "genFunction/piped.h"
#include "genFunction/matrix_ops.h"
#include "todd/todd-expansion.h"
#include "todd/gmp_pow.h"
#include "interpolation/PolynomialInterpolation.h"
rationalVector *normalizeRationalVector(rationalVector *, int);
static IV nums(Cfg &c, const std::string &k, std::map<std::string, Int> &in) { return parseRows(c.s(k), in)[0]; }
// ---------------------------------------------------------------- rationals
static void canon(const Int &n, const Int &d, const std::string &l) { sx::check(sx::cLt(Int(0), d), l + "-denominator-positive"); sx::checkEq(sx::gcd(n, d), Int(1), l + "-lowest-terms"); }
static void eqR(const RationalNTL &r, const Rat &w, const std::string &l) { Int n = I(r.getNumerator()), d = I(r.getDenominator()); checkRat(Rat(n, d), w, l); canon(n, d, l); }
static void rat(Cfg &c, std::map<std::string, Int> &in) {
  IV a = nums(c, "a", in), b = nums(c, "b", in); std::string op = c.s("op"); sx::assume(!sx::cEq(a[1], Int(0)) && !sx::cEq(b[1], Int(0)));
  Rat A(a[0], a[1]), B(b[0], b[1]); RationalNTL x(Z(a[0]), Z(a[1])), y(Z(b[0]), Z(b[1])); const RationalNTL x0(x);
  if (op == "make") {
    eqR(x, A, "constructed"); eqR(RationalNTL(), Rat(0), "default"); int n = (int)sx::concretize(a[0]), d = (int)sx::concretize(a[1]);
    eqR(RationalNTL(Z(a[0]), d), A, "from-integer-and-int"); eqR(RationalNTL(n, Z(a[1])), A, "from-int-and-integer"); eqR(RationalNTL(n, d), A, "from-ints");
    eqR(RationalNTL(a[0].str(), a[1].str()), A, "from-two-texts"); eqR(RationalNTL(a[0].str() + "/" + a[1].str()), A, "from-text"); eqR(RationalNTL(a[0].str()), Rat(a[0]), "from-integer-text");
    eqR(RationalNTL(x.str()), A, "printed-and-read"); std::string sp = c.s("sp");
    for (const char *f : { "%s/%s", " %s / %s", "%s /%s ", "%s/ %s" }) { char buf[200]; snprintf(buf, 200, f, a[0].str().c_str(), a[1].str().c_str()); std::istringstream s(std::string(buf) + sp); RationalNTL r; s >> r; eqR(r, A, "read"); }
    { std::istringstream s(a[0].str() + "," + a[1].str()); RationalNTL r; s >> r; eqR(r, Rat(a[0]), "read-integer"); sx::check(s.peek() == ',', "read-stops-after-the-number"); }
    { Int p = sx::abs(a[0]); std::istringstream s("+" + p.str() + "/" + sx::abs(a[1]).str()); RationalNTL r; s >> r; eqR(r, Rat(p, sx::abs(a[1])), "read-with-plus"); }
    RationalNTL z; z = (long)n; eqR(z, Rat(a[0]), "assigned-long"); z = Z(a[1]); eqR(z, Rat(a[1]), "assigned-integer"); z = y; eqR(z, B, "assigned"); z = z; eqR(z, B, "assigned"); z.changeSign(); eqR(z, Rat(0) - B, "negated");
  } else if (op == "ring") {
    eqR(x + y, A + B, "sum"); eqR(x - y, A - B, "difference"); eqR(x * y, A * B, "product"); RationalNTL t(x); t += y; eqR(t, A + B, "sum"); t -= y; eqR(t, A, "difference"); t *= y; eqR(t, A * B, "product"); t = x; t.add(y); eqR(t, A + B, "sum"); t = x; t.add(Z(b[0]), Z(b[1])); eqR(t, A + B, "sum"); t = x; t.mult(y); eqR(t, A * B, "product"); t = x; t.mult(Z(b[0]), Z(b[1])); eqR(t, A * B, "product"); t = x; t.mult(Z(b[0])); eqR(t, A * Rat(b[0]), "product"); eqR(x * Z(b[0]), A * Rat(b[0]), "product"); t = x; t *= Z(b[0]); eqR(t, A * Rat(b[0]), "product"); int k = (int)sx::concretize(b[0]); eqR(x * k, A * Rat(b[0]), "product"); t = x; t *= k; eqR(t, A * Rat(b[0]), "product"); eqR(x, A, "operands-unchanged"); eqR(y, B, "operands-unchanged");
    t = x; t.add(t); eqR(t, A + A, "sum-with-itself"); t = x; t.mult(t); eqR(t, A * A, "product-with-itself"); t = x; t -= t; eqR(t, Rat(0), "difference-with-itself");
    vec_RationalNTL u, v; u.SetLength(3); v.SetLength(3); u[0] = x; u[1] = y; u[2] = x; v[0] = y; v[1] = y; v[2] = RationalNTL(3, 2); eqR(vec_RationalNTL::innerProduct(u, v), A * B + B * B + A * Rat(Int(3), Int(2)), "inner-product");
  } else if (op == "div") {
    sx::assume(!sx::cEq(b[0], Int(0))); eqR(x / y, A / B, "quotient"); RationalNTL t(x); t.div(y); eqR(t, A / B, "quotient"); eqR(x / Z(b[0]), A / Rat(b[0]), "quotient"); t = x; t.div(Z(b[0])); eqR(t, A / Rat(b[0]), "quotient"); t = y; t.div(t); eqR(t, Rat(1), "quotient-with-itself"); eqR(x, A, "operands-unchanged"); eqR(y, B, "operands-unchanged");
  } else if (op == "pow") {
    for (long e = -c.n("e", 3); e <= c.n("e", 3); e++) { if (e < 0) sx::assume(!sx::cEq(a[0], Int(0))); eqR(RationalNTL::power(x, e), rpow(A, e), "power"); RationalNTL t(x); t.power(e); eqR(t, rpow(A, e), "power"); } eqR(x, A, "operands-unchanged");
  } else if (op == "cmp") {
    bool e = a[0] * b[1] == b[0] * a[1]; sx::check((x == y) == e, "equal"); sx::check((x != y) == !e, "unequal"); bool f = a[0] == b[0] * a[1]; sx::check((x == Z(b[0])) == f, "equal-to-integer"); long k = sx::concretize(b[0]); sx::check((x == k) == f, "equal-to-long"); sx::check((x != k) == !f, "unequal-to-long");
  } else { sx::fail("unknown-op"); return; }
  if (!(x == x0)) sx::fail("operands-unchanged"); sx::reach("checked");
}
static void vec(Cfg &c, std::map<std::string, Int> &in) {
  IV n = nums(c, "n", in), d = nums(c, "d", in); int k = n.size(); for (auto &x : d) sx::assume(sx::cLt(Int(0), x)); std::string op = c.s("op");
  auto same = [&](const rationalVector &v, const Rat &f, const std::string &l) { for (int i = 0; i < k; i++) { Int q = I(v.denominators()[i]); sx::check(sx::cLt(Int(0), q), l + "-denominator-positive"); sx::checkFrac(I(v.numerators()[i]), q, n[i] * f.n, d[i] * f.d, l); } };
  auto scaled = [&](rationalVector *v, const Rat &f, const std::string &l) { ZZ s; vec_ZZ w = scaleRationalVectorToInteger(v, k, s); sx::check(sx::cLt(Int(0), I(s)), l + "-scale-positive"); for (int i = 0; i < k; i++) sx::checkFrac(I(w[i]), I(s), n[i] * f.n, d[i] * f.d, l); };
  rationalVector v(Zv(n), Zv(d));
  if (op == "scale") { scaled(&v, Rat(1), "scaled"); same(v, Rat(1), "kept"); Int L(1); for (int i = 0; i < k; i++) L = sx::lcm(L, d[i]); ZZ s; scaleRationalVectorToInteger(&v, k, s); sx::checkEq(I(s), L, "least-common-denominator");
    v.set_entry(0, Z(n[1]), Z(d[1]), true); v.set_entry(1, Z(n[0]), Z(d[0]), c.n("lazy")); std::swap(n[0], n[1]); std::swap(d[0], d[1]); same(v, Rat(1), "set"); scaled(&v, Rat(1), "scaled-after-set"); ZZ p, q; v.getEntry(1, p, q); sx::checkFrac(I(p), I(q), n[1], d[1], "entry"); v.set_numerator(0, Z(n[0] + Int(1))); n[0] = n[0] + Int(1); scaled(&v, Rat(1), "scaled-after-set"); v.set_denominator(1, Z(d[1] + Int(1))); d[1] = d[1] + Int(1); scaled(&v, Rat(1), "scaled-after-set");
    rationalVector *cp = copyRationalVector(&v); same(*cp, Rat(1), "copied"); scaled(cp, Rat(1), "copied"); delete cp; rationalVector u(Zv(n), Z(Int(6))); for (auto &x : d) x = Int(6); same(u, Rat(1), "common-denominator"); scaled(&u, Rat(1), "common-denominator");
  } else if (op == "canon") { canonicalizeRationalVector(&v, k); same(v, Rat(1), "canonical"); for (int i = 0; i < k; i++) canon(I(v.numerators()[i]), I(v.denominators()[i]), "canonical"); scaled(&v, Rat(1), "canonical-scaled");
  } else if (op == "mult") { IV f = nums(c, "f", in); sx::assume(sx::cLt(Int(0), f[1])); v.scalarMultiplication(Z(f[0]), Z(f[1])); same(v, Rat(f[0], f[1]), "multiplied"); for (int i = 0; i < k; i++) canon(I(v.numerators()[i]), I(v.denominators()[i]), "multiplied"); scaled(&v, Rat(f[0], f[1]), "multiplied-scaled");
  } else if (op == "norm") { rationalVector *w = normalizeRationalVector(&v, k); for (int i = 0; i < k; i++) sx::checkEq(I(w->denominators()[i]), Int(1), "normalized-is-integral"); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) sx::checkEq(I(w->numerators()[i]) * n[j] * d[i], I(w->numerators()[j]) * n[i] * d[j], "normalized-is-a-multiple"); for (int i = 0; i < k; i++) sx::check(sx::cLe(Int(0), I(w->numerators()[i]) * n[i]), "normalized-is-a-positive-multiple"); for (int i = 0; i < k; i++) { n[i] = I(w->numerators()[i]); d[i] = Int(1); } scaled(w, Rat(1), "normalized-scaled");
  } else if (op == "ray") { IV m = nums(c, "m", in), e = nums(c, "e", in); for (auto &x : e) sx::assume(sx::cLt(Int(0), x)); Cond z(true); for (int i = 0; i < k; i++) z = z && sx::cEq(m[i] * d[i], n[i] * e[i]); sx::assume(!z); rationalVector w(Zv(m), Zv(e)); IV r = Iv(constructRay(&v, &w, k)); Int g(0); for (auto &x : r) g = sx::gcd(g, x); sx::checkEq(g, Int(1), "ray-primitive"); IV y; Int P(1); for (int i = 0; i < k; i++) P = P * d[i] * e[i]; for (int i = 0; i < k; i++) y.push_back((m[i] * d[i] - n[i] * e[i]) * sx::fdiv(P, d[i] * e[i])); for (int i = 0; i < k; i++) { sx::check(sx::cLe(Int(0), r[i] * y[i]), "ray-points-forward"); for (int j = 0; j < k; j++) sx::checkEq(r[i] * y[j], r[j] * y[i], "ray-direction"); }
  } else { sx::fail("unknown-op"); return; }
  sx::reach("checked");
}
static void conv(Cfg &c, std::map<std::string, Int> &in) {
  IV a = nums(c, "a", in); Int s(1); for (long i = 0; i < c.n("shift"); i++) s = s * Int(2); Int v = a[0] * s + a[1]; if (c.n("conc", 1)) v = sx::concretizeBig(v);
  ZZ z = Z(v); mpz_class m = convert_ZZ_to_mpz(z); sx::checkEq(I(m), v, "to-mpz"); mpz_class m2(5); convert_ZZ_to_mpz(z, m2); sx::checkEq(I(m2), v, "to-mpz"); sx::checkEq(I(convert_mpz_to_ZZ(Mz(v))), v, "from-mpz"); sx::checkEq(I(convert_mpz_to_ZZ(m)), v, "there-and-back");
  mpq_class q = convert_ZZ_to_mpq(z); checkRat(R(q), Rat(v), "to-mpq"); sx::checkEq(I(convert_mpq_to_ZZ(q.get_mpq_t())), v, "from-mpq");
  mpz_vector w = convert_vec_ZZ_to_mpz_vector(Zv({ v, a[0], Int(0), -v })); sx::checkEq(I(w[0]), v, "vector"); sx::checkEq(I(w[1]), a[0], "vector"); sx::checkEq(I(w[2]), Int(0), "vector"); sx::checkEq(I(w[3]), -v, "vector"); sx::check(w.size() == 4, "vector");
  if (v <= Int(2147483647L) && v >= Int(-2147483647L)) sx::checkEq(Int((long)convert_ZZ_to_int(z)), v, "to-int");
  for (unsigned e = 0; e <= 3; e++) { Int p(1); for (unsigned i = 0; i < e; i++) p = p * v; sx::checkEq(I(pow(m, e)), p, "power"); Int d5(1); for (unsigned i = 0; i < e; i++) d5 = d5 * Int(5); checkRat(R(pow(Mq(v, Int(5)), e)), Rat(v, Int(1)).n == Int(0) ? (e ? Rat(0) : Rat(1)) : Rat(p, d5), "rational-power"); }
  { ZZ r; InnerProductModulo(r, Zv({ v, a[0] }), Zv({ a[1], v }), Z(Int(7))); sx::checkEq(I(r), sx::fmod(v * a[1] + a[0] * v, Int(7)), "inner-product-modulo"); }
  sx::reach("checked");
}
// ---------------------------------------------------------------- interpolation
static void interp(Cfg &c, std::map<std::string, Int> &in) {
  IV co = nums(c, "coef", in), xs = nums(c, "x", in); long cd = c.n("cd", 1), xd = c.n("xd", 1); int n = co.size(); std::vector<Rat> C, X;
  for (size_t i = 0; i < xs.size(); i++) for (size_t j = 0; j < i; j++) sx::assume(!sx::cEq(xs[i], xs[j]));
  for (auto &x : xs) X.push_back(Rat(c.n("symx") ? x : Int(sx::concretize(x)), Int(xd))); for (auto &x : co) C.push_back(Rat(x, Int(cd)));
  auto at = [&](const Rat &x) { Rat s(0); for (int i = n; i-- > 0;) s = s * x + C[i]; return s; };
  std::vector<mpq_class> r; PolynomialInterpolation p(n - 1);
  Run run = runCode([&]() { for (int i = 0; i < n; i++) { Rat f = at(X[i]); if (c.n("raw")) { p.addPoint(Mq(X[i].n, X[i].d), Mq(f.n * Int(6), f.d * Int(6))); } else p.addPoint(Mq(X[i].n, X[i].d), Mq(f.n, f.d)); }
    if (c.n("copy")) { PolynomialInterpolation q(0); q = p; r = q.solve(); } else r = p.solve(); });
  if (run.bad()) { sx::fail("ends-normally"); return; }
  sx::check((int)r.size() == n, "number-of-coefficients"); for (int i = 0; i < n && i < (int)r.size(); i++) checkRat(R(r[i]), C[i], "coefficient");
  Int y = sx::input("y", -4, 4); std::vector<mpq_class> pc; for (int i = 0; i < n; i++) pc.push_back(Mq(C[i].n, C[i].d)); checkRat(R(p.evaluatePoly(Mq(y, Int(3)), pc)), at(Rat(y, Int(3))), "evaluated"); sx::reach("solved");
}
// ---------------------------------------------------------------- Hermite and Smith forms
static IM matOf(const mat_ZZ &m) { IM r; for (long i = 0; i < m.NumRows(); i++) r.push_back(Iv(m[i])); return r; }
static mat_ZZ Zm(const IM &m) { mat_ZZ r; r.SetDims(m.size(), m[0].size()); for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m[0].size(); j++) r[i][j] = Z(m[i][j]); return r; }
static IM mulM(const IM &a, const IM &b) { IM r(a.size(), IV(b[0].size(), Int(0))); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) for (size_t k = 0; k < b.size(); k++) r[i][j] = r[i][j] + a[i][k] * b[k][j]; return r; }
static void unimod(const IM &m, const std::string &l) { Int d = detI(m); sx::check(sx::cEq(d, Int(1)) || sx::cEq(d, Int(-1)), l); }
static void hermite(Cfg &c, std::map<std::string, Int> &in) {
  IM A = parseRows(c.s("m"), in); int n = A.size(), m = A[0].size(); vec_ZZ S, U, rhs; S.SetLength(n * m); U.SetLength(n * n); rhs.SetLength(m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) S[i * m + j] = Z(A[i][j]); for (int j = 0; j < m; j++) rhs[j] = Z(Int(100 + j));
  int r = 0; Run run = runCode([&]() { r = ihermite(&S, &U, &rhs, m, n); }); if (run.bad()) { sx::fail("ends-normally"); return; }
  std::vector<int> perm; std::set<int> seen; for (int j = 0; j < m; j++) { long t = sx::concretize(I(rhs[j])) - 100; if (t < 0 || t >= m || seen.count(t)) { sx::fail("right-hand-side-permuted"); return; } seen.insert(t); perm.push_back(t); }
  IM H(n, IV(m)), V(n, IV(n)), P(n, IV(m)); for (int i = 0; i < n; i++) { for (int j = 0; j < m; j++) { H[i][j] = I(S[i * m + j]); P[i][j] = A[i][perm[j]]; } for (int j = 0; j < n; j++) V[i][j] = I(U[i * n + j]); }
  unimod(V, "transformation-unimodular"); IM Q = mulM(V, P); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) sx::checkEq(Q[i][j], H[i][j], "product-is-the-form");
  sx::check(r >= 0 && r <= n && r <= m, "rank"); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (i >= r || j < i) sx::checkEq(H[i][j], Int(0), "echelon-shape"); for (int i = 0; i < r && i < m; i++) sx::check(sx::cLt(Int(0), H[i][i]), "diagonal-positive"); sx::reach("computed");
}
static void smith(Cfg &c, std::map<std::string, Int> &in) {
  IM A = parseRows(c.s("m"), in); int n = A.size(); if (!c.n("singular")) sx::assume(!sx::cEq(detI(A), Int(0))); mat_ZZ L, Rm, D; BarvinokParameters P; Run run = runCode([&]() { D = SmithNormalForm(Zm(A), L, Rm, &P); }); if (run.bad()) { sx::fail("ends-normally"); return; }
  IM l = matOf(L), r = matOf(Rm), d = matOf(D); unimod(l, "left-unimodular"); unimod(r, "right-unimodular"); IM Q = mulM(mulM(l, A), r);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { sx::checkEq(Q[i][j], d[i][j], "product-is-the-form"); if (i != j) sx::checkEq(d[i][j], Int(0), "diagonal"); }
  for (int i = 0; i + 1 < n; i++) { bool z = d[i][i] == Int(0); if (z) sx::checkEq(d[i + 1][i + 1], Int(0), "divisibility"); else sx::checkEq(sx::fmod(d[i + 1][i + 1], d[i][i]), Int(0), "divisibility"); }
  Int p(1); for (int i = 0; i < n; i++) { sx::check(sx::cLe(Int(0), d[i][i]), "diagonal-nonnegative"); p = p * d[i][i]; } sx::checkEq(p, sx::abs(detI(A)), "determinant"); sx::reach("computed");
}
static void facetMat(Cfg &c, std::map<std::string, Int> &in) {
  IM A = parseRows(c.s("m"), in); int n = A.size(); sx::assume(!sx::cEq(detI(A), Int(0))); listCone *K = createListCone(); listVector **t = &K->rays; for (auto &r : A) { Int g(0); for (auto &e : r) g = sx::gcd(g, e); sx::assume(sx::cEq(g, Int(1))); *t = new listVector(Zv(r)); t = &(*t)->rest; }
  mat_ZZ F1, F2, C; Run run = runCode([&]() { computeDetAndFacetsOfSimplicialCone(K, n); F1 = createFacetMatrix(K, n, n); F2 = createFacetMatrix2(K, n, n); C = createConeDecMatrix(K, n, n); }); if (run.bad()) { sx::fail("ends-normally"); return; }
  IM f1 = matOf(F1), f2 = matOf(F2), r = matOf(C); Int D = detI(A), aD = sx::abs(D); sx::checkEq(sx::abs(I(K->determinant)), aD, "determinant");
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { sx::checkEq(r[i][j], A[i][j], "ray-matrix"); Int p(0), q(0); for (int k = 0; k < n; k++) { p = p + f1[i][k] * A[j][k]; q = q + f2[i][k] * A[j][k]; } sx::checkEq(p, i == j ? -I(K->determinant) : Int(0), "facet-matrix"); sx::checkEq(q, i == j ? -aD : Int(0), "facet-matrix-abs"); }
  listVector *lv = transformArrayBigVectorToListVector(C, n, n); IM b; for (; lv; lv = lv->rest) b.push_back(Iv(lv->first)); sx::check((int)b.size() == n, "list-of-rows"); for (int i = 0; i < n && i < (int)b.size(); i++) for (int j = 0; j < n; j++) sx::checkEq(b[i][j], A[i][j], "list-of-rows"); IM tr = matOf(convert_listVector_to_mat_ZZ(K->rays)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sx::checkEq(tr[i][j], A[j][i], "columns"); sx::reach("computed");
}
// ---------------------------------------------------------------- Taylor and Todd series
static std::vector<Rat> expS(const Rat &x, int n) { std::vector<Rat> r; Rat t(1); for (int i = 0; i <= n; i++) { r.push_back(t); t = t * x * Rat(Int(1), Int(i + 1)); } return r; }
static std::vector<Rat> mulS(const std::vector<Rat> &a, const std::vector<Rat> &b) { size_t n = std::min(a.size(), b.size()); std::vector<Rat> r(n); for (size_t k = 0; k < n; k++) for (size_t i = 0; i <= k; i++) r[k] = r[k] + a[i] * b[k - i]; return r; }
static std::vector<Rat> RS(const mpq_vector &v) { std::vector<Rat> r; for (auto &x : v) r.push_back(R(x)); return r; }
static void isOne(const std::vector<Rat> &s, const std::string &l) { for (size_t i = 0; i < s.size(); i++) checkRat(s[i], Rat(i == 0), l); }
static void todd(Cfg &c, std::map<std::string, Int> &in) {
  std::string op = c.s("op"); int n = c.n("order", 4);
  if (op == "exp") { std::vector<Rat> e = RS(taylor_exponential(n)), w = expS(Rat(1), n); sx::check((int)e.size() == n + 1, "order"); for (int i = 0; i <= n && i < (int)e.size(); i++) checkRat(e[i], w[i], "exponential"); std::vector<Rat> t = RS(taylor_for_todd(n)), q = expS(Rat(1), n + 1); q.erase(q.begin()); for (auto &x : q) x = Rat(0) - x; sx::check((int)t.size() == n + 1, "order"); isOne(mulS(t, q), "todd-series"); }
  else if (op == "recip") { IV a = nums(c, "a", in); sx::assume(!sx::cEq(a[0], Int(0))); mpq_vector v; std::vector<Rat> w; for (auto &x : a) { v.push_back(Mq(x, Int(c.n("den", 1)))); w.push_back(Rat(x, Int(c.n("den", 1)))); } std::vector<Rat> r = RS(taylor_reciprocal(v)); sx::check(r.size() == w.size(), "order"); isOne(mulS(r, w), "reciprocal"); }
  else if (op == "prod") { IM A = parseRows(c.s("a"), in); std::vector<mpq_vector> f; std::vector<Rat> w; bool first = true; for (auto &r : A) { mpq_vector v; std::vector<Rat> u; for (auto &x : r) { v.push_back(Mq(x, Int(c.n("den", 1)))); u.push_back(Rat(x, Int(c.n("den", 1)))); } f.push_back(v); w = first ? u : mulS(w, u); first = false; } std::vector<Rat> p = RS(taylor_product(f)); sx::check(p.size() == w.size(), "order"); for (size_t i = 0; i < p.size() && i < w.size(); i++) checkRat(p[i], w[i], "product"); f.clear(); p = RS(taylor_product(f)); sx::check(p.size() == 1, "empty-product"); if (p.size()) checkRat(p[0], Rat(1), "empty-product"); }
  else if (op == "eval") { IV x = nums(c, "x", in); mpz_vector v; for (auto &e : x) v.push_back(Mz(e)); std::vector<Rat> t = RS(evaluate_todd(v)); int d = x.size(); sx::check((int)t.size() == d + 1, "order");   // times prod (1-exp(x t))/(x t) is 1
    std::vector<Rat> s = t; for (auto &e : x) { std::vector<Rat> q(d + 1); Rat f(-1), pw(1); for (int k = 0; k <= d; k++) { f = f * Rat(Int(1), Int(k + 1)); q[k] = f * pw; pw = pw * Rat(e); } s = mulS(s, q); } isOne(s, "todd-polynomials"); }
  else if (op == "residue") {   // constant term of coef * sum exp(<l,p> t) / prod (1 - exp(<l,r> t))
    IM rays = parseRows(c.s("rays"), in); IV p = nums(c, "p", in), l = nums(c, "l", in); int d = rays.size(); Int D = detI(rays); sx::assume(sx::cEq(D, Int(1)) || sx::cEq(D, Int(-1)));
    auto dot = [&](const IV &a) { Int s(0); for (int i = 0; i < d; i++) s = s + a[i] * l[i]; return s; }; for (auto &r : rays) sx::assume(!sx::cEq(dot(r), Int(0)));
    listCone *K = createListCone(); K->coefficient = c.n("sign", 1); listVector **t = &K->rays; for (auto &r : rays) { *t = new listVector(Zv(r)); t = &(*t)->rest; } K->vertex = new Vertex(new rationalVector(Zv(p), Z(Int(1)))); BarvinokParameters P; P.Number_of_Variables = d; mpq_class got; mpq_vector wt;
    Run run = runCode([&]() { computeDetAndFacetsOfSimplicialCone(K, d); got = computeExponentialResidue_Single(Zv(l), K, d, &P); wt = computeExponentialResidueWeights(Zv(l), K, d); }); if (run.bad()) { sx::fail("ends-normally"); return; }
    // E * prod S_i with E = exp(<l,p> t), 1/(1-exp(x t)) = Todd series / (x t)
    std::vector<Rat> E = expS(Rat(dot(p)), d), tdS; { std::vector<Rat> q = expS(Rat(1), d + 1); q.erase(q.begin()); tdS.assign(d + 1, Rat()); tdS[0] = Rat(1); for (int k = 1; k <= d; k++) { Rat s(0); for (int j = 1; j <= k; j++) s = s + q[j] * tdS[k - j]; tdS[k] = Rat(0) - s; } }   // t/(exp t - 1)
    std::vector<Rat> T(1, Rat(1)); T.resize(d + 1); Int prod(1); for (auto &r : rays) { Int x = dot(r); prod = prod * x; std::vector<Rat> u(d + 1); Rat pw(-1); for (int k = 0; k <= d; k++) { u[k] = tdS[k] * pw; pw = pw * Rat(x); } T = mulS(T, u); }
    std::vector<Rat> S = mulS(E, T); checkRat(R(got), S[d] * Rat(Int(c.n("sign", 1)), prod), "residue"); sx::check((int)wt.size() == d + 1, "weights"); Rat f(1); for (int k = 0; k <= d && k < (int)wt.size(); k++) { if (k) f = f * Rat(Int(1), Int(k)); checkRat(R(wt[k]), T[d - k] * f * Rat(Int(1), prod), "weights"); }
  } else { sx::fail("unknown-op"); return; }
  sx::reach("computed");
}
static PolyTree_Node *tn(const Int &a, const Int &e) { T_Node *t = new T_Node; t->Node_Type = POLYTREE_T_NODE; t->Coefficient = Z(a); t->Exponent = Z(e); t->Number_of_Children = 0; return t; }
static PolyTree_Node *node(int type, std::vector<PolyTree_Node *> ch, int n = -1) { PolyTree_Node *p = new PolyTree_Node; p->Node_Type = type; p->Children = new PolyTree_Node *[ch.size()]; for (size_t i = 0; i < ch.size(); i++) p->Children[i] = ch[i]; p->Number_of_Children = n >= 0 ? n : ch.size(); p->Taylor_Expansion_Result = new ZZ[64]; return p; }
// polynomials in t: every polynomial is a sum of monomials a*t^e
static void tree(Cfg &c, std::map<std::string, Int> &in) {
  std::string op = c.s("op"); int D = c.n("deg", 3); IM A = parseRows(c.s("a"), in); std::vector<PolyTree_Node *> f; std::vector<std::vector<Int>> w;
  for (auto &r : A) { std::vector<PolyTree_Node *> m; std::vector<Int> u(D + 1, Int(0)); for (size_t i = 0; i < r.size(); i += 2) { m.push_back(tn(r[i], r[i + 1])); for (int k = 0; k <= D; k++) u[k] = u[k] + sx::ite(sx::cEq(r[i + 1], Int(k)), r[i], Int(0)); } for (auto x : m) x->Taylor_Expansion_Result = new ZZ[64]; f.push_back(m.size() == 1 && c.n("bare") ? m[0] : node(POLYTREE_ADD, m)); w.push_back(u); }
  auto mul = [&](const std::vector<Int> &a, const std::vector<Int> &b) { std::vector<Int> r(D + 1, Int(0)); for (int i = 0; i <= D; i++) for (int j = 0; i + j <= D; j++) r[i + j] = r[i + j] + a[i] * b[j]; return r; };
  long ten = c.n("ten", 1000); ZZ tz = Z(Int(ten)); Taylor_Parameters P; P.Degree_of_Expansion = D; P.Ten_Power = &tz; P.Result = new ZZ[D + 1]; std::vector<Int> want;
  PolyTree_Node *e = 0; if (op == "add") { e = node(POLYTREE_ADD, f); want.assign(D + 1, Int(0)); for (auto &u : w) for (int k = 0; k <= D; k++) want[k] = want[k] + u[k]; } else if (op == "mul") { e = node(POLYTREE_MUL, f); want = w[0]; for (size_t i = 1; i < w.size(); i++) want = mul(want, w[i]); } else if (op == "exp") { int k = c.n("k", 2); e = node(POLYTREE_EXP, { f[0] }, k); want = w[0]; for (int i = 1; i < k; i++) want = mul(want, w[0]); } else if (op == "div") { e = node(POLYTREE_DIV, f); sx::assume(!sx::cEq(w[1][0], Int(0))); } else { sx::fail("unknown-op"); return; }
  Run run = runCode([&]() { e->Taylor_Expansion(&P); }); if (run.bad()) { sx::fail("ends-normally"); return; }
  auto judge = [&]() { if (op != "div") { for (int k = 0; k <= D; k++) sx::checkEq(I(P.Result[k]), want[k], "expansion"); return; }
    std::vector<Int> N(D + 1); Int b0 = w[1][0]; for (int k = 0; k <= D; k++) { Int s = w[0][k]; for (int i = 0; i < k; i++) s = s * b0; Int bp(1); for (int j = 1; j <= k; j++) { s = s - w[1][j] * N[k - j] * bp; bp = bp * b0; } N[k] = s; }   // q_k = N_k / b0^(k+1)
    Int bp = b0; for (int k = 0; k <= D; k++) { Int t = I(P.Result[k]) * bp - N[k] * Int(ten), m = sx::abs(bp); sx::check(sx::cLt(-m, t) && sx::cLt(t, m), "quotient-to-the-stated-accuracy"); bp = bp * b0; } };
  judge(); Run run2 = runCode([&]() { e->Taylor_Expansion(&P); }); if (run2.bad()) { sx::fail("ends-normally"); return; } judge(); sx::reach("computed");
}
static void h() {
  Cfg c(sx::config()); std::map<std::string, Int> in; std::string w = c.s("what");
  if (w == "rat") rat(c, in); else if (w == "vec") vec(c, in); else if (w == "conv") conv(c, in); else if (w == "interp") interp(c, in); else if (w == "hermite") hermite(c, in); else if (w == "smith") smith(c, in); else if (w == "facets") facetMat(c, in); else if (w == "todd") todd(c, in); else if (w == "tree") tree(c, in); else sx::fail("unknown-what");
}
HARNESS_MAIN(h)
