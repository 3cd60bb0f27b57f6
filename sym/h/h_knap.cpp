// Knapsack quasi-polynomials: the printed coefficients, evaluated at a symbolic right-hand side, are the true ones.
#include "vol.h"
#include "top-knapsack/TopKnapsack.h"
#include "top-knapsack/PeriodicFunction.h"
int knap_main(int, char **);
// ---- printed expressions: numbers, ( a op b ), ( MOD( t * (q), 1 ) ); period: a common multiple of the denominators
struct KP { const std::string &s; size_t p; bool ok = true; Int t; long L; std::map<std::string, Rat> *names; bool powT = false; KP(const std::string &x, const Int &tt, long l, std::map<std::string, Rat> *n = 0) : s(x), p(0), t(tt), L(l), names(n) {}
  void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; } bool is(const std::string &x) { ws(); return s.compare(p, x.size(), x) == 0; } bool eat(const std::string &x) { if (is(x)) { p += x.size(); return true; } return false; } void need(const std::string &x) { if (!eat(x)) ok = false; }
  Rat num() { ws(); size_t b = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; bool o = false; Int v = b < p ? Int::parse(s.substr(b, p - b), &o) : Int(0); if (!o) ok = false; return Rat(v); }
  Rat atom() { if (!ok) return Rat(0); ws(); if (eat("-")) return Rat(0) - atom(); if (eat("(")) { Rat r = expr(); need(")"); return r; }
    if (eat("MOD(") || eat("Frac(")) { bool fr = s[p - 2] == 'c'; if (!eat("t")) need("T"); need("*"); need("("); Rat q = expr(); need(")"); if (!fr) { need(","); need("1"); } need(")"); Int n = q.n, d = q.d; if (sx::isNeg(d)) { n = -n; d = -d; } sx::check(sx::cEq(sx::fmod(Int(L) * n, d), Int(0)), "period-divides-the-lcm"); return Rat(sx::fmod(t * n, d), d); }
    if (is("coeff") && names) { size_t b = p; while (p < s.size() && isalnum((unsigned char)s[p])) p++; auto it = names->find(s.substr(b, p - b)); if (it == names->end()) { ok = false; return Rat(0); } return it->second; }
    if (names && (eat("T") || eat("t"))) return Rat(t);
    return num(); }
  Rat fac() { Rat a = atom(); while (ok && eat("^")) { Rat e = atom(); if (!e.n.isConst() || !e.d.isConst()) { ok = false; break; } long k = sx::concretize(e.n); if (!(e.d == Int(1))) { ok = false; break; } a = rpow(a, k); } return a; }
  Rat term() { Rat a = fac(); while (ok) { if (eat("*")) a = a * fac(); else if (eat("/")) { Rat b = fac(); if (b.zero()) { ok = false; break; } a = a / b; } else break; } return a; }
  Rat expr() { Rat a = term(); while (ok) { if (eat("+")) a = a + term(); else if (is("-")) { p++; a = a - term(); } else break; } return a; } };
static Rat evalText(const std::string &s, const Int &t, long L, std::map<std::string, Rat> *names = 0) { KP k(s, t, L, names); Rat r = k.expr(); k.ws(); if (!k.ok || k.p != s.size()) sx::fail("printed-form"); return r; }
// number of solutions for every right-hand side up to n
static std::vector<mpz_class> counts(const std::vector<long> &a, long n) { std::vector<mpz_class> c(n + 1); c[0] = 1; for (long w : a) for (long i = w; i <= n; i++) c[i] = c[i] + c[i - w]; return c; }
// true coefficients (of t^0 .. t^N) on the residue class r: interpolation through r, r+L, ...
static std::vector<Rat> trueCoeffs(const std::vector<mpz_class> &cnt, long r, long L, int N) {
  std::vector<std::vector<Rat>> basis; std::vector<Rat> w(N + 1); for (int i = 0; i <= N; i++) { std::vector<Rat> b(1, Rat(1)); for (int j = 0; j <= N; j++) if (j != i) { std::vector<Rat> n(b.size() + 1); Rat d = Rat(Int(1), Int((i - j) * L)); for (size_t k = 0; k < b.size(); k++) { n[k + 1] = n[k + 1] + b[k] * d; n[k] = n[k] - b[k] * d * Rat(Int(r + j * L)); } b = n; } Int ci = I(cnt[r + i * L]); for (int k = 0; k <= N; k++) w[k] = w[k] + b[k] * Rat(ci); } return w; }
static std::vector<std::string> split(const std::string &s) { std::vector<std::string> r; std::string l; std::istringstream i(s); while (std::getline(i, l)) r.push_back(l); return r; }
// "coeff<N>minus<i>:= expr;" lines
static std::map<int, std::string> lines(const std::string &out, int N) { std::map<int, std::string> r; std::string pre = "coeff" + std::to_string(N) + "minus"; for (auto &l : split(out)) if (l.compare(0, pre.size(), pre) == 0) { size_t q = l.find(":="); if (q == std::string::npos || l[l.size() - 1] != ';') continue; r[atoi(l.c_str() + pre.size())] = l.substr(q + 2, l.size() - q - 3); } return r; }
static int drawK = 0, drawN = 0, draws = 0; static unsigned long drawS = 1;
static int draw() { if (draws < drawN) { std::string n = "rnd" + std::to_string(draws++); Int v = sx::input(n, 0, drawK - 1); return (int)sx::concretize(v); } drawS = drawS * 6364136223846793005UL + 1442695040888963407UL; return (int)((drawS >> 33) & 0x7fffffff); }
#ifdef rand
extern int (*sx_rand_hook)();
static void hookRand() { sx_rand_hook = draw; }
#else
extern "C" int rand() noexcept { return draw(); }
static void hookRand() {}
#endif
static void knap(Cfg &c, std::map<std::string, Int> &in) {
  IV A = parseRows(c.s("alpha"), in)[0]; Int g(0); for (auto &x : A) { sx::assume(sx::cLt(Int(0), x)); } for (auto &x : A) g = sx::gcd(g, x); sx::assume(sx::cEq(g, Int(1))); std::vector<long> a; for (auto &x : A) a.push_back(sx::concretize(x));
  int N = a.size() - 1; long L = 1; for (long w : a) { long x = L, y = w; while (y) { long q = x % y; x = y; y = q; } L = L / x * w; }
  drawK = c.n("rnd"); drawN = drawK ? c.n("draws", 4) : 0; drawS = c.n("seed", 1); hookRand(); bool sub = c.n("subsets", 1);
  std::vector<mpz_class> cnt = counts(a, L * (N + 1)); Int t = sx::input("t", 0, L - 1); std::vector<std::vector<Rat>> tc; for (long r = 0; r < L; r++) tc.push_back(trueCoeffs(cnt, r, L, N));
  auto want = [&](int deg) { Int den(1); for (auto &x : tc) den = sx::lcm(den, sx::abs(x[deg].d)); Int n(0); for (long r = 0; r < L; r++) { Int v = tc[r][deg].n * sx::fdiv(den, sx::abs(tc[r][deg].d)); if (sx::isNeg(tc[r][deg].d)) v = -v; n = r == 0 ? v : sx::ite(sx::cEq(t, Int(r)), v, n); } return Rat(n, den); };
  std::vector<Rat> W; for (int i = 0; i <= N; i++) W.push_back(want(N - i));
  auto judge = [&](const std::string &out, int k, bool top, const std::string &l) {
    auto m = lines(out, N); std::map<std::string, Rat> nm;
    if (top) { sx::check((int)m.size() == k + 1, l + "-number-of-coefficients"); for (int i = 0; i <= k; i++) { if (!m.count(i)) { sx::fail(l + "-coefficient-missing"); return; } Rat v = evalText(m[i], t, L); checkRat(v, W[i], l + "-coefficient"); nm["coeff" + std::to_string(N) + "minus" + std::to_string(i)] = W[i]; }
      std::string key = "topKPolynomial:="; size_t q = out.find(key); if (q == std::string::npos) { sx::fail(l + "-polynomial-missing"); return; } size_t e = out.find(';', q); Rat v = evalText(out.substr(q + key.size(), e - q - key.size()), t, L, &nm), w; for (int i = 0; i <= k; i++) w = w + W[i] * rpow(Rat(t), N - i); checkRat(v, w, l + "-polynomial");
    } else { sx::check(m.size() == 1, l + "-number-of-coefficients"); if (!m.count(k)) { sx::fail(l + "-coefficient-missing"); return; } checkRat(evalText(m[k], t, L), W[k], l + "-coefficient"); } };
  vec_ZZ al; al.SetLength(N + 1); for (int i = 0; i <= N; i++) al[i] = Z(Int(a[i]));
  int from = c.n("from", 0), to = std::min<long>(N, c.n("to", N));
  for (int k = from; k <= to; k++) for (int top = 0; top < 2; top++) {
    if (c.s("mode") == "top" && !top) continue; if (c.s("mode") == "one" && top) continue; std::ostringstream o;
    if (c.s("drv").size()) {
      std::string text = std::to_string(N + 1) + "\n"; for (long w : a) text += std::to_string(w) + " "; putFile("in.knap", text + "\n"); std::vector<std::string> ar = { "top-ehrhart-knapsack", "-f", "in.knap", top ? "--all-k" : "-k", std::to_string(k + 1) }; if (c.n("drv") > 1) { ar.push_back("-o"); ar.push_back("out.mpl"); } ar.push_back("--gcd-polynomial"); ar.push_back(sub ? "1" : "0"); Args args(ar);
      optind = 1; delFile("out.mpl"); Run r = runCode([&]() { knap_main(args.c(), args.p()); }); if (r.bad()) { sx::fail("ends-normally"); return; } std::string out = r.out; if (c.n("drv") > 1) { if (!getFile("out.mpl", out)) { sx::fail("output-file"); return; } } judge(out, k, top, top ? "top" : "single");
    } else {
      Run r = runCode([&]() { TopKnapsack tk; tk.set(al); tk.useSubsetsForGCD(sub); if (!drawK) tk.seed(c.n("seed", 1)); if (top) tk.coeff_topK(k); else tk.coeff_NminusK(k); tk.printAnswer(o); PeriodicFunction f = tk.getCoeffNminusK(k); std::ostringstream g; g << f; o << "\n#" << g.str(); }); if (r.bad()) { sx::fail("ends-normally"); return; }
      std::string out = o.str(); size_t q = out.rfind("\n#"); judge(out.substr(0, q), k, top, top ? "top" : "single"); checkRat(evalText(out.substr(q + 2), t, L), W[k], "returned-coefficient"); }
  }
  sx::reach("computed");
}
// ---- step functions: every operation has the value of the operation on the values
static void per(Cfg &c, std::map<std::string, Int> &in) {
  IV A = parseRows(c.s("a"), in)[0]; Int t = sx::input("t", 0, c.n("T", 40)); std::string ops = c.s("ops"); long L = c.n("L", 60); std::vector<PeriodicFunction> f; std::vector<Rat> v; auto leaf = [&](const Int &n, const Int &d, bool num) { f.push_back(PeriodicFunction(RationalNTL(Z(n), Z(d)), num)); v.push_back(num ? Rat(n, d) : Rat(sx::fmod(t * n, d), d)); };
  // a: num,den pairs; ops: N number, F fractional part, + - * (two on the stack), c times a constant, d divided by an integer, p^k, = copied, 0..9 exponents
  size_t k = 0; auto nx = [&]() { Int x = A[k % A.size()]; k++; return x; };
  Run r = runCode([&]() { for (size_t i = 0; i < ops.size(); i++) { char o = ops[i]; size_t n = f.size();
    if (o == 'N' || o == 'F') { Int x = nx(), y = nx(); leaf(x, y, o == 'N'); }
    else if (o == 'C') { Int x = nx(); int q = (int)sx::concretize(x); PeriodicFunction z; z = q; f.push_back(z); v.push_back(Rat(Int(q))); }
    else if (o == 'D') { f.push_back(f[n - 1]); v.push_back(v[n - 1]); }
    else if (o == '+') { if (i & 1) f[n - 2].add(f[n - 1]); else f[n - 2] += f[n - 1]; v[n - 2] = v[n - 2] + v[n - 1]; f.pop_back(); v.pop_back(); }
    else if (o == '-') { f[n - 2].subtract(f[n - 1]); v[n - 2] = v[n - 2] - v[n - 1]; f.pop_back(); v.pop_back(); }
    else if (o == '*') { if (i & 1) f[n - 2].times(f[n - 1]); else f[n - 2] *= f[n - 1]; v[n - 2] = v[n - 2] * v[n - 1]; f.pop_back(); v.pop_back(); }
    else if (o == 'c') { Int x = nx(), y = nx(); f[n - 1].times(RationalNTL(Z(x), Z(y))); v[n - 1] = v[n - 1] * Rat(x, y); }
    else if (o == 'd') { Int x = nx(); sx::assume(!sx::cEq(x, Int(0))); f[n - 1].div(Z(x)); v[n - 1] = v[n - 1] / Rat(x); }
    else if (o == 'k') { Int x = nx(), y = nx(); f[n - 1].setToConstant(RationalNTL(Z(x), Z(y))); v[n - 1] = Rat(x, y); }
    else if (isdigit((unsigned char)o)) { f[n - 1].pow(o - '0'); v[n - 1] = rpow(v[n - 1], o - '0'); } } });
  if (r.bad()) { sx::fail("ends-normally"); return; }
  for (size_t i = 0; i < f.size(); i++) { std::ostringstream o; o << f[i]; checkRat(evalText(o.str(), t, L), v[i], "value"); if (f[i] == 0) checkRat(v[i], Rat(0), "equals-zero"); if (f[i] == 3) checkRat(v[i], Rat(3), "equals-constant"); }
  sx::reach("evaluated");
}
static void h() { Cfg c(sx::config()); std::map<std::string, Int> in; std::string w = c.s("what"); if (w == "knap") knap(c, in); else if (w == "per") per(c, in); else sx::fail("unknown"); }
HARNESS_MAIN(h)
