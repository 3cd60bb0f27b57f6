// Sparse polynomials and sums of powers of linear forms: text form, tries and block lists, products, rewriting.
#include "vol.h"
#include "integration/PolyTrie.h"
#include "integration/PolyRep.h"
#include "integration/multiply.h"
#include "integration/GeneralMonomialSum.h"
typedef std::map<std::pair<int, std::vector<Int>>, Rat> Dummy;
struct LTerm { int deg; IV l; Rat c; };
static int nV;
// terms of the configuration: num, den, exponents ... (one row per term); the values of the exponents are split case by case
static std::vector<std::pair<std::vector<int>, Rat>> terms(const IM &m, std::vector<std::string> &txt) {
  std::vector<std::pair<std::vector<int>, Rat>> r; for (auto &x : m) { std::vector<int> e; for (size_t i = 2; i < x.size(); i++) e.push_back((int)sx::concretize(x[i])); r.push_back({e, Rat(x[0], x[1])});
    std::string s = x[0].str(); if (!(x[1].isConst() && x[1] == Int(1))) s += "/" + x[1].str(); txt.push_back(s); } return r;
}
static std::string join(const std::vector<int> &e, const std::string &sep) { std::string s; for (size_t i = 0; i < e.size(); i++) s += (i ? sep : "") + std::to_string(e[i]); return s; }
static std::string monoText(const std::vector<std::pair<std::vector<int>, Rat>> &t, const std::vector<std::string> &c, int st) {
  std::string s = "["; for (size_t i = 0; i < t.size(); i++) s += std::string(i ? (st ? ", " : ",") : "") + "[" + c[i] + (st == 1 ? ", [" : st == 2 ? " , [ " : ",[") + join(t[i].first, st ? ", " : ",") + (st == 2 ? " ]]" : "]]"); return s + "]";
}
static MPoly sum(const std::vector<std::pair<std::vector<int>, Rat>> &t) { MPoly p; for (auto &x : t) padd(p, MPoly{{x.first, x.second}}); return p; }
static void eqP(const MPoly &a, const MPoly &b, const std::string &l) { for (auto &x : a) { auto it = b.find(x.first); checkRat(x.second, it == b.end() ? Rat(0) : it->second, l); } for (auto &x : b) if (!a.count(x.first)) checkRat(Rat(0), x.second, l); }
static Rat RN(const RationalNTL &r) { return Rat(I(r.getNumerator()), I(r.getDenominator())); }
// the terms an iterator yields: every exponent vector once, no zero coefficient
template <class It> static MPoly gather(It &it, const std::string &l, bool merged = true) { MPoly p; it.begin(); int n = 0; while (term<RationalNTL, int> *t = it.nextTerm()) { if (++n > 500) { sx::fail(l + "-endless"); break; } std::vector<int> e(t->exps, t->exps + t->length); if ((int)e.size() != nV) { sx::fail(l + "-length"); break; } Rat c = RN(t->coef); if (p.count(e)) { sx::fail(l + "-merged"); p[e] = p[e] + c; } else p[e] = c; if (merged) sx::check(!sx::cEq(c.n, Int(0)), l + "-no-zero-terms"); } return p; }
static MPoly stored(const monomialSum &m, const std::string &l) { BTrieIterator<RationalNTL, int> it; it.setTrie(m.myMonomials, m.varCount); return gather(it, l); }
// printed "[[c, [e, e]], ...]" back to a polynomial
struct Scan { const std::string &s; size_t p = 0; bool ok = true; Scan(const std::string &t) : s(t) {} void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; } bool eat(char c) { ws(); if (p < s.size() && s[p] == c) { p++; return true; } return false; } void need(char c) { if (!eat(c)) ok = false; }
  Int num() { ws(); bool neg = eat('-'); ws(); size_t b = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; bool o = false; Int v = b < p ? Int::parse(s.substr(b, p - b), &o) : Int(0); if (!o) ok = false; return neg ? -v : v; }
  Rat rat() { Int a = num(); if (eat('/')) { Int b = num(); return Rat(a, b); } return Rat(a); }
  IV list() { IV r; need('['); if (eat(']')) return r; do r.push_back(num()); while (ok && eat(',')); need(']'); return r; } };
static MPoly readMono(const std::string &t, const std::string &l) { MPoly p; Scan s(t); s.need('['); if (!s.eat(']')) { do { s.need('['); Rat c = s.rat(); s.need(','); IV e = s.list(); s.need(']'); std::vector<int> x; for (auto &y : e) x.push_back((int)sx::concretize(y)); padd(p, MPoly{{x, c}}); } while (s.ok && s.eat(',')); s.need(']'); } s.ws(); if (!s.ok || s.p != t.size()) sx::fail(l + "-syntax"); return p; }
static Rat evalP(const MPoly &p, const IV &x) { Rat r; for (auto &t : p) { Int m(1); for (size_t i = 0; i < x.size(); i++) m = m * sx::pow(x[i], t.first[i]); r = r + t.second * Rat(m); } return r; }
static Rat evalL(const std::vector<LTerm> &L, const IV &x) { Rat r; for (auto &t : L) { Int d(0); for (size_t i = 0; i < x.size(); i++) d = d + t.l[i] * x[i]; r = r + t.c * Rat(sx::pow(d, t.deg), fact(t.deg)); } return r; }   // coefficients are stored times deg!
static std::vector<LTerm> readForms(const std::string &t, const std::string &l) { std::vector<LTerm> r; Scan s(t); s.need('['); if (!s.eat(']')) { do { s.need('['); Rat c = s.rat(); s.need(','); s.need('['); int d = (int)sx::concretize(s.num()); s.need(','); IV e = s.list(); s.need(']'); s.need(']'); r.push_back({d, e, c}); } while (s.ok && s.eat(',')); s.need(']'); } s.ws(); if (!s.ok || s.p != t.size()) sx::fail(l + "-syntax"); return r; }
template <class It> static std::vector<LTerm> gatherL(It &it, const std::string &l, bool merged = true) { std::vector<LTerm> r; it.begin(); int n = 0; while (term<RationalNTL, ZZ> *t = it.nextTerm()) { if (++n > 500) { sx::fail(l + "-endless"); break; } LTerm q; q.deg = t->degree; if (t->length != nV) { sx::fail(l + "-length"); break; } for (int i = 0; i < nV; i++) q.l.push_back(I(t->exps[i])); q.c = RN(t->coef);
    for (auto &o : r) if (o.deg == q.deg) { Cond same(true); for (int i = 0; i < nV; i++) same = same && sx::cEq(o.l[i], q.l[i]); sx::check(!same, l + "-merged"); } if (merged) sx::check(!sx::cEq(q.c.n, Int(0)), l + "-no-zero-terms"); r.push_back(q); } return r; }
static IV pointX() { IV x; for (int i = 0; i < nV; i++) x.push_back(sx::input("x" + std::to_string(i), -9, 9)); return x; }
static void mono(Cfg &c, std::map<std::string, Int> &in) {
  IM A = parseRows(c.s("t"), in); nV = A[0].size() - 2; std::vector<std::string> tx; auto T = terms(A, tx); MPoly P = sum(T); std::string text = monoText(T, tx, c.n("style")), op = c.s("op"); bool blk = c.n("block");
  monomialSum m; _monomialSum b; b.eHead = 0; b.cHead = 0; b.termCount = 0; b.varCount = nV;
  Run r = runCode([&]() { if (c.s("via") == "insert") { m.varCount = nV; for (size_t i = 0; i < T.size(); i++) { std::vector<int> e = T[i].first; insertMonomial(RationalNTL(Z(T[i].second.n), Z(T[i].second.d)), e.data(), m); _insertMonomial(RationalNTL(Z(T[i].second.n), Z(T[i].second.d)), e.data(), b); } } else { loadMonomials(m, text); _loadMonomials(b, text); } });
  if (r.bad()) { sx::fail("ends-normally"); return; }
  sx::check(m.varCount == nV && b.varCount == nV, "dimension"); eqP(stored(m, "trie"), P, "trie-terms");
  MBlockIterator<RationalNTL> bi; bi.setLists(b.eHead, b.cHead, nV, b.termCount); eqP(gather(bi, "blocks", false), P, "block-terms");
  if (op == "print") {
    std::string s1, s2; Run q = runCode([&]() { s1 = printMonomials(m); s2 = _printMonomials(b); }); if (q.bad()) { sx::fail("ends-normally"); return; } eqP(readMono(s1, "printed"), P, "printed"); eqP(readMono(s2, "printed-blocks"), P, "printed-blocks");
    monomialSum m2; Run q2 = runCode([&]() { loadMonomials(m2, s1); }); if (q2.bad()) { sx::fail("ends-normally"); return; } if (m2.varCount) eqP(stored(m2, "reread"), P, "printed-and-reread");
    sx::reach("printed"); Run q3 = runCode([&]() { destroyMonomials(m); if (b.eHead) _destroyMonomials(b); }); sx::check(!q3.bad() && !m.myMonomials && m.termCount == 0, "destroyed");
  } else if (op == "dec") {
    linFormSum f; f.varCount = nV; _linFormSum g; g.termCount = 0; g.varCount = nV; g.lHead = 0; g.cHead = 0; BTrieIterator<RationalNTL, int> it; it.setTrie(m.myMonomials, nV);
    Run q = runCode([&]() { decompose(&it, f); for (int i = 0; i < b.termCount; i++) _decompose(b, g, i); }); if (q.bad()) { sx::fail("ends-normally"); return; }
    BTrieIterator<RationalNTL, ZZ> fi; fi.setTrie(f.myForms, nV); LBlockIterator<RationalNTL> gi; gi.setLists(g.lHead, g.cHead, nV, g.termCount); auto F = gatherL(fi, "forms"); auto G = gatherL(gi, "block-forms", false);
    IV x = pointX(); checkRat(evalL(F, x), evalP(P, x), "rewritten-value"); checkRat(evalL(G, x), evalP(P, x), "rewritten-value-blocks"); sx::reach("rewritten");
    Run q2 = runCode([&]() { destroyLinForms(f); if (g.lHead) _destroyLinForms(g); }); sx::check(!q2.bad() && !f.myForms, "destroyed");
  } else sx::fail("unknown-op");
}
static void mul(Cfg &c, std::map<std::string, Int> &in) {
  IM A = parseRows(c.s("t"), in), B = parseRows(c.s("u"), in), Mm = parseRows(c.s("min"), in), MM = parseRows(c.s("max"), in); nV = A[0].size() - 2; std::vector<std::string> ta, tb; auto TA = terms(A, ta), TB = terms(B, tb); MPoly PA = sum(TA), PB = sum(TB), W;
  std::vector<int> lo, hi; for (auto &x : Mm[0]) lo.push_back((int)sx::concretize(x)); for (auto &x : MM[0]) hi.push_back((int)sx::concretize(x));
  for (auto &x : pmul(PA, PB)) { bool k = true; for (int i = 0; i < nV; i++) if (x.first[i] < lo[i] || x.first[i] > hi[i]) k = false; if (k) W[x.first] = x.second; }
  monomialSum a, b, r; MPoly S, F = pmul(PA, PB); GeneralMonomialSum<RationalNTL, int> g, h2; g.varCount = h2.varCount = r.varCount = nV; std::string s; auto q = [](const Rat &x) { return RationalNTL(Z(x.n), Z(x.d)); };
  monomialSum full; full.varCount = nV;
  Run run = runCode([&]() { loadMonomials(a, monoText(TA, ta, 0)); loadMonomials(b, monoText(TB, tb, 1)); { BTrieIterator<RationalNTL, int> i, j; i.setTrie(a.myMonomials, nV); j.setTrie(b.myMonomials, nV); multiply<RationalNTL>(&i, &j, r, lo.data(), hi.data()); multiply<RationalNTL>(&i, &j, full); }
    for (auto &x : TA) { std::vector<int> e = x.first; g.insertMonomial(q(x.second), e.data()); } for (auto &x : TB) { std::vector<int> e = x.first; h2.insertMonomial(q(x.second), e.data()); } });
  if (run.bad()) { sx::fail("ends-normally"); return; }
  eqP(stored(r, "product"), W, "bounded-product"); eqP(stored(full, "full-product"), F, "product"); eqP(stored(a, "factor"), PA, "first-factor-unchanged"); eqP(stored(b, "factor"), PB, "second-factor-unchanged");
  auto gs = [&](const GeneralMonomialSum<RationalNTL, int> &p, const std::string &l) { if (!p.myMonomials) return MPoly(); BTrieIterator<RationalNTL, int> it; it.setTrie(p.myMonomials, p.varCount); return gather(it, l); };
  eqP(gs(g, "sum"), PA, "general-sum-terms"); MPoly Ad = PA; padd(Ad, PB);
  GeneralMonomialSum<RationalNTL, int> p, z, k; p.varCount = z.varCount = k.varCount = nV; std::string s1, s2, s3; std::vector<int> e0(nV, 0); Rat kc = TA[0].second;
  run = runCode([&]() { p.add(g); p.add(z); p.add(h2); s1 = p.printMonomials(); s2 = p.printMonomials(lo.data(), hi.data()); s3 = z.printMonomials(); g.multiply(h2, lo.data(), hi.data()); z.multiply(h2, lo.data(), hi.data()); if (lo[0] >= 0) h2.check(); k.setToConstant(RationalNTL(5, 7)); k.setToConstant(q(kc)); });
  if (run.bad()) { sx::fail("ends-normally"); return; }
  eqP(gs(p, "sum"), Ad, "general-sum"); eqP(gs(g, "general-product"), W, "general-bounded-product"); eqP(gs(z, "zero"), MPoly(), "product-with-zero"); eqP(gs(h2, "factor"), PB, "second-factor-unchanged"); eqP(gs(k, "constant"), MPoly{{e0, kc}}, "constant");
  MPoly Wd; for (auto &x : Ad) { bool o = true; for (int i = 0; i < nV; i++) if (x.first[i] < lo[i] || x.first[i] > hi[i]) o = false; if (o) Wd[x.first] = x.second; }
  eqP(readMono(s1, "printed"), Ad, "general-printed"); eqP(readMono(s2, "printed-window"), Wd, "general-printed-window"); eqP(readMono(s3, "printed-zero"), MPoly(), "general-printed-zero");
  // adding to a product afterwards
  run = runCode([&]() { GeneralMonomialSum<RationalNTL, int> o; o.varCount = nV; o.insertMonomial(RationalNTL(3, 2), e0.data()); g.add(o); z.add(o); k.insertMonomial(RationalNTL(3, 2), e0.data()); }); if (run.bad()) { sx::fail("ends-normally"); return; }
  MPoly W2 = W; padd(W2, MPoly{{e0, Rat(Int(3), Int(2))}}); eqP(gs(g, "general-product"), W2, "sum-after-product"); eqP(gs(z, "zero"), MPoly{{e0, Rat(Int(3), Int(2))}}, "sum-after-zero-product"); eqP(gs(k, "constant"), MPoly{{e0, kc + Rat(Int(3), Int(2))}}, "sum-after-constant");
  sx::reach("multiplied"); run = runCode([&]() { k.setToConstant(RationalNTL(0, 1)); }); sx::check(!run.bad(), "ends-normally"); eqP(gs(k, "constant"), MPoly(), "zero-constant");
}
// linear forms: num, den, degree, coefficients ...
static void form(Cfg &c, std::map<std::string, Int> &in) {
  IM A = parseRows(c.s("t"), in); nV = A[0].size() - 3; std::vector<LTerm> T; std::string text = "["; bool sp = c.n("style");
  for (size_t k = 0; k < A.size(); k++) { auto &x = A[k]; LTerm t; t.deg = (int)sx::concretize(x[2]); t.c = Rat(x[0], x[1]) * Rat(fact(t.deg)); for (int i = 0; i < nV; i++) t.l.push_back(x[i + 3]); T.push_back(t);
    text += std::string(k ? (sp ? ", " : ",") : "") + "[" + x[0].str() + (x[1].isConst() && x[1] == Int(1) ? "" : "/" + x[1].str()) + (sp ? ", [" : ",[") + std::to_string(t.deg) + (sp ? ", [" : ",["); for (int i = 0; i < nV; i++) text += std::string(i ? (sp ? ", " : ",") : "") + x[i + 3].str(); text += "]]]"; } text += "]";
  linFormSum f; _linFormSum g; g.lHead = 0; g.cHead = 0; g.termCount = 0; g.varCount = nV;
  Run r = runCode([&]() { loadLinForms(f, text); _loadLinForms(g, text); }); if (r.bad()) { sx::fail("ends-normally"); return; }
  BTrieIterator<RationalNTL, ZZ> fi; fi.setTrie(f.myForms, nV); LBlockIterator<RationalNTL> gi; gi.setLists(g.lHead, g.cHead, nV, g.termCount); auto F = gatherL(fi, "forms"), G = gatherL(gi, "block-forms", false);
  IV x = pointX(); Rat want = evalL(T, x); checkRat(evalL(F, x), want, "forms-value"); checkRat(evalL(G, x), want, "block-forms-value"); std::string s1, s2;
  // term by term: the coefficient of every form is the sum of those of its equals
  for (auto &t : F) { Rat w; for (auto &o : T) if (o.deg == t.deg) { Cond same(true); for (int i = 0; i < nV; i++) same = same && sx::cEq(o.l[i], t.l[i]); w = w + o.c * Rat(sx::ite(same, Int(1), Int(0))); } checkRat(t.c, w, "merged-coefficient"); }
  r = runCode([&]() { s1 = printLinForms(f); s2 = _printLinForms(g); }); if (r.bad()) { sx::fail("ends-normally"); return; } checkRat(evalL(readForms(s1, "printed"), x), want, "printed-value"); if (g.termCount) checkRat(evalL(readForms(s2, "printed-blocks"), x), want, "printed-value-blocks");
  sx::reach("read"); r = runCode([&]() { destroyLinForms(f); if (g.lHead) _destroyLinForms(g); }); sx::check(!r.bad() && !f.myForms && f.termCount == 0, "destroyed");
}
// products: terms separated by '|', a term is num,den,deg,l...,deg,l...
static void prod(Cfg &c, std::map<std::string, Int> &in) {
  IM A = parseRows(c.s("t"), in); nV = c.n("n"); std::string text = "["; bool sp = c.n("style"); IV x = pointX(); std::vector<Rat> want;
  for (size_t k = 0; k < A.size(); k++) { auto &a = A[k]; text += std::string(k ? "," : "") + "[" + a[0].str() + (a[1].isConst() && a[1] == Int(1) ? "" : "/" + a[1].str()) + (sp ? ", [" : ",["); Rat v(a[0], a[1]);
    for (size_t i = 2; i < a.size(); i += nV + 1) { int d = (int)sx::concretize(a[i]); Int s(0); text += std::string(i > 2 ? (sp ? ", " : ",") : "") + "[" + std::to_string(d) + (sp ? ", [" : ",["); for (int j = 0; j < nV; j++) { text += std::string(j ? "," : "") + a[i + 1 + j].str(); s = s + a[i + 1 + j] * x[j]; } text += "]]"; v = v * Rat(sx::pow(s, d)); } text += "]]"; want.push_back(v); } text += "]";
  linFormProductSum P; Run r = runCode([&]() { loadLinFormProducts(P, text); }); if (r.bad()) { sx::fail("ends-normally"); return; }
  // a product's value is the product over its stored powers (a stored coefficient carries the factorial of its degree); zero products store nothing
  sx::check(P.varCount == nV, "dimension"); sx::check(P.myFormProducts.size() == A.size(), "number-of-products"); Rat tot, ws; for (auto &w : want) ws = ws + w;
  for (size_t k = 0; k < P.myFormProducts.size() && k < A.size(); k++) { Rat v(1); int n = 0; if (P[k].myForms) { BTrieIterator<RationalNTL, ZZ> it; it.setTrie(P[k].myForms, nV); for (auto &t : gatherL(it, "factors")) { Int d(0); for (int i = 0; i < nV; i++) d = d + t.l[i] * x[i]; v = v * t.c * Rat(sx::pow(d, t.deg), fact(t.deg)); n++; } } if (!n) v = Rat(0); checkRat(v, want[k], "product-value"); tot = tot + v; }
  sx::reach("read"); r = runCode([&]() { std::string s = printLinFormProducts(P); destroyLinFormProducts(P); }); sx::check(!r.bad() && P.myFormProducts.empty(), "ends-normally"); checkRat(tot, ws, "sum-value");
}
// many equal-shaped terms, so that more than one block of the block lists is used
static void many(Cfg &c, std::map<std::string, Int> &in) {
  nV = 2; int n = c.n("n", 70), at = c.n("at", 65); Int a = parseRows(c.s("a"), in)[0][0]; _monomialSum b; b.eHead = 0; b.cHead = 0; b.termCount = 0; b.varCount = nV; monomialSum m; m.varCount = nV; MPoly P; std::string text = "["; 
  for (int i = 0; i < n; i++) { int e[2] = { i == at ? 0 : 1 + i % 3, i == at ? 0 : i / 3 }; Rat k = i % 7 == 2 || i == at ? Rat(a + Int(i)) : Rat(i + 1); padd(P, MPoly{{{e[0], e[1]}, k}}); text += std::string(i ? "," : "") + "[" + k.n.str() + ",[" + std::to_string(e[0]) + "," + std::to_string(e[1]) + "]]"; } text += "]";
  Run r = runCode([&]() { loadMonomials(m, text); _loadMonomials(b, text); }); if (r.bad()) { sx::fail("ends-normally"); return; } eqP(stored(m, "trie"), P, "trie-terms"); MBlockIterator<RationalNTL> bi; bi.setLists(b.eHead, b.cHead, nV, b.termCount); eqP(gather(bi, "blocks", false), P, "block-terms");
  std::string s; _linFormSum g; g.termCount = 0; g.varCount = nV; g.lHead = 0; g.cHead = 0; r = runCode([&]() { s = _printMonomials(b); for (int i : std::set<int>{at, 3, n - 1}) _decompose(b, g, i); }); if (r.bad()) { sx::fail("ends-normally"); return; } eqP(readMono(s, "printed-blocks"), P, "printed-blocks");
  LBlockIterator<RationalNTL> gi; gi.setLists(g.lHead, g.cHead, nV, g.termCount); auto G = gatherL(gi, "block-forms", false); IV x = pointX(); MPoly Q; for (int i : std::set<int>{at, 3, n - 1}) { std::vector<int> e = { i == at ? 0 : 1 + i % 3, i == at ? 0 : i / 3 }; Q[e] = P[e]; } checkRat(evalL(G, x), evalP(Q, x), "rewritten-value-blocks"); sx::reach("many");
}
static void h() {
  Cfg c(sx::config()); std::map<std::string, Int> in; std::string w = c.s("what");
  if (w == "mono") mono(c, in); else if (w == "mul") mul(c, in); else if (w == "form") form(c, in); else if (w == "prod") prod(c, in); else if (w == "many") many(c, in); else sx::fail("unknown");
}
HARNESS_MAIN(h)
