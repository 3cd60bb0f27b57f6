// Independent exact integrals over polytopes: vertices by Cramer's rule, pulling triangulation, Dirichlet's formula.
#pragma once
#include "rf.h"
#include <functional>
typedef std::vector<Rat> RV; typedef std::map<std::vector<int>, Rat> MPoly;   // exponent vector -> coefficient
inline Int detI(const std::vector<IV> &m) { size_t n = m.size(); if (n == 0) return Int(1); if (n == 1) return m[0][0]; Int s(0);
  for (size_t j = 0; j < n; j++) { if (m[0][j].small() && m[0][j].sval() == 0) continue; std::vector<IV> k; for (size_t i = 1; i < n; i++) { k.push_back({}); for (size_t l = 0; l < n; l++) if (l != j) k.back().push_back(m[i][l]); } Int t = m[0][j] * detI(k); s = j & 1 ? s - t : s + t; } return s; }
inline Rat detR(const std::vector<RV> &m) { size_t n = m.size(); if (n == 0) return Rat(1); if (n == 1) return m[0][0]; Rat s;
  for (size_t j = 0; j < n; j++) { if (m[0][j].n.small() && m[0][j].n.sval() == 0) continue; std::vector<RV> k; for (size_t i = 1; i < n; i++) { k.push_back({}); for (size_t l = 0; l < n; l++) if (l != j) k.back().push_back(m[i][l]); } Rat t = m[0][j] * detR(k); s = j & 1 ? s - t : s + t; } return s; }
inline int sgnR(const Rat &a) { return sx::sgn(a.n) * sx::sgn(a.d); }
struct Vert { RV x; std::set<int> tight; };
// all vertices of the (bounded) polyhedron
inline std::vector<Vert> verticesOf(const Poly &p) {
  int d = p.d, m = p.m(); std::vector<Vert> r; std::vector<int> s(d); std::set<std::set<int>> seen;
  std::function<void(int, int)> rec = [&](int k, int from) {
    if (k < d) { for (int i = from; i < m; i++) { s[k] = i; rec(k + 1, i + 1); } return; }
    std::vector<IV> A; for (int i : s) A.push_back(IV(p.rows[i].begin() + 1, p.rows[i].end()));
    for (auto &t : seen) { bool in = true; for (int i : s) if (!t.count(i)) in = false; if (in) return; }
    Int D = detI(A); if (sx::isZero(D)) return; if (sx::isNeg(D)) { D = -D; for (auto &x : A[0]) x = -x; IV q; }
    bool flip = false; { std::vector<IV> B; for (int i : s) B.push_back(IV(p.rows[i].begin() + 1, p.rows[i].end())); if (sx::isNeg(detI(B))) flip = true; A = B; }
    IV num(d); for (int j = 0; j < d; j++) { std::vector<IV> B = A; for (int i = 0; i < d; i++) B[i][j] = -p.rows[s[i]][0]; num[j] = detI(B); if (flip) num[j] = -num[j]; }
    Vert v; for (int i = 0; i < m; i++) { Int e = p.rows[i][0] * D; for (int j = 0; j < d; j++) e = e + p.rows[i][j + 1] * num[j]; if (sx::isNeg(e)) return; if (sx::isZero(e)) v.tight.insert(i); else if (p.eq.count(i)) return; }
    seen.insert(v.tight); for (int j = 0; j < d; j++) v.x.push_back(Rat(num[j], D)); r.push_back(v); };
  rec(0, 0); return r;
}
inline void pull(const std::vector<Vert> &V, std::vector<int> F, int k, std::vector<int> pre, std::vector<std::vector<int>> &out) {
  if ((int)F.size() == k + 1) { pre.insert(pre.end(), F.begin(), F.end()); out.push_back(pre); return; }
  std::set<int> rows; for (int f : F) rows.insert(V[f].tight.begin(), V[f].tight.end());
  std::set<std::vector<int>> G; for (int r : rows) { std::vector<int> g; for (int f : F) if (V[f].tight.count(r)) g.push_back(f); if (g.size() < F.size()) G.insert(g); }
  pre.push_back(F[0]);
  for (auto &g : G) { bool mx = true; for (auto &h : G) if (h.size() > g.size() && std::includes(h.begin(), h.end(), g.begin(), g.end())) mx = false; if (!mx || std::find(g.begin(), g.end(), F[0]) != g.end()) continue; pull(V, g, k - 1, pre, out); }
}
inline std::vector<std::vector<int>> pulling(const std::vector<Vert> &V, int d) { std::vector<int> F; for (size_t i = 0; i < V.size(); i++) F.push_back(i); std::vector<std::vector<int>> r; if ((int)V.size() > d) pull(V, F, d, {}, r); return r; }
inline MPoly pmul(const MPoly &a, const MPoly &b) { MPoly r; for (auto &x : a) for (auto &y : b) { auto e = x.first; for (size_t i = 0; i < e.size(); i++) e[i] += y.first[i]; auto it = r.find(e); Rat t = x.second * y.second; if (it == r.end()) r[e] = t; else it->second = it->second + t; } return r; }
inline void padd(MPoly &a, const MPoly &b) { for (auto &y : b) { auto it = a.find(y.first); if (it == a.end()) a[y.first] = y.second; else it->second = it->second + y.second; } }
inline MPoly pconst(const Rat &c, int n) { MPoly r; r[std::vector<int>(n, 0)] = c; return r; }
inline MPoly plin(const RV &l) { MPoly r; for (size_t i = 0; i < l.size(); i++) { std::vector<int> e(l.size(), 0); e[i] = 1; r[e] = l[i]; } return r; }
inline MPoly ppow(const MPoly &a, int k, int n) { MPoly r = pconst(Rat(1), n); for (int i = 0; i < k; i++) r = pmul(r, a); return r; }
inline Int fact(long n) { Int r(1); for (long i = 2; i <= n; i++) r = r * Int(i); return r; }
// integral of f over the simplex with the given vertices
inline Rat integrateSimplex(const MPoly &f, const std::vector<RV> &s) {
  int d = s.size() - 1; std::vector<RV> M; for (int i = 1; i <= d; i++) { M.push_back({}); for (int j = 0; j < d; j++) M.back().push_back(s[i][j] - s[0][j]); }
  Rat v = detR(M); if (sgnR(v) < 0) v = Rat(0) - v; Rat sum;
  for (auto &t : f) {
    if (t.second.n.small() && t.second.n.sval() == 0) continue;
    MPoly q = pconst(t.second, d + 1); int deg = 0; for (int j = 0; j < d; j++) { deg += t.first[j]; if (t.first[j]) { RV c; for (int i = 0; i <= d; i++) c.push_back(s[i][j]); q = pmul(q, ppow(plin(c), t.first[j], d + 1)); } }
    for (auto &x : q) { Int w(1); for (int e : x.first) w = w * fact(e); sum = sum + x.second * Rat(w, fact(d + deg)); }
  }
  return sum * v;
}
inline Rat integratePoly(const Poly &p, const MPoly &f) { auto V = verticesOf(p); Rat r; for (auto &t : pulling(V, p.d)) { std::vector<RV> s; for (int i : t) s.push_back(V[i].x); r = r + integrateSimplex(f, s); } return r; }
