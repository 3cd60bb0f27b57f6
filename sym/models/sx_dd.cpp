#include "sx_dd.h"
#include <algorithm>
#include <map>
using sx::Int;
Int sx_dot(const SVec &a, const SVec &b) { Int s(0); for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static bool constZero(const Int &a) { return a.small() && a.sval() == 0; }
static SVec comb(const Int &p, const SVec &a, const Int &q, const SVec &b) { SVec r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = p * a[i] + q * b[i]; return r; }
static Int minorDet(const std::vector<const SVec *> &m, const std::vector<int> &cols) {
  size_t n = m.size(); std::map<unsigned, Int> cur; cur[0] = Int(1);
  for (size_t r = 0; r < n; r++) { std::map<unsigned, Int> nx; for (auto &x : cur) for (size_t c = 0; c < n; c++) if (!(x.first >> c & 1)) { const Int &e = (*m[r])[cols[c]]; if (constZero(e)) continue; Int t = x.second * e; if (__builtin_popcount(x.first >> (c + 1)) & 1) t = -t; auto it = nx.find(x.first | 1u << c); if (it == nx.end()) nx[x.first | 1u << c] = t; else it->second += t; } cur.swap(nx); }
  auto it = cur.find((1u << n) - 1); return it == cur.end() ? Int(0) : it->second; }
// re-derive a ray from rows that are tight at it (keeps the polynomials small)
static bool fromTight(const std::vector<SVec> &rows, const std::vector<char> &tight, int d, SVec &v) {
  std::vector<int> t; for (size_t i = 0; i < tight.size(); i++) if (tight[i]) t.push_back(i);
  int k = d - 1; if ((int)t.size() < k || t.size() > 14) return false;
  std::vector<int> idx(k); for (int i = 0; i < k; i++) idx[i] = i;
  while (true) {
    std::vector<const SVec *> m; for (int i : idx) m.push_back(&rows[t[i]]);
    SVec w(d); int pos = -1;
    for (int c = 0; c < d; c++) { std::vector<int> cols; for (int j = 0; j < d; j++) if (j != c) cols.push_back(j); w[c] = minorDet(m, cols); if (c & 1) w[c] = -w[c]; Int z; if (pos < 0 && sx::knownConst(w[c], z) && !constZero(z)) pos = c; }
    if (pos >= 0) {
      int s = sx::sgn(v[pos]); int s2 = sx::sgn(w[pos]); if (s == 0) return false;   // inconsistent: keep v
      if (s != s2) for (auto &x : w) x = -x;
      sx::vecPrimitive(w); v = w; return true;
    }
    int i = k - 1; while (i >= 0 && idx[i] == (int)t.size() - k + i) i--; if (i < 0) return false; idx[i]++; for (int j = i + 1; j < k; j++) idx[j] = idx[j - 1] + 1;
  }
}
static bool isSymbolic(const SVec &v) { for (auto &x : v) if (!x.isConst()) return true; return false; }
DDResult sx_dd(int d, const std::vector<SVec> &rows, const std::vector<char> &eq) {
  DDResult R; R.d = d; R.rows = rows; R.eq = eq; size_t n = rows.size();
  for (int i = 0; i < d; i++) { SVec e(d, Int(0)); e[i] = Int(1); R.lin.push_back(e); }
  std::vector<char> done(n, 0); std::vector<size_t> order;
  for (size_t i = 0; i < n; i++) if (eq[i]) order.push_back(i);
  for (size_t i = 0; i < n; i++) if (!eq[i]) order.push_back(i);
  for (size_t oi = 0; oi < n; oi++) {
    size_t k = order[oi]; const SVec &a = rows[k]; int p = -1; std::vector<Int> la;
    for (size_t j = 0; j < R.lin.size(); j++) { Int x = sx_dot(a, R.lin[j]); la.push_back(x); }
    for (size_t j = 0; j < la.size() && p < 0; j++) { Int z; if (sx::knownConst(la[j], z) && !constZero(z)) p = j; }
    for (size_t j = 0; j < la.size() && p < 0; j++) if (!sx::isZero(la[j])) p = j;
    if (p >= 0) {
      SVec l = R.lin[p]; Int al = la[p]; if (sx::isNeg(al)) { for (auto &x : l) x = -x; al = -al; }
      std::vector<SVec> nl;
      for (size_t j = 0; j < R.lin.size(); j++) if ((int)j != p) { SVec w = R.lin[j]; if (!constZero(la[j])) { w = comb(al, w, -la[j], l); sx::vecPrimitive(w); } nl.push_back(w); }
      R.lin = nl;
      for (auto &r : R.rays) { Int x = sx_dot(a, r.v); if (!constZero(x)) { r.v = comb(al, r.v, -x, l); sx::vecPrimitive(r.v); } r.tight[k] = 1; }
      if (!eq[k]) { DDRay r; sx::vecPrimitive(l); r.v = l; r.tight = done; R.rays.push_back(r); }
    } else {
      std::vector<Int> val; std::vector<int> sg;
      for (auto &r : R.rays) { Int x = sx_dot(a, r.v); val.push_back(x); sg.push_back(sx::sgn(x)); }
      std::vector<DDRay> keep;
      for (size_t i = 0; i < R.rays.size(); i++) if (sg[i] == 0) { keep.push_back(R.rays[i]); keep.back().tight[k] = 1; } else if (sg[i] > 0 && !eq[k]) keep.push_back(R.rays[i]);
      for (size_t i = 0; i < R.rays.size(); i++) if (sg[i] > 0) for (size_t j = 0; j < R.rays.size(); j++) if (sg[j] < 0) {
        std::vector<char> c(n, 0); for (size_t q = 0; q < n; q++) c[q] = R.rays[i].tight[q] && R.rays[j].tight[q];
        bool adj = true;
        for (size_t m = 0; m < R.rays.size() && adj; m++) if (m != i && m != j) { bool sub = true; for (size_t q = 0; q < n; q++) if (c[q] && !R.rays[m].tight[q]) { sub = false; break; } if (sub) adj = false; }
        if (!adj) continue;
        DDRay r; r.v = comb(val[i], R.rays[j].v, -val[j], R.rays[i].v); r.tight = c; r.tight[k] = 1;
        sx::vecPrimitive(r.v);
        if (R.lin.empty() && isSymbolic(r.v)) fromTight(rows, r.tight, d, r.v);
        keep.push_back(r); }
      R.rays.swap(keep);
    }
    done[k] = 1;
  }
  return R;
}
bool sx_dd_adjacent(const DDResult &r, size_t i, size_t j) {
  size_t n = r.rows.size();
  for (size_t m = 0; m < r.rays.size(); m++) if (m != i && m != j) { bool sub = true; for (size_t q = 0; q < n; q++) if (r.rays[i].tight[q] && r.rays[j].tight[q] && !r.rays[m].tight[q]) { sub = false; break; } if (sub) return false; }
  return true;
}
int sx_rank(std::vector<SVec> m) {
  int rk = 0; size_t nc = m.empty() ? 0 : m[0].size();
  for (size_t c = 0; c < nc && rk < (int)m.size(); c++) { size_t p = rk; while (p < m.size() && sx::isZero(m[p][c])) p++; if (p == m.size()) continue; std::swap(m[p], m[rk]);
    for (size_t i = rk + 1; i < m.size(); i++) if (!constZero(m[i][c])) { Int f = m[i][c], g = m[rk][c]; for (size_t j = c; j < nc; j++) m[i][j] = m[i][j] * g - m[rk][j] * f; sx::vecPrimitive(m[i]); } rk++; }
  return rk;
}
