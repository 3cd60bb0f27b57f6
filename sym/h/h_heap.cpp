// Priority queues (Vector_Heap, ConeInfo_Heap, the generic heap in its five flavours) under sequences of operations that
// the solver chooses, with symbolic weights; and the enumeration of the terms of a cone's series by ConeInfo.
#include "vol.h"
#include <cassert>
#include <cstdlib>
#include <cstddef>
#include <cstdint>
#include <climits>
#include <utility>
#include <type_traits>
#include "cone.h"
#include "print.h"
#include "ConeInfo.h"
#ifdef rand
// int and double weights become symbolic values: the same source, compiled once more with a weight type of its own
struct XInt {
  long k; XInt() = default; XInt(long v); XInt(const sx::Int &v);
  operator long() const;
};
static std::vector<sx::Int> &xpool() { static auto &v = *new std::vector<sx::Int>; return v; }
inline XInt::XInt(const sx::Int &v) { k = xpool().size(); xpool().push_back(v); }
inline XInt::XInt(long v) { k = xpool().size(); xpool().push_back(sx::Int(v)); }
static sx::Int xv(const XInt &x) { return xpool()[x.k]; }
template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> static sx::Int xv(T t) { return sx::Int((long)t); }
inline XInt::operator long() const { return sx::concretize(xv(*this)); }
#define XCMP(op) static bool operator op(const XInt &a, const XInt &b) { return xv(a) op xv(b); } \
  template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> static bool operator op(const XInt &a, T b) { return xv(a) op xv(b); } \
  template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> static bool operator op(T a, const XInt &b) { return xv(a) op xv(b); }
XCMP(<) XCMP(>) XCMP(<=) XCMP(>=) XCMP(==) XCMP(!=)
#define XAR(op) static XInt operator op(const XInt &a, const XInt &b) { return XInt(xv(a) op xv(b)); } \
  template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> static XInt operator op(const XInt &a, T b) { return XInt(xv(a) op xv(b)); } \
  template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> static XInt operator op(T a, const XInt &b) { return XInt(xv(a) op xv(b)); }
XAR(+) XAR(-) XAR(*)
static XInt operator-(const XInt &a) { return XInt(-xv(a)); }
template <class T> static XInt &operator+=(XInt &a, const T &b) { return a = a + b; }
template <class T> static XInt &operator-=(XInt &a, const T &b) { return a = a - b; }
static XInt &operator++(XInt &a) { return a = a + 1; }
static XInt &operator--(XInt &a) { return a = a - 1; }
static XInt operator++(XInt &a, int) { XInt o = a; a = a + 1; return o; }
static XInt operator--(XInt &a, int) { XInt o = a; a = a - 1; return o; }
typedef XInt WInt; typedef XInt WDbl; typedef XInt CmpRet;
static XInt wi(const Int &v) { return XInt(v); }
static XInt wd(const Int &v) { return XInt(v); }
#undef HEAP_H_
namespace symheap {
#define int XInt
#define double XInt
#include "heap.h"
#include "heap.cpp"
#undef int
#undef double
}
using namespace symheap;
#else
#include "heap.h"
typedef int WInt; typedef double WDbl; typedef int CmpRet;
static int wi(const Int &v) { return (int)sx::concretize(v); }
static double wd(const Int &v) { return (double)sx::concretize(v); }
#endif
static std::vector<Int> W;   // the weight of every id ever inserted
static CmpRet cmpW(const void *a, const void *b) { const Int &x = *(const Int *)a, &y = *(const Int *)b; if (x < y) return CmpRet(-1); if (y < x) return CmpRet(1); return CmpRet(0); }
struct Q { virtual void insert(int id) = 0; virtual int pop() = 0; virtual int top() = 0; virtual long fill() = 0; virtual bool empty() = 0; virtual void clear() { sx::fail("no-such-op"); } virtual void freeze() { sx::fail("no-such-op"); } virtual void thaw() { sx::fail("no-such-op"); } virtual void change() { sx::fail("no-such-op"); } virtual int check(const Int &) { return -1; } virtual ~Q() {} };
struct QVec : Q {
  Vector_Heap h; QVec() : h(2) {}
  void insert(int id) { int a[2] = { id, 7 * id }; ZZ z = Z(W[id]); h.Add_Heap(a, &z); }
  int get(bool p) { int a[2] = { -1, -1 }; ZZ z; int r = p ? h.Pop_Top_Heap(a, &z) : h.Get_Top_Heap(a, &z); if (r != 1) { sx::fail("entry-returned"); return -1; } sx::check(a[1] == 7 * a[0], "entry-intact"); if (a[0] >= 0 && a[0] < (int)W.size()) sx::checkEq(I(z), W[a[0]], "entry-intact"); return a[0]; }
  int pop() { return get(true); } int top() { return get(false); } long fill() { return h.Get_Node_Count(); } bool empty() { return fill() == 0; }
  int check(const Int &w) { ZZ z = Z(w); return h.Check_Top_Heap(&z); }
};
static listCone *oneCone(const IM &R, const IV &p, int coef) { listCone *K = createListCone(); K->coefficient = coef; listVector **t = &K->rays; for (auto &r : R) { *t = new listVector(Zv(r)); t = &(*t)->rest; } K->latticePoints = new listVector(Zv(p)); return K; }
struct QCone : Q {
  ConeInfo_Heap h; std::vector<ConeInfo *> ci; listCone *K; vec_ZZ cost;
  QCone() { K = oneCone({ { Int(1), Int(0) }, { Int(0), Int(1) } }, { Int(0), Int(0) }, 1); cost = Zv({ Int(-1), Int(-2) }); }
  void insert(int id) { ConeInfo *n = new ConeInfo(&cost, K, 2); *n->Get_Current_Highest_Term() = Z(W[id]); ci.resize(id + 1); ci[id] = n; h.Add_Heap(n); }
  int id(ConeInfo *x) { for (size_t i = 0; i < ci.size(); i++) if (x && ci[i] == x) return i; return -1; }
  int pop() { return id(h.Pop_Top_Heap()); } int top() { return id(h.Get_Top_Heap()); } long fill() { return -1; } bool empty() { return h.Get_Top_Heap() == NULL; }
  void clear() { h.Clear_Tree(); for (auto &x : ci) x = 0; }
  int check(const Int &w) { ConeInfo *n = new ConeInfo(&cost, K, 2); *n->Get_Current_Highest_Term() = Z(w); int r = h.Check_Top_Heap(n); delete n; return r; }
};
struct QHeap : Q {
  HEAP_TYPE t; struct heap *h; std::vector<Int *> w;
  QHeap(HEAP_TYPE t, long n) : t(t) { h = heap_alloc(t, n, cmpW); }
  ~QHeap() { heap_destroy(h); }
  static void *P(int id) { return (void *)(intptr_t)(id + 1); }
  void insert(int id) { if (t == HEAP_INT_MIN || t == HEAP_INT_MAX) heap_insert_intweight(h, P(id), wi(W[id])); else if (t == HEAP_CUSTOM) { Int *x = new Int(W[id]); w.push_back(x); heap_insert_custweight(h, P(id), x); } else heap_insert_dblweight(h, P(id), wd(W[id])); }
  int pop() { return (int)(intptr_t)heap_pop(h) - 1; } int top() { return (int)(intptr_t)heap_top(h) - 1; } long fill() { return heap_num_fill(h); } bool empty() { sx::check(heap_empty_p(h) == !heap_nonempty_p(h), "empty-flags"); return heap_empty_p(h); }
  void clear() { heap_clear(h); } void freeze() { heap_freeze(h); } void thaw() { heap_thaw(h); }
  void change() { int id = top(); W[id] = sx::input("c" + std::to_string(W.size()) + "_" + std::to_string(id), -9, 9); heap_change_top_intweight(h, wi(W[id])); }
};
static void queue(Cfg &c) {
  std::string w = c.s("what"), ops = c.s("ops"); long R = c.n("range", 9); bool mn = w == "int_min" || w == "dbl_min" || w == "cust"; long cap = std::max<size_t>(1, ops.size());
  Q *q = w == "vec" ? (Q *)new QVec : w == "cone" ? (Q *)new QCone : w == "cust" ? (Q *)new QHeap(HEAP_CUSTOM, cap) : w == "int_min" ? (Q *)new QHeap(HEAP_INT_MIN, cap) : w == "int_max" ? (Q *)new QHeap(HEAP_INT_MAX, cap) : w == "dbl_min" ? (Q *)new QHeap(HEAP_DBL_MIN, cap) : (Q *)new QHeap(HEAP_DBL_MAX, cap);
  std::vector<char> live; long n = 0; int step = 0;
  auto best = [&](int id, const char *l) { if (id < 0 || id >= (int)live.size() || !live[id]) { sx::fail("returned-entry-is-in-the-queue"); return false; } Cond k(true); for (size_t i = 0; i < live.size(); i++) if (live[i]) k = k && (mn ? sx::cLe(W[id], W[i]) : sx::cLe(W[i], W[id])); sx::check(k, l); return true; };
  auto pop = [&]() { int id = q->pop(); if (!best(id, "removed-entry-is-extreme")) return false; live[id] = 0; n--; return true; };
  Run r = runCode([&]() {
    for (char o : ops) {
      step++;
      if (o == '?') { Int ch = sx::input("op" + std::to_string(step), 0, 1); o = n == 0 || ch == Int(0) ? 'i' : 'p'; }
      if (o == 'i') { int id = W.size(); W.push_back(sx::input("w" + std::to_string(id), -R, R)); live.push_back(1); n++; q->insert(id); }
      else if (o == 'I') { int id = W.size(); W.push_back(Int((id * 7 + 3) % 11 - 5)); live.push_back(1); n++; q->insert(id); }
      else if (o == 'p') { if (n && !pop()) return; }
      else if (o == 't') { if (n) { int id = q->top(); if (!best(id, "top-entry-is-extreme")) return; int a = q->check(W[id]), b = q->check(W[id] + Int(1)); sx::check((a == 1 || a == -1) && (b == 0 || b == -1), "check-top"); } }
      else if (o == 'f') q->freeze(); else if (o == 'w') q->thaw(); else if (o == 'c') q->change();
      else if (o == 'x') { q->clear(); for (auto &l : live) l = 0; n = 0; }
      if ((q->fill() != -1 && q->fill() != n) || q->empty() != (n == 0)) { sx::fail("number-of-entries"); return; }
    }
    while (n) { if (!pop()) return; if (q->fill() != -1 && q->fill() != n) { sx::fail("number-of-entries"); return; } }
    if (!q->empty()) sx::fail("number-of-entries");
    if (w != "cone") delete q;
    sx::reach("drained");
  });
  if (r.bad()) sx::fail("ends-normally");
}
// terms of sign * z^(cost.p) / prod (1 - z^(cost.r_i)), expanded towards decreasing exponents
static void series(Cfg &c) {
  std::map<std::string, Int> in; IM R = parseRows(c.s("rays"), in); IV cost = parseRows(c.s("cost"), in)[0], p = parseRows(c.s("p", "0,0,0,0"), in)[0]; int g = R.size(), d = cost.size(); p.resize(d); long K = c.n("terms", 4); int coef = c.n("coef", 1);
  auto dot = [&](const IV &a) { Int s(0); for (int i = 0; i < d; i++) s = s + a[i] * cost[i]; return s; };
  if (g == d) sx::assume(!sx::cEq(detI(R), Int(0)));
  Int top = dot(p), sg(coef); IV S; std::vector<bool> flip;
  for (auto &r : R) { Int s = dot(r); sx::assume(!sx::cEq(s, Int(0))); bool pos = s > Int(0); flip.push_back(pos); if (pos) { top = top - s; sg = -sg; S.push_back(s); } else S.push_back(-s); }
  std::vector<std::vector<Int>> sums(1); std::vector<std::vector<long>> ns; boxPoints(std::vector<long>(g, 0), std::vector<long>(g, K), [&](const std::vector<long> &n) { ns.push_back(n); });
  IV val; for (auto &n : ns) { Int t(0); for (int i = 0; i < g; i++) t = t + Int(n[i]) * S[i]; val.push_back(t); }
  Run r = runCode([&]() {
    listCone *L = oneCone(R, p, coef); vec_ZZ cz = Zv(cost); ConeInfo ci(&cz, L, d); sx::check(ci.S_Values_Zero_Flag == 0, "no-zero-flag"); Int prev(0);
    for (long k = 0; k <= K; k++) {
      if (k) ci.Calculate_Next_Highest_Term();
      Int e = top - I(*ci.Get_Current_Highest_Term()); int co = ci.Get_Coefficient();
      sx::check(k ? sx::cLt(prev, e) : sx::cEq(e, Int(0)), "terms-decrease");
      Int cnt(0), skipped(0); for (auto &v : val) { cnt = cnt + sx::ite(sx::cEq(v, e), Int(1), Int(0)); if (k) skipped = skipped + sx::ite(sx::cLt(prev, v) && sx::cLt(v, e), Int(1), Int(0)); }
      sx::checkEq(cnt * sg, Int(co), "coefficient-of-the-term"); sx::checkEq(skipped, Int(0), "no-term-skipped"); prev = e;
      if (c.n("points", 1)) {   // the integer points belonging to the term
        std::vector<IV> pts; vec_ZZ t; t.SetLength(d); while (ci.Calculate_Integral_Point(t) == 1) { pts.push_back(Iv(t)); if (pts.size() > 200) break; }
        sx::checkEq(Int((long)pts.size()), cnt, "points-of-the-term");
        for (auto &q : pts) {   // q = p - sum over flipped rays - sum sign n_i r_i with n >= 0
          sx::checkEq(dot(q), top - e, "points-have-the-value");
          IV y; for (int i = 0; i < d; i++) { Int v = q[i] - p[i]; for (int j = 0; j < g; j++) if (flip[j]) v = v + R[j][i]; y.push_back(v); }
          if (g == d) { Int D = detI(R); bool neg = sx::isNeg(D); for (int j = 0; j < g; j++) { IM M = R; M[j] = y; Int l = detI(M); if (neg) l = -l; if (flip[j]) l = -l; sx::check(sx::cLe(Int(0), l), "points-lie-in-the-cone"); sx::check(sx::cEq(sx::fmod(l, sx::abs(D)), Int(0)), "points-lie-in-the-cone"); } }
        }
        Cond dis(true); for (size_t i = 0; i < pts.size(); i++) for (size_t j = 0; j < i; j++) { Cond eq(true); for (int l = 0; l < d; l++) eq = eq && sx::cEq(pts[i][l], pts[j][l]); dis = dis && !eq; } sx::check(dis, "points-distinct");
      }
    }
    sx::reach("expanded");
  });
  if (r.bad()) sx::fail("ends-normally");
}
static void h() { Cfg c(sx::config()); if (c.s("what") == "series") series(c); else queue(c); }
HARNESS_MAIN(h)
