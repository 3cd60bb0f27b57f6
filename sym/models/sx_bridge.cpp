// The real NTL, for lattice reduction of concrete matrices.
#include <NTL/ZZ.h>
#include <NTL/LLL.h>
#include <NTL/HNF.h>
#include <NTL/mat_ZZ.h>
#include <sstream>
#include "sx_bridge.h"
using namespace NTL;
static mat_ZZ in(const SB &m, long cols) { mat_ZZ a; a.SetDims(m.size(), cols); for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m[i].size(); j++) conv(a[i][j], m[i][j].c_str()); return a; }
static std::string str(const ZZ &z) { std::ostringstream o; o << z; return o.str(); }
static SB out(const mat_ZZ &a) { SB m; for (long i = 0; i < a.NumRows(); i++) { m.push_back({}); for (long j = 0; j < a.NumCols(); j++) m.back().push_back(str(a[i][j])); } return m; }
long sb_lll(std::string &det2, SB &m, SB *u, long a, long b, int what) {
  mat_ZZ x = in(m, m.empty() ? 0 : m[0].size()), y; ZZ d; long r;
  if (what == 0) r = u ? LLL(d, x, y, a, b) : LLL(d, x, a, b); else r = u ? image(d, x, y) : image(d, x);
  m = out(x); if (u) *u = out(y); det2 = str(d); return r; }
void sb_hnf(SB &o, const SB &m, const std::string &d) { mat_ZZ x = in(m, m.empty() ? 0 : m[0].size()), w; ZZ dd; conv(dd, d.c_str()); HNF(w, x, dd); o = out(w); }
long sb_latsolve(std::vector<std::string> &x, const SB &m, const std::vector<std::string> &y, long red) { mat_ZZ a = in(m, m.empty() ? 0 : m[0].size()); vec_ZZ yy, xx; yy.SetLength(y.size()); for (size_t i = 0; i < y.size(); i++) conv(yy[i], y[i].c_str()); long r = LatticeSolve(xx, a, yy, red); if (r) for (long i = 0; i < xx.length(); i++) x.push_back(str(xx[i])); return r; }
