// Contract model of the 4ti2 entry points LattE uses.
#include <iostream>
#include <string>
#include "groebner/VectorArray.h"
#include "groebner/VectorArrayStream.h"
#include "groebner/BitSet.h"
#include "groebner/LatticeBasis.h"
#include "groebner/RayAlgorithm.h"
#include "groebner/HermiteAlgorithm.h"
#include "sx_dd.h"

std::string relocated_pathname(const char *p) { return p; }
std::string relocated_pathname(const std::string &p) { return p; }
extern "C" void set_program_name(const char *) {}

namespace _4ti2_ {
Vector::Vector(Size n) { size = n; vector = new IntegerType[n]; }
Vector::Vector(const Vector &o) { size = o.size; vector = new IntegerType[size]; for (int i = 0; i < size; i++) vector[i] = o.vector[i]; }
Vector::~Vector() { delete[] vector; }
VectorArray::VectorArray(Size m, Size n) { number = m; size = n; for (int i = 0; i < m; i++) vectors.push_back(new Vector(n)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) (*vectors[i])[j] = 0; }
VectorArray::~VectorArray() { for (auto *v : vectors) delete v; }

static const unsigned BPB = sizeof(BlockType) * 8;
BlockType LongDenseIndexSet::set_masks[BPB];
BlockType LongDenseIndexSet::unset_masks[BPB];
BlockType LongDenseIndexSet::unused_masks[BPB + 1];
void LongDenseIndexSet::initialise() {
  unused_masks[0] = 0;
  for (unsigned i = 0; i < BPB; i++) { set_masks[i] = ((BlockType)1) << i; unset_masks[i] = ~set_masks[i]; unused_masks[i + 1] = unused_masks[i] | set_masks[i]; }
}
RayAlgorithm::RayAlgorithm() {}
RayAlgorithm::~RayAlgorithm() {}

// integer basis of the kernel; matrix has a +-identity block of slack columns
void lattice_basis(const VectorArray &m, VectorArray &basis) {
  int r = m.get_number(), n = m.get_size();
  std::vector<int> piv(r, -1); std::vector<char> isp(n, 0);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < n && piv[i] < 0; j++) {
      bool ok = !isp[j];
      for (int k = 0; k < r && ok; k++) {
        const sx::Int &x = m[k][j].z.v;
        if (!x.isConst()) ok = false;
        else if (k == i ? !(x.small() && (x.sval() == 1 || x.sval() == -1)) : !(x.small() && x.sval() == 0)) ok = false;
      }
      if (ok) { piv[i] = j; isp[j] = 1; }
    }
  for (int i = 0; i < r; i++) if (piv[i] < 0) sx::cut("lattice_basis: no slack block");
  for (int j = 0; j < n; j++) if (!isp[j]) {
    Vector v(n);
    for (int k = 0; k < n; k++) v[k] = 0;
    v[j] = 1;
    for (int i = 0; i < r; i++) { sx::Int s = m[i][piv[i]].z.v; v[piv[i]].z.v = -(s * m[i][j].z.v); }
    basis.insert(v);
  }
}

void VectorArray::insert(const Vector &v) { vectors.push_back(new Vector(v)); ++number; }

BitSet RayAlgorithm::compute(VectorArray &matrix, VectorArray &vs, VectorArray &subspace, const BitSet &rs) {
  int k = vs.get_number(), n = vs.get_size();
  std::vector<SVec> rows; std::vector<char> eq;
  for (int i = 0; i < n; i++) if (rs[i]) { SVec r; for (int j = 0; j < k; j++) r.push_back(vs[j][i].z.v); rows.push_back(r); eq.push_back(0); }
  DDResult d = sx_dd(k, rows, eq);
  auto expand = [&](const SVec &c) {
    SVec x(n);
    for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) x[i] = x[i] + c[j] * vs[j][i].z.v;
    sx::vecPrimitive(x);
    // 4ti2 returns primitive vectors: divide by the greatest common divisor (a split into residue classes when symbolic)
    sx::Int g(0); for (auto &y : x) { sx::Int c; if (sx::knownConst(y, c)) g = sx::gcd(g, c); }
    if (!(g.small() && g.sval() == 1)) { for (auto &y : x) { sx::Int c; if (!sx::knownConst(y, c)) g = sx::gcd(g, y); } if (!(g.small() && g.sval() == 1)) for (auto &y : x) y = sx::fdiv(y, g); }
    Vector v(n);
    for (int i = 0; i < n; i++) v[i].z.v = x[i];
    return v;
  };
  VectorArray out(0, n);
  std::vector<Vector> rr, ll;
  for (auto &r : d.rays) rr.push_back(expand(r.v));
  for (auto &l : d.lin) ll.push_back(expand(l));
  while (vs.vectors.size()) { delete vs.vectors.back(); vs.vectors.pop_back(); } vs.number = 0;
  for (auto &v : rr) vs.insert(v);
  for (auto &v : ll) subspace.insert(v);
  return rs;
}

Index upper_triangle(VectorArray &vs, Index nr, Index nc) {
  int r = 0;
  for (int c = 0; c < nc && r < nr; c++) {
    int p = -1;
    for (int i = r; i < nr && p < 0; i++) if (!sx::isZero(vs[i][c].z.v)) p = i;
    if (p < 0) continue;
    if (p != r) for (int j = 0; j < vs.get_size(); j++) std::swap(vs[p][j].z.v, vs[r][j].z.v);
    for (int i = r + 1; i < nr; i++) {
      sx::Int a = vs[r][c].z.v, b = vs[i][c].z.v;
      SVec row;
      for (int j = 0; j < vs.get_size(); j++) row.push_back(vs[i][j].z.v * a - vs[r][j].z.v * b);
      sx::vecPrimitive(row);
      for (int j = 0; j < vs.get_size(); j++) vs[i][j].z.v = row[j];
    }
    r++;
  }
  return r;
}
void print(std::ostream &, const VectorArray &, Index, Index) {}
std::ostream &operator<<(std::ostream &o, const VectorArray &) { return o; }
}
