// Double description on symbolic integers: the contract of the external polyhedral codes
// (cddlib, scdd, lrs, 4ti2 rays) that LattE calls.
#pragma once
#include <vector>
#include <cstdint>
#include "../rt/sym.h"
typedef std::vector<sx::Int> SVec;
struct DDRay { SVec v; std::vector<char> tight; };
struct DDResult {
  int d = 0;
  std::vector<SVec> rows; std::vector<char> eq;   // the input
  std::vector<SVec> lin;                          // basis of the lineality space
  std::vector<DDRay> rays;                        // extreme rays (modulo lineality), tight[i] per input row
};
// cone { x : rows[i] x >= 0 (== 0 where eq[i]) } in dimension d
DDResult sx_dd(int d, const std::vector<SVec> &rows, const std::vector<char> &eq);
bool sx_dd_adjacent(const DDResult &r, size_t i, size_t j);
sx::Int sx_dot(const SVec &a, const SVec &b);
int sx_rank(std::vector<SVec> m);
