#pragma once
#include <string>
#include <vector>
typedef std::vector<std::vector<std::string>> SB;
long sb_lll(std::string &det2, SB &m, SB *u, long a, long b, int what);   // real NTL
void sb_hnf(SB &out, const SB &m, const std::string &d);
long sb_latsolve(std::vector<std::string> &x, const SB &m, const std::vector<std::string> &y, long red);
