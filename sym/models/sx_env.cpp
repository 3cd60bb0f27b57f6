// In-memory files and the external commands LattE runs (symbolic mode only).
#include "../include/sx_pre.h"
#include "sx_dd.h"
#undef exit
#undef system
#undef fopen
#undef fclose
#undef rename
#undef mkdir
#undef rand
#undef srand
#include <cstring>
#include <algorithm>
#include <set>
using namespace std;
using sx::Int;
std::map<std::string, SxFile> &sx_files() { static auto &m = *new std::map<std::string, SxFile>; return m; }
std::string sx_path(const std::string &p0) { std::string p = p0; while (p.compare(0, 2, "./") == 0) p = p.substr(2); return p; }
void sx_exit(int code) { throw SxExit{code}; }
int sx_rename(const char *a, const char *b) { auto it = sx_files().find(sx_path(a)); if (it == sx_files().end()) return -1; SxFile f = it->second; sx_files().erase(it); sx_files()[sx_path(b)] = f; return 0; }
int sx_remove(const char *a) { return sx_files().erase(sx_path(a)) ? 0 : -1; }
int sx_mkdir(const char *, int) { return 0; }
int remove_unused;
struct OpenF { FILE *f; std::string name; char *buf; size_t len; bool w; };
static std::vector<OpenF *> &opens = *new std::vector<OpenF *>;
FILE *sx_fopen(const char *n, const char *m) {
  if (!strncmp(n, "/dev/", 5)) return ::fopen(n, m);
  std::string name = sx_path(n); auto it = sx_files().find(name);
  if (m[0] == 'r') { if (it == sx_files().end()) return 0; size_t l = it->second.data.size(); char *b = (char *)malloc(l + 2); memcpy(b, it->second.data.data(), l); b[l] = 0; if (!l) { b[0] = '\n'; l = 1; } OpenF *o = new OpenF{0, name, b, l, false}; o->f = fmemopen(b, l, "r"); opens.push_back(o); return o->f; }
  OpenF *o = new OpenF{0, name, 0, 0, true}; o->f = open_memstream(&o->buf, &o->len); if (m[0] == 'a' && it != sx_files().end()) fputs(it->second.data.c_str(), o->f); if (m[0] == 'w') sx_files()[name].data = ""; opens.push_back(o); return o->f;
}
int sx_fclose(FILE *f) { for (size_t i = 0; i < opens.size(); i++) if (opens[i]->f == f) { OpenF *o = opens[i]; ::fclose(f); if (o->w) sx_files()[o->name].data = std::string(o->buf, o->len); opens.erase(opens.begin() + i); free(o->buf); delete o; return 0; } return ::fclose(f); }
// deterministic stand-in for the C library generator
static unsigned long rs = 1;
int (*sx_rand_hook)() = 0;   // a harness may decide what the generator returns
int sx_rand() { if (sx_rand_hook) { int v = sx_rand_hook(); if (v >= 0) return v; } rs = rs * 6364136223846793005UL + 1442695040888963407UL; return (rs >> 33) & 0x7fffffff; }
void sx_srand(unsigned s) { rs = s * 2654435761UL + 1; }

// ---------------------------------------------------------------- polyhedral file formats
struct Rep { bool V = false; std::vector<std::vector<mpq_class>> a; std::set<int> lin; int n = 0; bool lp = false, maxi = true; std::vector<mpq_class> obj; };
static bool parseRep(const std::string &txt, Rep &r) {
  std::istringstream in(txt); std::string w; bool found = false;
  auto readLin = [&]() { int k; in >> k; for (int i = 0; i < k; i++) { int x; in >> x; r.lin.insert(x - 1); } };
  while (!found && in >> w) { if (!w.compare(0, 5, "V-rep")) r.V = true; else if (!w.compare(0, 5, "H-rep")) r.V = false; else if (!w.compare(0, 12, "partial_enum") || !w.compare(0, 9, "linearity") || !w.compare(0, 8, "equality")) readLin(); else if (w == "begin") found = true; }
  if (!found) return false; int m; in >> m >> r.n >> w; if (!in) return false;
  for (int i = 0; i < m; i++) { r.a.push_back({}); for (int j = 0; j < r.n; j++) { in >> w; mpq_class q; if (!in || !sx_q_parse(q.q, w)) return false; q.canonicalize(); r.a.back().push_back(q); } }
  in >> w; if (w != "end") return false;
  while (in >> w) { if (w == "maximize" || w == "minimize") { r.lp = true; r.maxi = w == "maximize"; for (int j = 0; j < r.n; j++) { in >> w; mpq_class q; sx_q_parse(q.q, w); q.canonicalize(); r.obj.push_back(q); } break; } else if (r.lin.empty() && (!w.compare(0, 12, "partial_enum") || !w.compare(0, 9, "linearity") || !w.compare(0, 8, "equality"))) readLin(); }
  return true;
}
static SVec rowInt(const std::vector<mpq_class> &a) {
  Int l(1); bool triv = true; for (auto &x : a) { const mpz_class &d = x.get_den(); if (!(d.z.v.isConst() && d.z.v == Int(1))) triv = false; }
  SVec r; if (triv) { for (auto &x : a) r.push_back(x.get_num().z.v); } else { for (auto &x : a) l = sx::lcm(l, x.get_den().z.v); for (auto &x : a) r.push_back(x.get_num().z.v * sx::fdiv(l, x.get_den().z.v)); }
  return r;
}
static std::string ratStr(const Int &n, const Int &d) { mpq_class q((mpz_class(n)), (mpz_class(d))); q.canonicalize(); return q.get_str(); }
static std::string famLine(int idx, const std::vector<int> &s, int size) {
  std::ostringstream o; std::set<int> m(s.begin(), s.end()); bool comp = 2 * (int)s.size() > size;
  o << " " << idx << " " << (comp ? -(int)s.size() : (int)s.size()) << " : ";
  for (int i = 1; i <= size; i++) if (m.count(i) != (size_t)comp) o << i << " "; o << "\n"; return o.str();
}
struct VRep { std::vector<std::vector<std::string>> rows; std::vector<int> lin; std::vector<std::vector<int>> adj; };
static DDResult hrepDD(const Rep &r, bool &homog) {
  std::vector<SVec> rows; std::vector<char> eq; homog = true;
  for (size_t i = 0; i < r.a.size(); i++) { rows.push_back(rowInt(r.a[i])); eq.push_back(r.lin.count(i)); if (!sx::isZero(rows.back()[0])) homog = false; }
  if (homog) { for (auto &x : rows) x.erase(x.begin()); return sx_dd(r.n - 1, rows, eq); }
  SVec inf(r.n, Int(0)); inf[0] = Int(1); rows.push_back(inf); eq.push_back(0); return sx_dd(r.n, rows, eq);
}
static void enumerate(const Rep &r, const std::string &stem) {
  if (r.V) {
    std::vector<SVec> rows; std::vector<char> eq; for (size_t i = 0; i < r.a.size(); i++) { rows.push_back(rowInt(r.a[i])); eq.push_back(r.lin.count(i)); }
    bool z = true; for (auto &x : rows) if (!sx::isZero(x[0])) z = false;
    int off = z ? 1 : 0; if (z) for (auto &x : rows) x.erase(x.begin());
    DDResult d = sx_dd(r.n - off, rows, eq);
    std::ostringstream o, ic; o << "* cddlib model\nine_file: Inequalities\nH-representation\n";
    size_t m = d.rays.size() + d.lin.size(); if (d.lin.size()) { o << "linearity " << d.lin.size(); for (size_t i = 0; i < d.lin.size(); i++) o << " " << d.rays.size() + i + 1; o << "\n"; }
    o << "begin\n " << m << " " << r.n << " rational\n"; ic << "icd_file: Incidence of inequalities\nbegin\n  " << m << "  " << r.a.size() << "    " << "\n";
    int idx = 0; auto pr = [&](const SVec &v) { if (off) o << " 0"; for (size_t j = 0; j < v.size(); j++) { const Int &x = v[j]; if (off && j + 1 == v.size()) { int sg = sx::sgn(x); o << (sg < 0 ? " -" : " ") << (sg ? (sg < 0 ? -x : x).str() : "0"); } else o << " " << x.str(); } o << "\n"; };   // readers look at the first character of the last column
    for (auto &x : d.rays) { pr(x.v); std::vector<int> s; for (size_t i = 0; i < r.a.size(); i++) if (x.tight[i]) s.push_back(i + 1); ic << famLine(++idx, s, r.a.size()); }
    for (auto &x : d.lin) { pr(x); std::vector<int> s; for (size_t i = 0; i < r.a.size(); i++) s.push_back(i + 1); ic << famLine(++idx, s, r.a.size()); }
    o << "end\n"; ic << "end\n"; sx_files()[stem + ".ine"].data = o.str(); sx_files()[stem + ".icd"].data = ic.str(); return;
  }
  bool homog; DDResult d = hrepDD(r, homog); size_t n = d.rays.size(); std::ostringstream o, ad;
  bool feas = homog; if (!homog) { for (auto &x : d.rays) if (!sx::isZero(x.v[0])) feas = true; }
  o << "* cddlib model\next_file: Generators\nV-representation\n";
  if (!feas) { o << "begin\n 0 " << r.n << " rational\nend\n"; sx_files()[stem + ".ext"].data = o.str(); sx_files()[stem + ".ead"].data = "ead_file: Adjacency of generators\nbegin\n  0    0\nend\n"; return; }
  if (d.lin.size()) { o << "linearity " << d.lin.size() << " "; for (size_t i = 0; i < d.lin.size(); i++) o << " " << n + i + 1; o << "\n"; }
  o << "begin\n " << n + d.lin.size() << " " << r.n << " rational\n";
  for (auto &x : d.rays) { if (homog) {   // cddlib divides by the smallest entry: primitive once denominators are cleared
      Int g(0); for (auto &y : x.v) { Int c; if (sx::knownConst(y, c)) g = sx::gcd(g, c); } for (auto &y : x.v) { Int c; if (!(g.small() && g.sval() == 1) && !sx::knownConst(y, c)) g = sx::gcd(g, y); }
      o << " 0"; for (auto &y : x.v) o << " " << (g.small() && g.sval() == 1 ? y : sx::fdiv(y, g)).str(); } else if (sx::isZero(x.v[0])) { for (auto &y : x.v) o << " " << y.str(); } else { o << " 1"; for (int j = 1; j < r.n; j++) o << " " << ratStr(x.v[j], x.v[0]); } o << "\n"; }
  for (auto &x : d.lin) { if (homog) o << " 0"; for (auto &y : x) o << " " << y.str(); o << "\n"; }
  o << "end\n"; ad << "ead_file: Adjacency of generators\nbegin\n";
  if (d.lin.size()) ad << "  0    0\n"; else { ad << "  " << n << "    " << n << "\n"; for (size_t i = 0; i < n; i++) { std::vector<int> s; for (size_t j = 0; j < n; j++) if (j != i && sx_dd_adjacent(d, i, j)) s.push_back(j + 1); ad << famLine(i + 1, s, n); } }
  ad << "end\n"; sx_files()[stem + ".ext"].data = o.str(); sx_files()[stem + ".ead"].data = ad.str();
}
static void solveLP(const Rep &r, const std::string &stem) {
  std::vector<SVec> rows; std::vector<char> eq; for (size_t i = 0; i < r.a.size(); i++) { rows.push_back(rowInt(r.a[i])); eq.push_back(r.lin.count(i)); }
  SVec inf(r.n, Int(0)); inf[0] = Int(1); rows.push_back(inf); eq.push_back(0); DDResult d = sx_dd(r.n, rows, eq);
  SVec c = rowInt(r.obj); if (!r.maxi) for (auto &x : c) x = -x;
  bool feas = false, unb = false; int best = -1; SVec dir;
  for (auto &l : d.lin) { Int v = sx_dot(c, l) - c[0] * l[0]; int s = sx::sgn(v); if (s) { unb = true; dir = l; if (s < 0) for (auto &x : dir) x = -x; } }
  for (size_t i = 0; i < d.rays.size(); i++) { SVec &v = d.rays[i].v; if (sx::isZero(v[0])) { if (!unb && sx::isPos(sx_dot(c, v))) { unb = true; dir = v; } } else { feas = true; if (best < 0 || sx::isPos(sx_dot(c, v) * d.rays[best].v[0] - sx_dot(c, d.rays[best].v) * v[0])) best = i; } }
  std::ostringstream o; o << "* cdd LP solver result\n* LP status: \nbegin\n";
  if (unb) { o << "  primal_direction\n"; for (int j = 1; j < r.n; j++) o << "    " << j << " :  " << dir[j].str() << "\n"; }
  else if (!feas) { o << "  dual_direction\n    1 :  1\n"; }
  else { o << "  primal_solution\n"; SVec &v = d.rays[best].v; for (int j = 1; j < r.n; j++) o << "    " << j << " :  " << ratStr(v[j], v[0]) << "\n"; Int num = sx_dot(c, v); if (!r.maxi) num = -num; o << "  dual_solution\n    1 :  1\n  optimal_value :  " << ratStr(num, v[0]) << "\n"; }
  o << "end\n"; sx_files()[stem + ".lps"].data = o.str();
}
// canonical H-representation: linearities first, then the irredundant inequalities
bool sx_canonicalize(const std::vector<SVec> &rows, const std::vector<char> &eq0, int n, std::vector<int> &linRows, std::vector<int> &keep, std::vector<char> &implicit) {
  std::vector<SVec> a = rows; std::vector<char> eq = eq0; SVec inf(n, Int(0)); inf[0] = Int(1); a.push_back(inf); eq.push_back(0);
  DDResult d = sx_dd(n, a, eq); implicit.assign(rows.size(), 0); bool feas = false; for (auto &x : d.rays) if (!sx::isZero(x.v[0])) feas = true;
  std::vector<char> iseq = eq0;
  for (size_t i = 0; i < rows.size(); i++) if (!eq0[i]) { bool all = true; for (auto &x : d.rays) if (!x.tight[i]) { all = false; break; } if (all) { implicit[i] = 1; iseq[i] = 1; } }
  std::vector<SVec> basis; for (size_t i = 0; i < rows.size(); i++) if (iseq[i]) { basis.push_back(rows[i]); if (sx_rank(basis) < (int)basis.size()) basis.pop_back(); else linRows.push_back(i); }
  // redundancy of the inequalities, one after the other from the last
  std::vector<char> alive(rows.size(), 1); for (size_t i = 0; i < rows.size(); i++) if (iseq[i]) alive[i] = 0;
  for (int i = (int)rows.size() - 1; i >= 0; i--) if (alive[i]) {
    std::vector<SVec> b; std::vector<char> e; for (int k : linRows) { b.push_back(rows[k]); e.push_back(1); } for (size_t k = 0; k < rows.size(); k++) if (alive[k] && (int)k != i) { b.push_back(rows[k]); e.push_back(0); } b.push_back(inf); e.push_back(0);
    DDResult q = sx_dd(n, b, e); bool red = true; for (auto &l : q.lin) if (red && !sx::isZero(sx_dot(rows[i], l))) red = false; for (auto &x : q.rays) if (red && sx::isNeg(sx_dot(rows[i], x.v))) red = false;
    if (red) alive[i] = 0; }
  for (size_t i = 0; i < rows.size(); i++) if (alive[i]) keep.push_back(i);
  return feas;
}
static void redcheck(const Rep &r, const std::string &out) {
  std::vector<SVec> rows; std::vector<char> eq; for (size_t i = 0; i < r.a.size(); i++) { rows.push_back(rowInt(r.a[i])); eq.push_back(r.lin.count(i)); }
  std::vector<int> lin, keep; std::vector<char> impl; sx_canonicalize(rows, eq, r.n, lin, keep, impl);
  std::ostringstream o; o << "input file is open\nCanonicalize the matrix.\nNonredundant representation:\nH-representation\n";
  if (lin.size()) { o << "linearity " << lin.size() << " "; for (size_t i = 0; i < lin.size(); i++) o << " " << i + 1; o << "\n"; }
  o << "begin\n " << lin.size() + keep.size() << " " << r.n << " rational\n";
  for (auto *l : {&lin, &keep}) for (int i : *l) { for (auto &x : r.a[i]) o << " " << x.get_str(); o << "\n"; }
  o << "end\n"; sx_files()[out].data = o.str();
}
static bool globMatch(const char *p, const char *s) { if (!*p) return !*s; if (*p == '*') return globMatch(p + 1, s) || (*s && globMatch(p, s + 1)); return *p == *s && globMatch(p + 1, s + 1); }
int (*sx_count_hook)(const std::vector<std::string> &) = 0, (*sx_polymake_hook)(const std::vector<std::string> &) = 0;
static std::vector<std::string> split(const std::string &s) {   // words of a POSIX shell (quotes and backslashes removed); unquoted > stays a word
  std::vector<std::string> v; std::string w; bool in = false;
  for (size_t i = 0; i < s.size(); i++) { char c = s[i];
    if (c == '\'') { in = true; for (i++; i < s.size() && s[i] != '\''; i++) w += s[i]; }
    else if (c == '"') { in = true; for (i++; i < s.size() && s[i] != '"'; i++) { if (s[i] == '\\' && i + 1 < s.size() && strchr("\\\"$`", s[i + 1])) i++; w += s[i]; } }
    else if (c == '\\' && i + 1 < s.size()) { in = true; w += s[++i]; }
    else if (isspace((unsigned char)c)) { if (in) { v.push_back(w); w.clear(); in = false; } }
    else { in = true; w += c; } }
  if (in) v.push_back(w); return v; }
std::vector<std::string> &sx_commands() { static auto &v = *new std::vector<std::string>; return v; }
int sx_system(const char *cmd) {
  sx_commands().push_back(cmd);
  std::vector<std::string> w = split(cmd); if (w.empty()) return 0;
  if (w[0] == "time") w.erase(w.begin());
  std::string prog = w[0]; size_t k = prog.rfind('/'); if (k != std::string::npos) prog = prog.substr(k + 1);
  auto file = [&](const std::string &n) { auto it = sx_files().find(sx_path(n)); return it == sx_files().end() ? std::string() : it->second.data; };
  auto stem = [&](const std::string &n) { size_t d = n.rfind('.'); return d == std::string::npos ? n : n.substr(0, d); };
  if (prog == "rm") { for (size_t i = 1; i < w.size(); i++) if (w[i][0] != '-') for (auto it = sx_files().begin(); it != sx_files().end();) if (globMatch(sx_path(w[i]).c_str(), it->first.c_str())) it = sx_files().erase(it); else ++it; return 0; }
  if (prog == "cp" || prog == "mv") { std::string d = file(w[1]); sx_files()[sx_path(w[2])].data = d; if (prog == "mv") sx_files().erase(sx_path(w[1])); return 0; }
  if (prog == "scdd_gmp") { Rep r; if (!parseRep(file(w[1]), r)) return 256; sx_files()[sx_path(w[3])].data = "scdd\n"; if (r.lp) solveLP(r, stem(w[1])); else enumerate(r, stem(w[1])); return 0; }
  if (prog == "redcheck_gmp") { Rep r; if (!parseRep(file(w[1]), r)) return 256; redcheck(r, w[3]); return 0; }
  if (prog == "lrs") { Rep r; if (!parseRep(file(w[1]), r)) return 256; enumerate(r, "sx_lrs_tmp"); sx_files()[sx_path(w[3])].data = sx_files()[r.V ? "sx_lrs_tmp.ine" : "sx_lrs_tmp.ext"].data; return 0; }
  if (prog == "maple") return 0;   // the script is read back by the harness
  if ((prog == "polymake" || prog == "center") && sx_polymake_hook) return sx_polymake_hook(w);
  if (prog == "count" && sx_count_hook) return sx_count_hook(w);
  fprintf(stderr, "sx_system: unmodelled command %s\n", cmd);
  sx::cut(std::string("external command: ") + prog); return 1;
}
