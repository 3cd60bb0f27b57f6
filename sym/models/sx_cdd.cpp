// cddlib by its documented contract, on symbolic rationals.
#include "../include/sx_pre.h"
#include "latte_cddlib.h"
#include "sx_dd.h"
#include <cstring>
using sx::Int;
bool sx_canonicalize(const std::vector<SVec> &rows, const std::vector<char> &eq0, int n, std::vector<int> &linRows, std::vector<int> &keep, std::vector<char> &implicit);
struct PolyX { DDResult d; std::vector<SVec> rows; std::vector<char> eq; bool gen, homog; int n; };
static std::map<void *, PolyX *> &polys = *new std::map<void *, PolyX *>;
static SVec rowInt(mytype *a, int n) {
  bool triv = true; SVec r; for (int j = 0; j < n; j++) { sx_q_canon(a[j][0]); if (!(a[j]->d.v.isConst() && a[j]->d.v == Int(1))) triv = false; }
  Int l(1); if (!triv) for (int j = 0; j < n; j++) l = sx::lcm(l, a[j]->d.v);
  for (int j = 0; j < n; j++) r.push_back(triv ? a[j]->n.v : a[j]->n.v * sx::fdiv(l, a[j]->d.v)); return r; }
extern "C" {
// sets: word 0 = ground size
unsigned long set_blocks(long len) { return (len + 63) / 64 + 1; }
void set_initialize(set_type *s, long len) { *s = (set_type)calloc(set_blocks(len), 8); (*s)[0] = len; }
void set_free(set_type s) { free(s); }
void set_emptyset(set_type s) { memset(s + 1, 0, 8 * (set_blocks(s[0]) - 1)); }
void set_copy(set_type a, set_type b) { memcpy(a, b, 8 * set_blocks(b[0])); }
void set_addelem(set_type s, long e) { if (e >= 1 && e <= (long)s[0]) s[1 + (e - 1) / 64] |= 1UL << ((e - 1) % 64); }
void set_delelem(set_type s, long e) { if (e >= 1 && e <= (long)s[0]) s[1 + (e - 1) / 64] &= ~(1UL << ((e - 1) % 64)); }
int set_member(long e, set_type s) { return e >= 1 && e <= (long)s[0] && (s[1 + (e - 1) / 64] >> ((e - 1) % 64) & 1); }
long set_card(set_type s) { long c = 0; for (long i = 1; i <= (long)s[0]; i++) c += set_member(i, s); return c; }
long set_groundsize(set_type s) { return s[0]; }
void set_uni(set_type r, set_type a, set_type b) { for (unsigned long i = 1; i < set_blocks(a[0]); i++) r[i] = a[i] | b[i]; }
void set_int(set_type r, set_type a, set_type b) { for (unsigned long i = 1; i < set_blocks(a[0]); i++) r[i] = a[i] & b[i]; }
void set_diff(set_type r, set_type a, set_type b) { for (unsigned long i = 1; i < set_blocks(a[0]); i++) r[i] = a[i] & ~b[i]; }
void set_compl(set_type r, set_type a) { set_type t; set_initialize(&t, a[0]); for (long i = 1; i <= (long)a[0]; i++) if (!set_member(i, a)) set_addelem(t, i); set_copy(r, t); set_free(t); }
void set_fwrite(FILE *f, set_type s) { for (long i = 1; i <= (long)s[0]; i++) if (set_member(i, s)) fprintf(f, "%ld ", i); fprintf(f, "\n"); }
void dd_set_global_constants(void) {}
void dd_free_global_constants(void) {}
void ddd_mpq_set_si(mytype a, signed long b) { mpq_set_si(a, b, 1); }
void dd_WriteErrorMessages(FILE *, dd_ErrorType) {}
dd_MatrixPtr dd_CreateMatrix(dd_rowrange m, dd_colrange n) {
  dd_MatrixPtr M = (dd_MatrixPtr)calloc(1, sizeof(dd_MatrixType)); if (m < 0) m = 0; if (n < 0) n = 0; M->rowsize = m; M->colsize = n; set_initialize(&M->linset, m > 0 ? m : 1);
  M->matrix = (mytype **)calloc(m + 1, sizeof(mytype *)); for (long i = 0; i < m; i++) M->matrix[i] = (mytype *)new sx_mpq_s[n + 1]; M->rowvec = (mytype *)new sx_mpq_s[n + 1]; M->representation = dd_Unspecified; M->numbtype = dd_Rational; M->objective = dd_LPnone; return M; }
void dd_FreeMatrix(dd_MatrixPtr M) { if (!M) return; for (long i = 0; i < M->rowsize; i++) delete[] (sx_mpq_s *)M->matrix[i]; free(M->matrix); delete[] (sx_mpq_s *)M->rowvec; set_free(M->linset); free(M); }
static void load(dd_MatrixPtr M, std::vector<SVec> &rows, std::vector<char> &eq) { for (long i = 0; i < M->rowsize; i++) { rows.push_back(rowInt(M->matrix[i], M->colsize)); eq.push_back(set_member(i + 1, M->linset)); } }
dd_PolyhedraPtr dd_DDMatrix2Poly(dd_MatrixPtr M, dd_ErrorType *err) {
  PolyX *P = new PolyX; P->n = M->colsize; P->gen = M->representation == dd_Generator; load(M, P->rows, P->eq); P->homog = true; for (auto &r : P->rows) if (!sx::isZero(r[0])) P->homog = false;
  std::vector<SVec> a = P->rows; std::vector<char> e = P->eq;
  if (P->homog) { for (auto &x : a) x.erase(x.begin()); P->d = sx_dd(P->n - 1, a, e); }
  else { if (!P->gen) { SVec inf(P->n, Int(0)); inf[0] = Int(1); a.push_back(inf); e.push_back(0); } P->d = sx_dd(P->n, a, e); }
  *err = dd_NoError; void *h = calloc(1, sizeof(dd_PolyhedraType)); polys[h] = P; return (dd_PolyhedraPtr)h; }
void dd_FreePolyhedra(dd_PolyhedraPtr p) { delete polys[p]; polys.erase(p); free(p); }
static dd_MatrixPtr outRows(PolyX *P, dd_RepresentationType rep) {
  int off = P->homog ? 1 : 0; long m = P->d.rays.size() + P->d.lin.size(); dd_MatrixPtr M = dd_CreateMatrix(m, P->n); M->representation = rep; long i = 0;
  for (auto &x : P->d.rays) { for (int j = off; j < P->n; j++) { M->matrix[i][j]->n.v = x.v[j - off]; } i++; }
  for (auto &x : P->d.lin) { for (int j = off; j < P->n; j++) M->matrix[i][j]->n.v = x[j - off]; set_addelem(M->linset, ++i); }
  return M; }
static dd_MatrixPtr inRows(PolyX *P, dd_RepresentationType rep) { dd_MatrixPtr M = dd_CreateMatrix(P->rows.size(), P->n); M->representation = rep; for (size_t i = 0; i < P->rows.size(); i++) { for (int j = 0; j < P->n; j++) M->matrix[i][j]->n.v = P->rows[i][j]; if (P->eq[i]) set_addelem(M->linset, i + 1); } return M; }
dd_MatrixPtr dd_CopyInequalities(dd_PolyhedraPtr p) { PolyX *P = polys[p]; return P->gen ? outRows(P, dd_Inequality) : inRows(P, dd_Inequality); }
dd_MatrixPtr dd_CopyGenerators(dd_PolyhedraPtr p) { PolyX *P = polys[p]; if (P->gen) return inRows(P, dd_Generator); dd_MatrixPtr M = outRows(P, dd_Generator); if (!P->homog) for (long i = 0; i < M->rowsize; i++) if (mpq_sgn(M->matrix[i][0])) { mpq_t t; mpq_init(t); mpq_set(t, M->matrix[i][0]); for (int j = 0; j < P->n; j++) mpq_div(M->matrix[i][j], M->matrix[i][j], t); } return M; }
dd_SetFamilyPtr dd_CopyIncidence(dd_PolyhedraPtr p) {
  PolyX *P = polys[p]; long m = P->d.rays.size() + P->d.lin.size(), k = P->rows.size() + (P->gen || P->homog ? 0 : 1); dd_SetFamilyPtr F = (dd_SetFamilyPtr)calloc(1, sizeof(dd_SetFamilyType)); F->famsize = m; F->setsize = k; F->set = (set_type *)calloc(m + 1, sizeof(set_type));
  for (long i = 0; i < m; i++) { set_initialize(&F->set[i], k); for (long j = 0; j < k; j++) if (i >= (long)P->d.rays.size() || P->d.rays[i].tight[j]) set_addelem(F->set[i], j + 1); } return F; }
void dd_FreeSetFamily(dd_SetFamilyPtr F) { for (long i = 0; i < F->famsize; i++) set_free(F->set[i]); free(F->set); free(F); }
dd_rowset dd_RedundantRows(dd_MatrixPtr M, dd_ErrorType *err) {
  std::vector<SVec> rows; std::vector<char> eq; load(M, rows, eq); std::vector<char> alive(rows.size(), 1); dd_rowset R; set_initialize(&R, M->rowsize > 0 ? M->rowsize : 1); *err = dd_NoError; int n = M->colsize;
  for (int i = (int)rows.size() - 1; i >= 0; i--) if (!eq[i]) {
    std::vector<SVec> b; std::vector<char> e; for (size_t k = 0; k < rows.size(); k++) if (alive[k] && (int)k != i) { b.push_back(rows[k]); e.push_back(eq[k]); }
    if (M->representation != dd_Generator) { SVec inf(n, Int(0)); inf[0] = Int(1); b.push_back(inf); e.push_back(0); }
    DDResult q = sx_dd(n, b, e); bool red = true; for (auto &l : q.lin) if (red && !sx::isZero(sx_dot(rows[i], l))) red = false; for (auto &x : q.rays) if (red && sx::isNeg(sx_dot(rows[i], x.v))) red = false;
    if (red) { alive[i] = 0; set_addelem(R, i + 1); } }
  return R; }
dd_rowset dd_ImplicitLinearityRows(dd_MatrixPtr M, dd_ErrorType *err) {
  std::vector<SVec> rows; std::vector<char> eq; load(M, rows, eq); *err = dd_NoError; dd_rowset R; set_initialize(&R, M->rowsize > 0 ? M->rowsize : 1); int n = M->colsize;
  std::vector<SVec> a = rows; std::vector<char> e = eq; if (M->representation != dd_Generator) { SVec inf(n, Int(0)); inf[0] = Int(1); a.push_back(inf); e.push_back(0); } DDResult d = sx_dd(n, a, e);
  for (size_t i = 0; i < rows.size(); i++) if (!eq[i]) { bool all = true; for (auto &x : d.rays) if (!x.tight[i]) { all = false; break; } if (all) set_addelem(R, i + 1); } return R; }
static dd_MatrixPtr pick(dd_MatrixPtr M, const std::vector<int> &lin, const std::vector<int> &rest) { dd_MatrixPtr N = dd_CreateMatrix(lin.size() + rest.size(), M->colsize); N->representation = M->representation; N->numbtype = M->numbtype; long k = 0; for (int i : lin) { for (long j = 0; j < M->colsize; j++) mpq_set(N->matrix[k][j], M->matrix[i][j]); set_addelem(N->linset, ++k); } for (int i : rest) { for (long j = 0; j < M->colsize; j++) mpq_set(N->matrix[k][j], M->matrix[i][j]); k++; } return N; }
dd_boolean dd_MatrixCanonicalize(dd_MatrixPtr *M, dd_rowset *impl, dd_rowset *red, dd_rowindex *newpos, dd_ErrorType *err) {
  std::vector<SVec> rows; std::vector<char> eq; load(*M, rows, eq); std::vector<int> lin, keep; std::vector<char> im; sx_canonicalize(rows, eq, (*M)->colsize, lin, keep, im);
  long m = (*M)->rowsize; set_initialize(impl, m ? m : 1); set_initialize(red, m ? m : 1); *newpos = (dd_rowindex)calloc(m + 1, sizeof(long)); for (long i = 0; i < m; i++) if (im[i]) set_addelem(*impl, i + 1);
  for (size_t i = 0; i < lin.size(); i++) (*newpos)[lin[i] + 1] = i + 1; for (size_t i = 0; i < keep.size(); i++) (*newpos)[keep[i] + 1] = lin.size() + i + 1; for (long i = 1; i <= m; i++) if (!(*newpos)[i]) set_addelem(*red, i);
  dd_MatrixPtr N = pick(*M, lin, keep); dd_FreeMatrix(*M); *M = N; *err = dd_NoError; return 1; }
dd_boolean dd_MatrixCanonicalizeLinearity(dd_MatrixPtr *M, dd_rowset *impl, dd_rowindex *newpos, dd_ErrorType *err) {
  std::vector<SVec> rows; std::vector<char> eq; load(*M, rows, eq); dd_rowset im = dd_ImplicitLinearityRows(*M, err); long m = (*M)->rowsize; std::vector<SVec> basis; std::vector<int> lin, keep;
  for (long i = 0; i < m; i++) if (eq[i] || set_member(i + 1, im)) { basis.push_back(rows[i]); if (sx_rank(basis) < (int)basis.size()) basis.pop_back(); else lin.push_back(i); } else keep.push_back(i);
  *impl = im; *newpos = (dd_rowindex)calloc(m + 1, sizeof(long)); dd_MatrixPtr N = pick(*M, lin, keep); dd_FreeMatrix(*M); *M = N; *err = dd_NoError; return 1; }
dd_MatrixPtr dd_MatrixSubmatrix(dd_MatrixPtr M, dd_rowset del) { std::vector<int> keep; for (long i = 0; i < M->rowsize; i++) if (!set_member(i + 1, del)) keep.push_back(i); dd_MatrixPtr N = pick(M, {}, keep); for (size_t k = 0; k < keep.size(); k++) if (set_member(keep[k] + 1, M->linset)) set_addelem(N->linset, k + 1); return N; }
long dd_MatrixRank(dd_MatrixPtr M, dd_rowset ignr, dd_colset ignc, dd_rowset *rb, dd_colset *cb) { set_initialize(rb, M->rowsize > 0 ? M->rowsize : 1); set_initialize(cb, M->colsize > 0 ? M->colsize : 1); std::vector<SVec> basis; for (long i = 0; i < M->rowsize; i++) if (!set_member(i + 1, ignr)) { SVec r = rowInt(M->matrix[i], M->colsize); for (long j = 0; j < M->colsize; j++) if (set_member(j + 1, ignc)) r[j] = Int(0); basis.push_back(r); if (sx_rank(basis) < (int)basis.size()) basis.pop_back(); else set_addelem(*rb, i + 1); } return basis.size(); }
dd_SetFamilyPtr dd_Matrix2Adjacency(dd_MatrixPtr M, dd_ErrorType *err) {
  // rows i,j are adjacent: the face where exactly the rows tight on all generators tight on both is spanned by them
  std::vector<SVec> rows; std::vector<char> eq; load(M, rows, eq); *err = dd_NoError; long m = M->rowsize; dd_SetFamilyPtr F = (dd_SetFamilyPtr)calloc(1, sizeof(dd_SetFamilyType)); F->famsize = m; F->setsize = m; F->set = (set_type *)calloc(m + 1, sizeof(set_type));
  std::vector<SVec> a = rows; std::vector<char> e = eq; if (M->representation != dd_Generator) { SVec inf(M->colsize, Int(0)); inf[0] = Int(1); a.push_back(inf); e.push_back(0); } DDResult d = sx_dd(M->colsize, a, e);
  for (long i = 0; i < m; i++) set_initialize(&F->set[i], m);
  for (long i = 0; i < m; i++) for (long j = i + 1; j < m; j++) if (!eq[i] && !eq[j]) { std::vector<size_t> c; for (size_t k = 0; k < d.rays.size(); k++) if (d.rays[k].tight[i] && d.rays[k].tight[j]) c.push_back(k); bool adj = true; for (long q = 0; q < m && adj; q++) if (q != i && q != j && !eq[q]) { bool all = true; for (size_t k : c) if (!d.rays[k].tight[q]) { all = false; break; } if (all) adj = false; } if (adj) { set_addelem(F->set[i], j + 1); set_addelem(F->set[j], i + 1); } }
  return F; }
void dd_WriteSetFamily(FILE *f, dd_SetFamilyPtr F) { if (!F) { fprintf(f, "WriteSetFamily: The requested family is empty\n"); return; } fprintf(f, "begin\n  %ld    %ld\n", F->famsize, F->setsize); for (long i = 0; i < F->famsize; i++) { fprintf(f, " %ld %ld : ", i + 1, set_card(F->set[i])); set_fwrite(f, F->set[i]); } fprintf(f, "end\n"); }
void dd_WriteMatrix(FILE *f, dd_MatrixPtr M) { if (M->representation == dd_Inequality) fprintf(f, "H-representation\n"); if (M->representation == dd_Generator) fprintf(f, "V-representation\n"); if (set_card(M->linset)) { fprintf(f, "linearity %ld ", set_card(M->linset)); for (long i = 1; i <= M->rowsize; i++) if (set_member(i, M->linset)) fprintf(f, " %ld", i); fprintf(f, "\n"); } fprintf(f, "begin\n %ld %ld %s\n", M->rowsize, M->colsize, M->numbtype == dd_Integer ? "integer" : "rational"); for (long i = 0; i < M->rowsize; i++) { for (long j = 0; j < M->colsize; j++) fprintf(f, " %s", sx_q_str(M->matrix[i][j][0]).c_str()); fprintf(f, "\n"); } fprintf(f, "end\n"); }
dd_MatrixPtr dd_PolyFile2Matrix(FILE *f, dd_ErrorType *err) {
  std::string t; int c; while ((c = fgetc(f)) != EOF) t += (char)c; std::istringstream in(t); std::string w; bool V = false, found = false; std::vector<int> lin; *err = dd_NoError;
  while (!found && in >> w) { if (!w.compare(0, 5, "V-rep")) V = true; else if (!w.compare(0, 5, "H-rep")) V = false; else if (!w.compare(0, 12, "partial_enum") || !w.compare(0, 9, "linearity") || !w.compare(0, 8, "equality")) { int k; in >> k; while (k-- > 0) { int x; in >> x; lin.push_back(x); } } else if (w == "begin") found = true; }
  int m, n; if (!found || !(in >> m >> n >> w)) { *err = dd_ImproperInputFormat; return 0; }
  dd_MatrixPtr M = dd_CreateMatrix(m, n); M->representation = V ? dd_Generator : dd_Inequality; M->numbtype = !w.compare(0, 7, "integer") ? dd_Integer : !w.compare(0, 8, "rational") ? dd_Rational : dd_Real;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { if (!(in >> w) || !sx_q_parse(M->matrix[i][j][0], w)) { *err = dd_ImproperInputFormat; return 0; } mpq_canonicalize(M->matrix[i][j]); }
  if (!(in >> w) || w.compare(0, 3, "end")) { *err = dd_ImproperInputFormat; return 0; }
  for (int x : lin) set_addelem(M->linset, x); return M; }
void dd_SetInputFile(FILE **f, dd_DataFileType n, dd_ErrorType *err) { *f = sx_fopen(n, "r"); *err = *f ? dd_NoError : dd_IFileNotFound; }
}
