// Quoting for the shell, checked command execution, temporary directory: latte_system.cpp with a symbolic string class in place of std::string.
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <cassert>
#include <climits>
#include <cerrno>
#include <cctype>
#include <string>
#include <vector>
#include <iterator>
#include <cstddef>
#include <stdexcept>
#include <map>
#include <set>
#include <iomanip>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <errno.h>
#include "hx.h"
#ifdef rand
#define SQ_SYMBOLIC 1
#endif
// ---- stand-ins for the system
struct SqExit { int code; };
static std::vector<std::string> sqCommands; static int sqStatus = 0; static int sqMkdirFail = 0, sqMkdirErrno = EEXIST; static std::vector<std::string> sqMade, sqTried; static int sqRename = 0; static std::vector<std::pair<std::string, std::string>> sqRenamed;
static int sq_system(const char *c) { sqCommands.push_back(c); return sqStatus; }
static void sq_exit(int c) { throw SqExit{ c }; }
static int sq_mkdir(const char *p, mode_t) { sqTried.push_back(p); if (sqMkdirFail > 0) { sqMkdirFail--; errno = sqMkdirErrno; return -1; } sqMade.push_back(p); return 0; }
static int sq_rename(const char *a, const char *b) { sqRenamed.push_back(std::make_pair(std::string(a), std::string(b))); errno = ENOENT; return sqRename; }
static int sq_gethostname(char *b, size_t n) { snprintf(b, n, "some.host-1"); return 0; }
static pid_t sq_getpid() { return 4711; }
static void sq_perror(const char *) {}
// ---- symbolic characters and strings
namespace sq {
struct SCh { Int v; SCh(int c = 0) : v(c) {} SCh(const Int &x) : v(x) {} operator char() const { return (char)sx::concretize(v); } };
#define OPS(T) inline bool operator==(const SCh &a, T b) { return a.v == Int((int)b); } inline bool operator!=(const SCh &a, T b) { return !(a.v == Int((int)b)); } inline bool operator==(T b, const SCh &a) { return a == b; } inline bool operator!=(T b, const SCh &a) { return a != b; } \
 inline bool operator<(const SCh &a, T b) { return a.v < Int((int)b); } inline bool operator>(const SCh &a, T b) { return a.v > Int((int)b); } inline bool operator<=(const SCh &a, T b) { return a.v <= Int((int)b); } inline bool operator>=(const SCh &a, T b) { return a.v >= Int((int)b); }
OPS(char) OPS(int)
#undef OPS
inline bool operator==(const SCh &a, const SCh &b) { return a.v == b.v; } inline bool operator!=(const SCh &a, const SCh &b) { return !(a.v == b.v); }
inline bool member(const SCh &c, const char *s, size_t n) { sx::Cond r = sx::cLt(Int(1), Int(0)); for (size_t i = 0; i < n; i++) r = r || sx::cEq(c.v, Int((int)s[i])); return sx::decide(r); }
inline int between(const SCh &c, int a, int b) { return sx::decide(sx::cLe(Int(a), c.v) && sx::cLe(c.v, Int(b))); }
inline int isdigit(const SCh &c) { return between(c, '0', '9'); } inline int isupper(const SCh &c) { return between(c, 'A', 'Z'); } inline int islower(const SCh &c) { return between(c, 'a', 'z'); } inline int isalpha(const SCh &c) { return isupper(c) || islower(c); } inline int isalnum(const SCh &c) { return isdigit(c) || isalpha(c); } inline int isspace(const SCh &c) { return member(c, " \t\n\v\f\r", 6); } inline int iscntrl(const SCh &c) { return between(c, 0, 31) || c == 127; }
inline const char *strchr(const char *s, const SCh &c) { for (; ; s++) { if (c == *s) return s; if (!*s) return 0; } }
class SStr { std::vector<SCh> v; mutable std::string buf; public:
  typedef std::vector<SCh>::const_iterator const_iterator; typedef std::vector<SCh>::iterator iterator; typedef std::vector<SCh>::const_reverse_iterator const_reverse_iterator; typedef size_t size_type; typedef SCh value_type; typedef const SCh &const_reference; typedef SCh &reference; static const size_t npos = (size_t)-1;
  SStr() {} SStr(const char *s) { while (*s) v.push_back(SCh(*s++)); } SStr(const char *s, size_t n) { for (size_t i = 0; i < n; i++) v.push_back(SCh(s[i])); } SStr(const std::string &s) { for (char c : s) v.push_back(SCh(c)); } SStr(size_t n, char c) : v(n, SCh(c)) {} SStr(const SStr &o) : v(o.v) {} template <class It> SStr(It a, It b) { for (; a != b; ++a) v.push_back(SCh(*a)); } SStr(const SStr &o, size_t p, size_t n = npos) { *this = o.substr(p, n); }
  SStr &operator=(const SStr &o) { v = o.v; return *this; } SStr &assign(const SStr &o) { return *this = o; }
  size_t size() const { return v.size(); } size_t length() const { return v.size(); } bool empty() const { return v.empty(); } void clear() { v.clear(); } void reserve(size_t = 0) {} void resize(size_t n) { v.resize(n); }
  SCh &operator[](size_t i) { return v[i]; } const SCh &operator[](size_t i) const { static const SCh z(0); return i == v.size() ? z : v[i]; } SCh &at(size_t i) { return v.at(i); } const SCh &at(size_t i) const { return v.at(i); } SCh &back() { return v.back(); } const SCh &back() const { return v.back(); } const SCh &front() const { return v.front(); }
  iterator begin() { return v.begin(); } iterator end() { return v.end(); } const_iterator begin() const { return v.begin(); } const_iterator end() const { return v.end(); } const_iterator cbegin() const { return v.begin(); } const_iterator cend() const { return v.end(); }
  void push_back(const SCh &c) { v.push_back(c); } void push_back(char c) { v.push_back(SCh(c)); } void pop_back() { v.pop_back(); }
  SStr &operator+=(const SStr &o) { std::vector<SCh> t(o.v); v.insert(v.end(), t.begin(), t.end()); return *this; } SStr &operator+=(const char *o) { return *this += SStr(o); } SStr &operator+=(char c) { push_back(c); return *this; } SStr &operator+=(const SCh &c) { push_back(c); return *this; }
  SStr &append(const SStr &o) { return *this += o; } SStr &append(const SStr &o, size_t p, size_t n) { return *this += o.substr(p, n); } SStr &append(const char *o) { return *this += SStr(o); } SStr &append(const char *o, size_t n) { return *this += SStr(o, n); } SStr &append(size_t n, char c) { return *this += SStr(n, c); } template <class It> SStr &append(It a, It b) { return *this += SStr(a, b); }
  SStr &insert(size_t p, const SStr &o) { std::vector<SCh> t(o.v); v.insert(v.begin() + p, t.begin(), t.end()); return *this; } SStr &insert(size_t p, size_t n, char c) { v.insert(v.begin() + p, n, SCh(c)); return *this; } iterator insert(const_iterator p, char c) { return v.insert(p, SCh(c)); } SStr &replace(size_t p, size_t n, const SStr &o) { n = std::min(n, v.size() - p); v.erase(v.begin() + p, v.begin() + p + n); return insert(p, o); } SStr &erase(size_t p = 0, size_t n = npos) { n = std::min(n, v.size() - p); v.erase(v.begin() + p, v.begin() + p + n); return *this; }
  SStr substr(size_t p, size_t n = npos) const { SStr r; for (size_t i = p; i < v.size() && i - p < n; i++) r.v.push_back(v[i]); return r; }
  size_t find(const SCh &c, size_t p = 0) const { for (size_t i = p; i < v.size(); i++) if (v[i] == c) return i; return npos; } size_t find(char c, size_t p = 0) const { return find(SCh(c), p); } size_t find(const SStr &s, size_t p = 0) const { for (size_t i = p; i + s.size() <= v.size(); i++) { size_t k = 0; while (k < s.size() && v[i + k] == s.v[k]) k++; if (k == s.size()) return i; } return npos; } size_t find(const char *s, size_t p = 0) const { return find(SStr(s), p); }
  size_t find_first_of(const char *s, size_t p = 0) const { for (size_t i = p; i < v.size(); i++) if (member(v[i], s, std::strlen(s))) return i; return npos; } size_t find_first_not_of(const char *s, size_t p = 0) const { for (size_t i = p; i < v.size(); i++) if (!member(v[i], s, std::strlen(s))) return i; return npos; } size_t find_first_of(char c, size_t p = 0) const { return find(c, p); } size_t find_first_not_of(const SStr &s, size_t p = 0) const { return find_first_not_of(s.c_str(), p); } size_t find_first_of(const SStr &s, size_t p = 0) const { return find_first_of(s.c_str(), p); }
  const char *c_str() const { buf.clear(); for (auto &c : v) buf.push_back((char)c); return buf.c_str(); } const char *data() const { return c_str(); }
  int compare(const SStr &o) const { for (size_t i = 0; i < v.size() && i < o.v.size(); i++) if (v[i] != o.v[i]) return v[i].v < o.v[i].v ? -1 : 1; return v.size() < o.v.size() ? -1 : v.size() > o.v.size(); } };
inline bool operator==(const SStr &a, const SStr &b) { return a.compare(b) == 0; } inline bool operator!=(const SStr &a, const SStr &b) { return a.compare(b) != 0; }
inline SStr operator+(const SStr &a, const SStr &b) { SStr r(a); r += b; return r; } inline SStr operator+(const SStr &a, const char *b) { SStr r(a); r += b; return r; } inline SStr operator+(const char *a, const SStr &b) { SStr r(a); r += b; return r; } inline SStr operator+(const SStr &a, char b) { SStr r(a); r += b; return r; } inline SStr operator+(char a, const SStr &b) { SStr r(1, a); r += b; return r; }
inline std::ostream &operator<<(std::ostream &o, const SStr &s) { return o << s.c_str(); }
}
namespace std { using ::sq_system; using ::sq_exit; using ::sq_rename; using ::sq_perror; }
#undef system
#undef rename
#define system(...) sq_system(__VA_ARGS__)
#define exit(...) sq_exit(__VA_ARGS__)
#define _exit(...) sq_exit(__VA_ARGS__)
#define mkdir(...) sq_mkdir(__VA_ARGS__)
#define rename(...) sq_rename(__VA_ARGS__)
#define gethostname(...) sq_gethostname(__VA_ARGS__)
#define getpid(...) sq_getpid(__VA_ARGS__)
#define perror(...) sq_perror(__VA_ARGS__)
#undef LATTE_SYSTEM_H
namespace sq { namespace impl {
#ifdef SQ_SYMBOLIC
namespace std { using namespace ::std; typedef ::sq::SStr SStr; }
using namespace ::sq;
#define string SStr
#endif
#include "latte_system.cpp"
#undef string
} }
#undef system
#undef exit
#undef _exit
#undef mkdir
#undef rename
#undef gethostname
#undef getpid
#undef perror
// ---- a POSIX shell's reading of one simple command without expansions: the words, or failure where it would do anything else
typedef std::vector<Int> Chars;
static bool isC(const Int &c, int x) { return c == Int(x); }
static bool anyOf(const Int &c, const char *s) { sx::Cond r = sx::cLt(Int(1), Int(0)); for (; *s; s++) r = r || sx::cEq(c, Int((int)*s)); return sx::decide(r); }
static bool shellWords(const Chars &s, std::vector<Chars> &w) {
  bool in = false; Chars cur; auto end = [&]() { if (in) w.push_back(cur); cur.clear(); in = false; };
  for (size_t i = 0; i < s.size(); i++) { const Int &c = s[i];
    if (isC(c, '\'')) { in = true; i++; for (; ; i++) { if (i == s.size()) return false; if (isC(s[i], '\'')) break; cur.push_back(s[i]); } }
    else if (isC(c, '"')) { in = true; i++; for (; ; i++) { if (i == s.size()) return false; if (isC(s[i], '"')) break; if (anyOf(s[i], "$`")) return false; if (isC(s[i], '\\')) { if (i + 1 == s.size()) return false; if (isC(s[i + 1], '\n')) { i++; continue; } if (anyOf(s[i + 1], "$`\"\\")) i++; } cur.push_back(s[i]); } }
    else if (isC(c, '\\')) { if (++i == s.size()) return false; if (isC(s[i], '\n')) continue; in = true; cur.push_back(s[i]); }
    else if (anyOf(c, " \t")) end();
    else if (anyOf(c, "\n;&|<>()$`*?[{}!^")) return false;
    else if (!in && anyOf(c, "~#")) return false;
    else if (w.empty() && isC(c, '=')) return false;
    else { in = true; cur.push_back(c); } }
  end(); return true; }
static Chars chars(const std::string &s) { Chars r; for (char c : s) r.push_back(Int((int)c)); return r; }
static void same(const Chars &a, const Chars &b, const std::string &l) { sx::check(a.size() == b.size(), l + "-length"); if (a.size() == b.size()) for (size_t i = 0; i < a.size(); i++) sx::check(sx::cEq(a[i], b[i]), l); }
static void quote(Cfg &c) {
  long n = c.n("len"); Chars in; for (long i = 0; i < n; i++) { Int v = sx::input("c" + std::to_string(i), -128, 127); sx::assume(!sx::cEq(v, Int(0))); in.push_back(v); }
  Chars out;
#ifdef SQ_SYMBOLIC
  sq::SStr a; for (auto &x : in) a.push_back(sq::SCh(x)); sq::SStr q = sq::impl::shell_quote(a); for (size_t i = 0; i < q.size(); i++) out.push_back(q[i].v);
#else
  std::string a; for (auto &x : in) a.push_back((char)sx::concretize(x)); out = chars(sq::impl::shell_quote(a));
#endif
  for (int ctx = 0; ctx < 2; ctx++) { Chars cmd = chars(ctx ? "" : "prog -x "); cmd.insert(cmd.end(), out.begin(), out.end()); Chars tail = chars(ctx ? "" : " last"); if (ctx) tail = chars(".temp"); cmd.insert(cmd.end(), tail.begin(), tail.end());
    std::vector<Chars> w; if (!shellWords(cmd, w)) { sx::fail("read-as-one-plain-command"); continue; } sx::check(w.size() == (ctx ? 1 : 4), "exactly-one-argument"); if (w.size() != (ctx ? 1 : 4)) continue; Chars want = in; if (ctx) want.insert(want.end(), tail.begin(), tail.end()); same(w[ctx ? 0 : 2], want, "argument-characters"); }
  sx::reach("quoted"); }
static void status(Cfg &c) {
  Int s = sx::input("status", c.n("lo", -1), c.n("hi", 40)); sqStatus = (int)sx::concretize(s) * (int)c.n("mul", 1); int code = -1; bool ret = false; sqCommands.clear();
  std::string cmd = "external 'some thing' > out"; Run r = runCode([&]() { try { if (c.n("str")) sq::impl::system_with_error_check(
#ifdef SQ_SYMBOLIC
   sq::SStr(cmd)
#else
   cmd
#endif
   ); else sq::impl::system_with_error_check(cmd.c_str()); ret = true; } catch (SqExit &e) { code = e.code; } }); if (r.bad()) { sx::fail("ends-normally"); return; }
  sx::check(sqCommands.size() == 1 && sqCommands[0] == cmd, "command-as-given"); sx::check(ret == (sqStatus == 0), "failure-stops"); if (!ret) sx::check(code != 0, "failure-exit-status");
  sqRename = sqStatus; ret = false; code = -1; r = runCode([&]() { try { sq::impl::rename_with_error_check("old name", "new name"); ret = true; } catch (SqExit &e) { code = e.code; } }); if (r.bad()) { sx::fail("ends-normally"); return; }
  sx::check(sqRenamed.size() == 1 && sqRenamed[0].first == "old name" && sqRenamed[0].second == "new name", "rename-as-given"); sx::check(ret == (sqStatus == 0), "rename-failure-stops"); if (!ret) sx::check(code != 0, "rename-failure-exit-status"); sx::reach("executed"); }
static void temp(Cfg &c) {
  Int f = sx::input("taken", 0, c.n("max", 3)); long k = sx::concretize(f); Int e = sx::input("error", 0, 1); bool hard = sx::concretize(e); sqMkdirFail = k; sqMkdirErrno = hard ? EACCES : EEXIST; bool early = c.n("early"); std::string name, dir, again; bool stopped = false; int code = 0;
  Run r = runCode([&]() { try { if (early) sq::impl::remove_temporary_directory(); name = std::string(sq::impl::temporary_file_name("some file").c_str()); dir = sq::impl::temporary_directory_name().c_str(); again = sq::impl::temporary_file_name("b").c_str(); } catch (SqExit &x) { stopped = true; code = x.code; } }); if (r.bad()) { sx::fail("ends-normally"); return; }
  if (hard && k) { sx::check(stopped && code != 0, "failure-stops"); sx::check(sqCommands.empty(), "nothing-removed"); sx::reach("refused"); return; }
  sx::check(!stopped, "directory-found"); if (stopped) return; sx::check(sqMade.size() == 1, "one-directory"); if (sqMade.size() != 1) return; sx::check((long)sqTried.size() == k + 1, "attempts"); for (size_t i = 0; i < sqTried.size(); i++) for (size_t j = 0; j < i; j++) sx::check(sqTried[i] != sqTried[j], "fresh-names");
  sx::check(dir == sqMade[0] + "/", "directory-name"); sx::check(name == sqMade[0] + "/some file", "file-name"); sx::check(again == sqMade[0] + "/b", "same-directory"); sx::check(sqCommands.empty(), "nothing-removed-before");
  r = runCode([&]() { try { sq::impl::remove_temporary_directory(); } catch (SqExit &x) { stopped = true; } }); if (r.bad()) { sx::fail("ends-normally"); return; } sx::check(!stopped, "removal"); sx::check(sqCommands.size() == 1, "one-removal"); if (sqCommands.size() == 1) { std::vector<Chars> w; sx::check(shellWords(chars(sqCommands[0]), w), "removal-command"); if (w.size()) { same(w[0], chars("rm"), "removal-program"); std::string l; for (auto &x : w.back()) l.push_back((char)sx::concretize(x)); while (l.size() > 1 && l[l.size() - 1] == '/') l.resize(l.size() - 1); sx::check(l == sqMade[0], "removes-that-directory"); for (size_t i = 1; i + 1 < w.size(); i++) sx::check(isC(w[i][0], '-'), "removes-only-that"); } }
  sx::reach("used"); }
static void h() { Cfg c(sx::config()); std::string w = c.s("what"); if (w == "quote") quote(c); else if (w == "status") status(c); else if (w == "temp") temp(c); else sx::fail("unknown"); }
HARNESS_MAIN(h)
