// Force-included before every LattE source (both modes).  Symbolic mode: in-memory files and a model of
// the external commands.  Both modes: exit() becomes an exception the harness catches.
#ifndef SX_PRE_H
#define SX_PRE_H
#include <cstdlib>
#include <cstdio>
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <map>
#include <vector>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/types.h>
struct SxExit { int code; };
[[noreturn]] void sx_exit(int code);
namespace std { using ::sx_exit; }
#define exit sx_exit
#ifdef SX_SYMBOLIC
#include "sx_gmp.h"
int sx_system(const char *cmd);
FILE *sx_fopen(const char *n, const char *m);
int sx_fclose(FILE *f);
int sx_rename(const char *a, const char *b);
int sx_remove(const char *a);
int sx_mkdir(const char *a, int m);
struct SxFile { std::string data; };
std::map<std::string, SxFile> &sx_files();
std::string sx_path(const std::string &p);
int sx_rand(); void sx_srand(unsigned);
namespace std {
using ::sx_system; using ::sx_fopen; using ::sx_fclose; using ::sx_rename; using ::sx_remove; using ::sx_rand; using ::sx_srand;
class sx_ifstream : public std::istream {
  std::stringbuf b; bool op = false;
public:
  sx_ifstream() : std::istream(0) { init(&b); }
  explicit sx_ifstream(const char *n, ios_base::openmode m = ios_base::in) : std::istream(0) { init(&b); open(n, m); }
  explicit sx_ifstream(const std::string &n, ios_base::openmode m = ios_base::in) : std::istream(0) { init(&b); open(n.c_str(), m); }
  void open(const char *n, ios_base::openmode = ios_base::in) { auto it = sx_files().find(sx_path(n)); if (op || it == sx_files().end()) { setstate(ios_base::failbit); return; } op = true; b.str(it->second.data); clear(); }
  void open(const std::string &n, ios_base::openmode m = ios_base::in) { open(n.c_str(), m); }
  bool is_open() const { return op; }
  void close() { if (!op) setstate(ios_base::failbit); op = false; }
  std::stringbuf *rdbuf() const { return const_cast<std::stringbuf *>(&b); }
};
class SxOutBuf : public std::stringbuf {
public:
  bool op = false, seeked = false; std::string name, base;
  int sync() override { if (op && seeked) sx_files()[name].data = base + str(); else if (op) { sx_files()[name].data += str(); str(""); } return 0; }
  void whole() { if (!op || seeked) return; sync(); seeked = true; str(sx_files()[name].data.substr(base.size())); std::stringbuf::seekoff(0, std::ios_base::end, std::ios_base::out); }
  std::streampos seekoff(std::streamoff o, std::ios_base::seekdir d, std::ios_base::openmode m) override { whole(); return std::stringbuf::seekoff(o, d, m); }
  std::streampos seekpos(std::streampos p, std::ios_base::openmode m) override { whole(); return std::stringbuf::seekpos(p, m); }
};
class sx_ofstream : public std::ostream {
  SxOutBuf b;
public:
  sx_ofstream() : std::ostream(0) { init(&b); }
  explicit sx_ofstream(const char *n, ios_base::openmode m = ios_base::out) : std::ostream(0) { init(&b); open(n, m); }
  explicit sx_ofstream(const std::string &n, ios_base::openmode m = ios_base::out) : std::ostream(0) { init(&b); open(n.c_str(), m); }
  ~sx_ofstream() { if (b.op) close(); }
  void open(const char *n, ios_base::openmode m = ios_base::out) { if (b.op) { setstate(ios_base::failbit); return; } b.name = sx_path(n); if (b.name.empty()) { setstate(ios_base::failbit); return; } b.op = true; b.seeked = false; b.str(""); if (!(m & ios_base::app)) sx_files()[b.name].data = ""; else sx_files()[b.name]; b.base = sx_files()[b.name].data; clear(); }
  void open(const std::string &n, ios_base::openmode m = ios_base::out) { open(n.c_str(), m); }
  bool is_open() const { return b.op; }
  void close() { if (!b.op) { setstate(ios_base::failbit); return; } b.sync(); b.op = false; }
  std::stringbuf *rdbuf() const { return const_cast<SxOutBuf *>(&b); }
};
class sx_fstream : public std::iostream {
  std::stringbuf b; bool op = false; std::string name; ios_base::openmode md;
public:
  sx_fstream() : std::iostream(0) { init(&b); }
  explicit sx_fstream(const char *n, ios_base::openmode m = ios_base::in | ios_base::out) : std::iostream(0) { init(&b); open(n, m); }
  ~sx_fstream() { if (op) close(); }
  void open(const char *n, ios_base::openmode m = ios_base::in | ios_base::out) { name = sx_path(n); md = m; auto it = sx_files().find(name); if ((m & ios_base::in) && it == sx_files().end()) { setstate(ios_base::failbit); return; } op = true; b.str((m & ios_base::trunc) || !(m & ios_base::in) ? std::string() : it->second.data); clear(); }
  void open(const std::string &n, ios_base::openmode m = ios_base::in | ios_base::out) { open(n.c_str(), m); }
  bool is_open() const { return op; }
  void close() { if (op && (md & ios_base::out)) sx_files()[name].data = b.str(); op = false; }
};
}
#define ifstream sx_ifstream
#define ofstream sx_ofstream
#define fstream sx_fstream
#define system sx_system
#define fopen sx_fopen
#define fclose sx_fclose
#define rename sx_rename
#define mkdir(a, b) sx_mkdir(a, b)
#define rand sx_rand
#define srand sx_srand
#endif
#endif
