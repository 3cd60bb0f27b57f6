// Symbolic integers: the value domain on which the real LattE sources are executed.
// An Int is either a constant (arbitrary precision) or a polynomial with rational
// coefficients (integer valued) over "atoms": harness inputs, floor quotients, ite terms...
// Asking for a bool of a symbolic comparison forks the process (one per feasible side).
#ifndef SYM_H
#define SYM_H
#include <cstdint>
#include <string>
#include <vector>
#include <iosfwd>
#include <utility>

namespace sx {

struct Node;
class Int {
public:
  uintptr_t p;                       // (v<<1)|1 small constant, else Node*
  Int() : p(1) {}
  Int(int v) : p(((uintptr_t)(intptr_t)v << 1) | 1) {}
  Int(long v);
  Int(long long v) : Int((long)v) {}
  Int(unsigned v) : p(((uintptr_t)v << 1) | 1) {}
  Int(unsigned long v);
  Int(const Int &o) : p(o.p) { if (!(p & 1)) ref(); }
  Int(Int &&o) noexcept : p(o.p) { o.p = 1; }
  ~Int() { if (!(p & 1)) unref(); }
  Int &operator=(const Int &o) { if (p != o.p) { Int t(o); swap(t); } return *this; }
  Int &operator=(Int &&o) noexcept { swap(o); return *this; }
  void swap(Int &o) noexcept { uintptr_t t = p; p = o.p; o.p = t; }
  bool small() const { return p & 1; }
  long sval() const { return (intptr_t)p >> 1; }
  bool isConst() const;              // syntactically constant
  static Int parse(const std::string &s, bool *ok = 0);   // decimal or token
  std::string str() const;           // decimal or token (round trips through parse)
  std::string show() const;          // human readable
private:
  void ref(); void unref();
};

Int operator+(const Int &a, const Int &b);
Int operator-(const Int &a, const Int &b);
Int operator*(const Int &a, const Int &b);
Int operator-(const Int &a);
inline Int &operator+=(Int &a, const Int &b) { a = a + b; return a; }
inline Int &operator-=(Int &a, const Int &b) { a = a - b; return a; }
inline Int &operator*=(Int &a, const Int &b) { a = a * b; return a; }
Int pow(const Int &a, unsigned long e);
Int fdiv(const Int &a, const Int &b);   // floor; b==0 -> fatal
Int fmod(const Int &a, const Int &b);   // a - b*floor(a/b)
Int tdiv(const Int &a, const Int &b);   // truncating
Int tmod(const Int &a, const Int &b);
Int cdiv(const Int &a, const Int &b);   // ceiling
Int gcd(const Int &a, const Int &b);    // nonnegative
Int lcm(const Int &a, const Int &b);
void xgcd(Int &d, Int &s, Int &t, const Int &a, const Int &b);
Int abs(const Int &a);

// forking decisions
bool isZero(const Int &a);
bool isNeg(const Int &a);      // a<0
bool isPos(const Int &a);
int sgn(const Int &a);
int cmp(const Int &a, const Int &b);
inline bool eq(const Int &a, const Int &b) { return isZero(a - b); }
inline bool lt(const Int &a, const Int &b) { return isNeg(a - b); }
inline bool le(const Int &a, const Int &b) { return !isNeg(b - a); }
inline bool operator==(const Int &a, const Int &b) { return eq(a, b); }
inline bool operator!=(const Int &a, const Int &b) { return !eq(a, b); }
inline bool operator<(const Int &a, const Int &b) { return lt(a, b); }
inline bool operator>(const Int &a, const Int &b) { return lt(b, a); }
inline bool operator<=(const Int &a, const Int &b) { return le(a, b); }
inline bool operator>=(const Int &a, const Int &b) { return le(b, a); }
long concretize(const Int &a);          // forks over the feasible values; must fit long
Int concretizeBig(const Int &a);        // same, as constant Int
bool knownConst(const Int &a, Int &c);  // constant after substitution of path equalities
double toDouble(const Int &a);
void vecPrimitive(std::vector<Int> &v); // scales by a positive rational: coprime integer coefficients
void synReduce(Int &n, Int &d);         // cheap syntactic reduction of n/d (d > 0 is kept)
size_t bitlen(const Int &a);            // for constants; nominal for symbolic

// non-forking conditions (for oracles and assumptions)
struct CNode;
class Cond {
public:
  CNode *n;
  Cond(bool b = true); Cond(const Cond &o); ~Cond(); Cond &operator=(const Cond &o);
};
Cond cEq(const Int &a, const Int &b);
Cond cLe(const Int &a, const Int &b);
Cond cLt(const Int &a, const Int &b);
Cond operator&&(const Cond &a, const Cond &b);
Cond operator||(const Cond &a, const Cond &b);
Cond operator!(const Cond &a);
Int ite(const Cond &c, const Int &a, const Int &b);
Int cMax(const Int &a, const Int &b);
bool decide(const Cond &c);             // forks

// harness interface
Int input(const std::string &name, long lo, long hi);     // symbolic input
Int inputBig(const std::string &name, const std::string &lo, const std::string &hi);
Int arbitrary(const std::string &what, long lo, long hi); // environment stub value (not part of replay)
void assume(const Cond &c);             // kills the path when infeasible
void check(const Cond &c, const std::string &label);      // the obligation
void fail(const std::string &label);    // obligation false on this path
void checkEq(const Int &a, const Int &b, const std::string &label);                      // a == b
void checkFrac(const Int &n1, const Int &d1, const Int &n2, const Int &d2, const std::string &label);  // n1/d1 == n2/d2 (d1,d2 != 0)
void reach(const std::string &what);    // vacuity witness: this point was reached with feasible inputs
std::string inputText();                // the inputs of the current path (replay) or a model of them
void cut(const std::string &why);       // ends the path: outside the claim (counted)
void endPath();                         // normal end of a path (never returns in symbolic mode)
void note(const std::string &s);
bool symbolicMode();
void expectAbort(bool on);              // a crash/abort/exit is an accepted outcome for this path
const std::string &config();

struct Options { std::string gcdMode; };
extern long concretizeLimit;            // max number of values a concretisation may fork into
extern bool gcdForkAlways;

int run(int argc, char **argv, void (*harness)());  // engine driver
// an abnormal end (abort, failed assert, exit) of the code under test on the current path
[[noreturn]] void fatal(const std::string &why);
}
#endif
