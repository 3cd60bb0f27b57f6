// The number printed by the count driver equals the number of integer points.
#include "hx.h"
#include "count.h"
static void h() {
  Cfg c(sx::config()); std::map<std::string, Int> in;
  Poly p = parsePoly(c, in); std::vector<long> lo = c.v("lo"), hi = c.v("hi");
  if (c.s("need") == "nonempty") sx::assume(anyBox(p, lo, hi));
  std::string extra = c.s("extra"); for (auto &ch : extra) if (ch == '~') ch = '\n';
  putFile("in.hrep", c.n("cdd") ? cddHrep(p) : hrep(p, extra));
  std::vector<std::string> a = {"count"}; for (auto &w : words(c.s("opt"))) a.push_back(w); a.push_back("in.hrep");
  Args ar(a); CountAnswerContainer ans;
  Run r = runCode([&]() { ans = mainCountDriver(ar.c(), ar.p()); });
  Int want = wantCount(p, c, in, c.n("dil", 1));
  if (r.threw || r.exited) {
    // the documented way of reporting an empty polytope: no number on the output, 0 in numOfLatticePoints
    std::string t; Int v; bool ok = false;
    if (getFile("numOfLatticePoints", t) && words(t).size() == 1) v = Int::parse(words(t)[0], &ok);
    if (!ok) { sx::fail("gives-answer"); return; }
    sx::reach("reported-empty"); sx::checkEq(v, want, "count-on-exit"); return;
  }
  bool ok = false; std::string w; { std::string t; if (getFile("numOfLatticePoints", t)) w = last(t); }
  Int printed = Int::parse(w, &ok); if (!ok) { sx::fail("prints-number"); return; }
  if (getenv("HC_DUMP")) fprintf(stderr, "printed %s\n", printed.show().c_str());
  sx::reach("counted");
  sx::checkEq(printed, want, "printed-count");
  sx::checkEq(I(ans.numLaticePoints), want, "returned-count");
}
HARNESS_MAIN(h)
