// C13: no program over the public interface corrupts memory or runs into
// undefined behaviour. The judge is ASan/UBSan and libstdc++'s assertions.
// RULE: one random program of public calls per case, invalid arguments
// included; the judge is the sanitizers. Distinct by the program's trace.
#include "freeprog.hpp"
const char *const kProperty = "C13";
uint64_t n_cases(bool th) { return th ? 240000 : 18000; }
void run_case(Ctx &c) {
  FreeOpt o;
  o.steps = 20 + (int)c.r.below(50);
  o.hostile = c.r.chance(3, 4);
  o.randn = true;
  o.render = true;
  if (c.r.chance(1, 12))
    o.maxnumel = 3000;
  FreeStat st;
  logf(c, "program of %d steps%s (seed %" PRIu64 ")", o.steps,
       o.hostile ? ", with invalid requests" : "", c.seed);
  std::string tr = run_free(c.r, o, st);
  count("calls", st.calls);
  count("rejected", st.rejected);
  count("backward_calls", st.backwards);
  for (int k = 0; k < 26; ++k)
    count(strf("call_%02d", k), st.kinds[k]);
  logf(c, "  %.600s", tr.c_str());
  distinct(tr.size() > 4000 ? tr.substr(0, 4000) : tr);
}
