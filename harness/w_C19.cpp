// C19: to_string() shows all elements, exactly, in order.
// RULE: one tensor per case printed and compared with a reference rendering,
// character by character. Distinct by type, shape and first characters.
#include "prog.hpp"
const char *const kProperty = "C19";
uint64_t n_cases(bool th) { return th ? 1200000 : 84000; }

void run_case(Ctx &c) {
  if (c.idx % 5000 < 2)
    return giant(c);
  Rng &r = c.r;
  types t = (types)(c.idx % 6);
  Shape s = gen_shape(r, r.chance(1, 20) ? 1500 : 120);
  if (r.chance(1, 10) && !s.empty())
    s[r.below(s.size())] = 0;
  static const Prof ps[] = {P_SMALL, P_UNIQUE, P_WIDE, P_SPECIAL, P_NONZERO};
  P x = mk_layout(r, t, s, ps[r.below(5)], &c);
  if (r.chance(1, 3)) { // extremes
    std::vector<ld> v = gen_vals(r, t, numel_of(s), P_SPECIAL);
    for (auto &e : v)
      if (r.chance(1, 2)) {
        switch (t) {
        case INNC::i8:
          e = r.chance(1, 2) ? -128 : 127;
          break;
        case INNC::i16:
          e = r.chance(1, 2) ? -32768 : 32767;
          break;
        case INNC::i32:
          e = r.chance(1, 2) ? -2147483648.0L : 2147483647.0L;
          break;
        case INNC::i64:
          e = r.chance(1, 2) ? (ld)INT64_MIN : (ld)INT64_MAX;
          break;
        default: {
          const ld k[] = {1e20L, -1e37L, 123456.789L, 0.1L, -0.0000005L,
                          0.9999999L, 1e-40L, 99999.9999995L};
          e = round_to(t, k[r.below(8)]);
        }
        }
      }
    if (t == INNC::f64 && v.size())
      v[r.below(v.size())] = (double)1e300L;
    x = mk(t, s, v);
  }
  if (is_f(t) && r.chance(1, 8))
    set_req(x);
  used(c, x);
  std::string want = m_render(x.m), got = x.t.to_string();
  logf(c, "%s %s: %.500s", kDT[t], shape_str(s).c_str(), want.c_str());
  if (got != want) {
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i])
      ++i;
    size_t b = i > 60 ? i - 60 : 0;
    failf("to_string() differs at %zu: ...%.160s\nexpected ...%.160s", i,
          got.substr(b).c_str(), want.substr(b).c_str());
  }
  if (x.t.to_string() != got)
    failf("to_string() differs the second time");
  // sizes, strides and types have a textual form as well
  {
    std::string w = "[", v = "[";
    auto st = x.t.stride();
    for (size_t i = 0; i < x.m.sz.size(); ++i)
      w += (i ? ", " : "") + std::to_string(x.m.sz[i]);
    for (size_t i = 0; i < st.size(); ++i)
      v += (i ? ", " : "") + std::to_string(st[i]);
    std::ostringstream a, b;
    a << x.t.size();
    b << st;
    if (x.t.size().to_string() != w + "]" || a.str() != w + "]")
      failf("the sizes %s are shown as %s and %s", (w + "]").c_str(),
            x.t.size().to_string().c_str(), a.str().c_str());
    if (st.to_string() != v + "]" || b.str() != v + "]")
      failf("the strides %s are shown as %s and %s", (v + "]").c_str(),
            st.to_string().c_str(), b.str().c_str());
    std::string tn(INNC::to_string(x.t.type()));
    if (tn != kDT[t] && tn != std::string("INNC::") + kDT[t])
      failf("the type %s is shown as %s", kDT[t], tn.c_str());
  }
  if (c.idx % 64 == 0) {
    Tensor e;
    if (e.to_string() != "[]")
      failf("an empty handle is shown as %s", e.to_string().c_str());
  }
  count("characters_compared", got.size());
  count("tensors_compared");
  distinct(strf("%d %s %s", t, shape_str(s).c_str(), want.substr(0, 30).c_str()));
}
