// C04: slicing selects what Python's slicing selects.
// RULE: first an exhaustive grid of small sizes, bounds and steps in one
// dimension, then drawn shapes and slice strings, also on views of views;
// compared with Python's rules. Distinct by shape and slice.
#include "prog.hpp"
const char *const kProperty = "C04";
static const int kMaxN = 7;
// exhaustive part: one case per (n, begin)
static std::vector<std::pair<int, int>> grid() {
  std::vector<std::pair<int, int>> g; // begin: 99 none
  for (int n = 0; n <= kMaxN; ++n) {
    g.push_back({n, 99});
    for (int b = -n - 2; b <= n + 2; ++b)
      g.push_back({n, b});
  }
  return g;
}
uint64_t n_cases(bool th) { return grid().size() + (th ? 900000 : 60000); }

static void exhaustive(Ctx &c, int n, int b) {
  types t = (types)(c.idx % 6);
  std::vector<ld> v;
  for (int i = 0; i < n; ++i)
    v.push_back(i + 1);
  P x = mk(t, {(size_t)n}, v);
  logf(c, "all slices of length %d that begin at %d", n, b);
  for (int e = -n - 2; e <= n + 3; ++e)
    for (int s = -n - 2; s <= n + 3; ++s) {
      Sl sl;
      sl.hb = b != 99;
      sl.b = b;
      sl.he = e != n + 3;
      sl.e = e;
      sl.hs = s != n + 3;
      sl.s = s;
      if (sl.hs && s == 0)
        continue;
      MT m;
      m_slice(x.m, {sl}, m);
      std::string str = (sl.hb ? std::to_string(b) : "") + ":" +
                        (sl.he ? std::to_string(e) : "") +
                        (sl.hs ? ":" + std::to_string(s) : "");
      Tensor y = x.t[str];
      verify(y, m, ("[\"" + str + "\"]").c_str());
      count("exhaustive_slices");
    }
  for (int i = -n; i < n; ++i) {
    Sl sl;
    sl.index = true;
    sl.i = i;
    MT m;
    m_slice(x.m, {sl}, m);
    Tensor y = x.t[std::to_string(i)];
    verify(y, m, ("[" + std::to_string(i) + "]").c_str());
    count("exhaustive_slices");
  }
  distinct(strf("grid %d %d", n, b));
}
void run_case(Ctx &c) {
  static const auto g = grid();
  if (c.idx < g.size())
    return exhaustive(c, g[c.idx].first, g[c.idx].second);
  if (c.idx % 5000 < 2)
    return giant(c);
  if (c.idx % 30000 < 5)
    return million(c, M_SLICE, (unsigned)(c.idx % 30000 + c.idx / 30000));
  Rng &r = c.r;
  types t = (types)(c.idx % 6);
  Shape s = gen_shape(r, r.chance(1, 14) ? 900 : 120);
  P x = mk_layout(r, t, s, r.chance(1, 4) ? P_FULL : P_UNIQUE, &c);
  if (is_f(t) && r.chance(1, 8))
    set_req(x);
  std::string key;
  for (int k = 0, n = 1 + (int)r.below(4); k < n; ++k) {
    if (x.m.sz.size() >= 2 && r.chance(1, 4)) {
      size_t d0 = r.below(x.m.sz.size()), d1 = r.below(x.m.sz.size());
      if (d0 != d1) {
        x.m = m_transpose(x.m, d0, d1);
        Tensor y = x.t.transpose(d0, d1);
        x.t = std::move(y);
        logf(c, "  transpose %zu %zu", d0, d1);
      }
    }
    auto sl = gen_slice(r, x.m.sz, true, r.chance(2, 3));
    std::string str = sl_str(r, sl);
    // an empty string is no slice at all
    MT m;
    logf(c, "  %s[\"%s\"]", shape_str(x.m.sz).c_str(), str.c_str());
    if (!m_slice(x.m, sl, m))
      failf("harness error: index out of range");
    key += shape_str(x.m.sz) + str;
    std::string before = x.t.to_string();
    Tensor y;
    if (r.chance(1, 8)) { // a trailing newline or so
      y = x.t[std::string(str)];
    } else
      y = x.t[str];
    verify(y, m, "slice");
    if (x.t.to_string() != before)
      failf("slicing changed the tensor");
    x.t = std::move(y);
    x.m = std::move(m);
    count("slices");
    if (x.m.n() == 0)
      count("empty_results");
  }
  // the values survive being copied out of the view
  verify(x.t.clone(), m_clone(x.m), "clone of the slice");
  distinct(key);
}
