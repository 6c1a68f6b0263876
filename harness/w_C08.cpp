// C08: sum, mean, max, min.
// RULE: the four reductions of one tensor of drawn type, shape, layout and
// value profile per case. Non-trivial: has elements; distinct by type, shape,
// values.
#include "prog.hpp"
const char *const kProperty = "C08";
uint64_t n_cases(bool th) { return th ? 900000 : 60000; }

void run_case(Ctx &c) {
  if (c.idx % 5000 < 2)
    return giant(c);
  if (c.idx % 60000 >= 2 && c.idx % 60000 < 8)
    return million(c, M_REDUCE, (unsigned)(c.idx % 60000 - 2 + c.idx / 60000));
  Rng &r = c.r;
  int k = (int)(c.idx % 4);
  types t = (types)(c.idx / 4 % 6);
  Shape s = gen_shape(r, r.chance(1, 10) ? 1500 : 120);
  if (r.chance(1, 60))
    s = Shape{(size_t)r.range(1000, 3000)};
  static const Prof ps[] = {P_SMALL, P_UNIQUE, P_WIDE, P_NONZERO, P_SPECIAL};
  Prof p = ps[r.below(5)];
  if (k >= 2 && r.chance(1, 3))
    p = P_FULL;
  P x = mk_layout(r, t, s, p, &c);
  if (r.chance(1, 3) && x.m.n()) { // all of one sign, or all extreme
    auto v = gen_vals(r, t, x.m.n(), P_WIDE);
    ld sg = r.chance(1, 2) ? 1 : -1;
    for (auto &e : v) {
      e = round_to(t, sg * fabsl(e));
      if (!is_f(t) && t <= INNC::i16 && r.chance(1, 3))
        e = sg > 0 ? (t == INNC::i8 ? 127 : 32767)
                   : (t == INNC::i8 ? -128 : -32768);
      if (t == INNC::i32 && r.chance(1, 3))
        e = sg > 0 ? 2147483647.0L : -2147483648.0L;
    }
    P q = mk(t, s, v);
    // behind another layout
    if (r.chance(1, 2) && s.size() >= 2) {
      size_t d = r.below(s.size() - 1);
      Tensor y = q.t.transpose(d, d + 1);
      x.t = std::move(y);
      x.m = m_transpose(q.m, d, d + 1);
    } else
      x = std::move(q);
  }
  for (size_t i = 0; i < x.m.n(); ++i)
    if (std::isnan(x.m.val(i)))
      throw Discard{}; // the order of NaN is not specified
  if (x.m.n() == 0 && k >= 2)
    k -= 2; // no extremum
  if (is_f(t) && r.chance(1, 5))
    set_req(x);
  used(c, x);
  std::string before = x.t.to_string();
  static const char *const nm[] = {"sum", "mean", "max", "min"};
  logf(c, "%s of %s %s: %.500s", nm[k], kDT[t], shape_str(x.m.sz).c_str(),
       before.c_str());
  MT m = k == 0   ? m_sum(x.m)
         : k == 1 ? m_mean(x.m)
         : k == 2 ? m_ext(x.m, true)
                  : m_ext(x.m, false);
  Tensor y = k == 0   ? x.t.sum()
             : k == 1 ? x.t.mean()
             : k == 2 ? x.t.max()
                      : x.t.min();
  verify(y, m, nm[k]);
  if (x.t.to_string() != before)
    failf("%s changed the tensor", nm[k]);
  // the result is not a view
  if (x.m.n() && !x.m.req) {
    Tensor one = Tensor::ones(SizeVec{}, INNC::i8);
    MT ym = m;
    if (m_iadd(ym, m_fresh(INNC::i8, {}, {1})))
      y += one;
    if (x.t.to_string() != before)
      failf("%s shares elements with the tensor", nm[k]);
  }
  count(std::string("op_") + nm[k]);
  if (x.m.n() > 1)
    distinct(strf("%d %d %d %s", k, t, (int)x.t.is_contiguous(),
                  shape_str(x.m.sz).c_str()) +
             std::to_string(r.next() % 4096));
}
