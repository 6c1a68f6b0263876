// C02: comparisons and all().
// RULE: one comparison, or one all() with a zero planted at a drawn position
// of a drawn view, per case. Non-trivial: has elements; distinct by relation,
// types, shapes, position.
#include "prog.hpp"
const char *const kProperty = "C02";
uint64_t n_cases(bool th) { return th ? 900000 : 60000; }

static std::vector<ld> cvals(Rng &r, types t, size_t n, bool special) {
  if (r.chance(1, 4))
    return gen_vals(r, t, n, P_FULL);
  std::vector<ld> v(n);
  for (auto &x : v) {
    switch (r.below(6)) {
    case 0:
      x = r.range(-1, 1);
      break;
    case 1:
      x = r.range(-128, 127);
      break;
    case 2:
      x = t == INNC::i8 ? 127 : r.range(-32768, 32767);
      break;
    case 3:
      x = t <= INNC::i16 ? 5 : r.range(-(1 << 24), 1 << 24);
      break;
    default:
      x = r.range(-4, 4);
      if (is_f(t) && r.chance(1, 2))
        x += 0.5L;
    }
    if (t == INNC::i8)
      x = std::max<ld>(-128, std::min<ld>(127, x));
    if (is_f(t) && special && r.chance(1, 5)) {
      const ld inf = std::numeric_limits<ld>::infinity();
      const ld s[] = {inf, -inf, std::numeric_limits<ld>::quiet_NaN(), -0.0L,
                      1.0L / 1024};
      x = s[r.below(5)];
    }
  }
  return v;
}
static void check_all(Ctx &c) {
  Rng &r = c.r;
  types t = (types)(c.idx / 7 % 6);
  Shape s = gen_shape(r, r.chance(1, 14) ? 900 : 64);
  P x = mk_layout(r, t, s, P_NONZERO, &c);
  // make none, one or many elements zero
  int mode = (int)r.below(4);
  if (x.m.n() && mode) {
    // through the storage model: rebuild x with chosen zeros
    std::vector<ld> v;
    for (size_t i = 0; i < x.m.n(); ++i) {
      ld q = x.m.val(i);
      // values whose low bytes are zero
      if (t == INNC::i16 && r.chance(1, 4))
        q = 256 * r.range(1, 3);
      if ((t == INNC::i32 || t == INNC::i64) && r.chance(1, 4))
        q = 65536 * r.range(1, 30000);
      if (is_f(t) && r.chance(1, 6))
        q = r.chance(1, 2) ? 1e-30L : 0.015625L;
      if (is_f(t) && r.chance(1, 12))
        q = std::numeric_limits<ld>::quiet_NaN();
      v.push_back(round_to(t, q));
    }
    if (mode == 1)
      v[r.below(v.size())] = 0;
    if (mode == 2)
      v[r.chance(1, 2) ? 0 : v.size() - 1] = is_f(t) ? -0.0L : 0;
    // write them into a layout: zero the view by adding, element-wise
    P w = mk(t, s, v);
    if (r.chance(1, 2) && s.size() >= 2) {
      size_t d = r.below(s.size() - 1);
      P u = mk(t, s, v);
      Tensor tt = u.t.transpose(d, d + 1);
      x.t = std::move(tt);
      x.m = m_transpose(u.m, d, d + 1);
    } else if (r.chance(1, 2) && !s.empty() && v.size()) {
      // every other row of a tensor whose skipped rows are (not) zero
      Shape big = s;
      big[0] *= 2;
      std::vector<ld> bv;
      size_t row = v.size() / s[0];
      for (size_t i = 0; i < s[0]; ++i) {
        bv.insert(bv.end(), v.begin() + i * row, v.begin() + (i + 1) * row);
        for (size_t j = 0; j < row; ++j)
          bv.push_back(r.below(2));
      }
      P u = mk(t, big, bv);
      Tensor q = u.t["::2"];
      x.t = std::move(q);
      x.m = w.m;
    } else
      x = std::move(w);
  }
  used(c, x, true);
  bool want = true;
  for (size_t i = 0; i < x.m.n(); ++i)
    want &= x.m.val(i) != 0;
  logf(c, "all() of %s %s: %.400s", kDT[t], shape_str(x.m.sz).c_str(),
       m_render(x.m).c_str());
  if (x.t.all() != want)
    failf("all() is %d, expected %d", !want, want);
  count(want ? "all_true" : "all_false");
  if (x.m.n())
    distinct(strf("all %d %d %s", t, want, shape_str(x.m.sz).c_str()));
}
void run_case(Ctx &c) {
  if (c.idx % 60000 < 7)
    return million(c, M_CMP, (unsigned)(c.idx % 60000 + c.idx / 60000));
  Rng &r = c.r;
  if (c.idx % 7 == 6)
    return check_all(c);
  Cmp op = (Cmp)(c.idx % 7);
  uint64_t k = c.idx / 7;
  types lt = (types)(k % 6), rt = (types)(k / 6 % 6);
  Shape a, b;
  gen_bcast_pair(r, a, b, r.chance(1, 14) ? 800 : 64);
  bool sp = r.chance(1, 2);
  P x = mk(lt, a, cvals(r, lt, numel_of(a), sp)),
    y = mk(rt, b, cvals(r, rt, numel_of(b), sp));
  if (a == b && r.chance(1, 4)) { // mostly equal
    std::vector<ld> v;
    for (size_t i = 0; i < x.m.n(); ++i) {
      ld q = x.m.val(i);
      if (r.chance(1, 4)) // next to it
        q = r.chance(1, 2)     ? q + r.range(-1, 1)
            : rt == INNC::f32 ? nextafterf((float)q, (float)r.range(-1, 1))
                               : nextafter((double)q, (double)r.range(-1, 1));
      if (!is_f(rt))
        q = std::isfinite(q) && fabsl(q) < 9.2e18L ? truncl(q) : 1;
      if (rt == INNC::i32)
        q = std::max<ld>(-2147483648.0L, std::min<ld>(2147483647.0L, q));
      q = round_to(rt, q);
      if (rt == INNC::i8)
        q = std::max<ld>(-128, std::min<ld>(127, q));
      if (rt == INNC::i16)
        q = std::max<ld>(-32768, std::min<ld>(32767, q));
      v.push_back(q);
    }
    y = mk(rt, b, v);
  }
  if (r.chance(1, 2)) { // other layouts
    x = mk_layout(r, lt, a, P_SMALL, &c);
    y = mk_layout(r, rt, b, P_SMALL, &c);
  }
  P base;
  if (r.chance(1, 10)) { // two views of one tensor, or twice the same
    std::string dx, dy;
    base = std::move(x);
    if (siblings(r, base, x, y, dx, dy)) {
      a = x.m.sz;
      b = y.m.sz;
      rt = lt;
      count("operands_of_one_base");
    } else
      x = std::move(base);
  }
  if (is_f(lt) && r.chance(1, 6))
    set_req(x);
  used(c, x);
  used(c, y);
  logf(c, "x %s y: %s %s, %s %s\n  x = %.300s\n  y = %.300s", kCmp[op], kDT[lt],
       shape_str(a).c_str(), kDT[rt], shape_str(b).c_str(),
       m_render(x.m).c_str(), m_render(y.m).c_str());
  std::string bx = x.t.to_string(), by = y.t.to_string();
  MT m = m_cmp(op, x.m, y.m);
  Tensor z = real_cmp(op, x.t, y.t);
  verify(z, m, "result");
  bool want = true;
  for (size_t i = 0; i < m.n(); ++i)
    want &= m.val(i) != 0;
  if (z.all() != want)
    failf("all() of the result is %d, expected %d", !want, want);
  if (x.t.to_string() != bx || y.t.to_string() != by)
    failf("the comparison changed an operand");
  count(strf("cmp_%d", op));
  if (m.n())
    distinct(strf("%d %d %d %s %s", op, lt, rt, shape_str(a).c_str(),
                  shape_str(b).c_str()));
}
