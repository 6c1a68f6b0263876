// C18: conversion between element types.
// RULE: one conversion per case: type pair enumerated by index, shape, layout
// and values drawn. Non-trivial: has elements; distinct by types, flag, shape.
#include "prog.hpp"
const char *const kProperty = "C18";
uint64_t n_cases(bool th) { return th ? 900000 : 60000; }

void run_case(Ctx &c) {
  if (c.idx % 60000 < 6)
    return million(c, M_TYPE, (unsigned)(c.idx % 60000 + c.idx / 60000));
  Rng &r = c.r;
  types f = (types)(c.idx % 6), t = (types)(c.idx / 6 % 6);
  Shape s = gen_shape(r, r.chance(1, 12) ? 800 : 80);
  Prof p = r.chance(1, 2) ? P_WIDE : r.chance(1, 2) ? P_SMALL : P_NONZERO;
  if (is_f(f) && is_f(t) && r.chance(1, 4))
    p = P_SPECIAL;
  if (r.chance(1, 3) && !(f == INNC::f64 && t == INNC::f32))
    p = P_FULL;
  P x = mk_layout(r, f, s, p, &c);
  if (is_f(f) && !is_f(t)) { // values in range, close to integers and halves
    std::vector<ld> v;
    ld lim = t == INNC::i8    ? 127
             : t == INNC::i16 ? 32767
             : r.chance(1, 2) ? 1e6L
             : t == INNC::i32 ? 2147480000.0L
                              : 4.4e18L;
    for (size_t i = 0; i < x.m.n(); ++i) {
      ld q = (ld)r.range(-(long long)lim, (long long)lim);
      if (lim > 1e6L && r.chance(1, 2))
        q = truncl(ldexpl(q, -(int)r.below(40)));
      if (fabsl(q) < lim)
        q += (ld)r.range(-7, 7) / 8;
      v.push_back(round_to(f, q));
    }
    P y = mk(f, s, v);
    if (s.size() >= 2 && r.chance(1, 2)) {
      size_t d = r.below(s.size() - 1);
      Tensor z = y.t.transpose(d, d + 1);
      x.t = std::move(z);
      x.m = m_transpose(y.m, d, d + 1);
    } else
      x = std::move(y);
  }
  bool req = is_f(f) && is_f(t) && r.chance(1, 3);
  if (req)
    set_req(x);
  used(c, x);
  std::string before = x.t.to_string();
  logf(c, "%s %s to %s: %.300s", kDT[f], shape_str(x.m.sz).c_str(), kDT[t],
       before.c_str());
  MT m = m_type(x.m, t);
  Tensor y = x.t.type(t);
  verify(y, m, "converted");
  if (x.t.to_string() != before)
    failf("the conversion changed the tensor");
  if (req && m.n()) {
    P w = mk(r, INNC::f64, x.m.sz, P_DYADIC);
    for (ld q : vals(w.t))
      (void)q;
    bool finite = true;
    for (size_t i = 0; i < x.m.n(); ++i)
      finite &= std::isfinite(m.val(i));
    if (finite) {
      (y * w.t).sum().backward();
      std::vector<ld> g, ag;
      MT mm = x.m;
      for (size_t i = 0; i < mm.n(); ++i) {
        mm.node[i] = (int)i;
        g.push_back(w.m.val(i));
        ag.push_back(fabsl(w.m.val(i)));
      }
      verify_grad(x.t, mm, g, ag, "gradient through the conversion");
    }
  } else if (m.n() && p != P_SPECIAL) {
    // to the same type: the same elements; to another: a copy
    MT mm = m;
    P w = mk(r, INNC::i8, {}, P_NONZERO);
    if (m_iadd(mm, w.m)) {
      y += w.t;
      verify(y, mm, "converted, after +=");
      if (f == t) {
        MT xm = x.m;
        verify(x.t, xm, "tensor converted to its own type, after +=");
      } else if (x.t.to_string() != before)
        failf("the converted tensor shares elements with the original");
    }
  }
  count(strf("%s_to_%s", kDT[f], kDT[t]));
  if (m.n())
    distinct(strf("%d %d %d %s", f, t, req, shape_str(s).c_str()));
}
