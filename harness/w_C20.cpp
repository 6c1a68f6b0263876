// C20: += adds in place, to exactly the elements the left side shows.
// RULE: one base tensor per case, a drawn view of it, and up to three in-place
// additions; view, base and right side are compared with the model. Distinct
// by types, shapes.
#include "prog.hpp"
const char *const kProperty = "C20";
uint64_t n_cases(bool th) { return th ? 600000 : 40000; }

void run_case(Ctx &c) {
  if (c.idx % 5000 < 2)
    return giant(c);
  if (c.idx % 60000 >= 2 && c.idx % 60000 < 8)
    return million(c, M_IADD, (unsigned)(c.idx % 60000 - 2 + c.idx / 60000));
  Rng &r = c.r;
  types lt = (types)(c.idx % 6), rt = (types)(c.idx / 6 % 6);
  bool detached = is_f(lt) && r.chance(1, 4);
  // a base, and a view of it that gets written
  Shape bs = gen_shape(r, r.chance(1, 14) ? 600 : 80);
  P base = mk_layout(r, lt, bs,
                     is_f(lt) && r.chance(1, 6) ? P_FULL
                     : r.chance(1, 3)           ? P_WIDE
                                                : P_SMALL,
                     &c);
  if (detached)
    set_req(base);
  P a;
  a.t = detached ? base.t.detach() : alias(base.t);
  a.m = detached ? m_detach(base.m) : base.m;
  logf(c, "base %s %s%s", kDT[lt], shape_str(bs).c_str(),
       detached ? " (requires grad, written through detach())" : "");
  for (int k = 0, n = (int)r.below(3); k < n; ++k) {
    if (a.m.sz.size() >= 2 && r.chance(1, 2)) {
      size_t d = r.below(a.m.sz.size() - 1);
      Tensor y = a.t.transpose(d, d + 1);
      a.t = std::move(y);
      a.m = m_transpose(a.m, d, d + 1);
      logf(c, "  transpose(%zu,%zu)", d, d + 1);
    } else {
      auto sl = gen_slice(r, a.m.sz, true, true);
      if (sl.empty())
        continue;
      MT m;
      m_slice(a.m, sl, m);
      std::string str = sl_str(r, sl);
      Tensor y = a.t[str];
      a.t = std::move(y);
      a.m = std::move(m);
      logf(c, "  [\"%s\"]", str.c_str());
    }
  }
  P right; // another view of the same elements
  if (r.chance(1, 6)) {
    P x, y;
    std::string dx, dy;
    if (siblings(r, a, x, y, dx, dy) && m_iadd_defined(x.m, y.m)) {
      a = std::move(x);
      right = std::move(y);
      logf(c, "  a = view%s, b = view%s", dx.c_str(), dy.c_str());
    }
  }
  for (int round = 0, n = 1 + (int)r.below(3); round < n; ++round) {
    Shape s = r.chance(1, 2) ? a.m.sz : gen_bcast_partner(r, a.m.sz, true);
    P b = mk_layout(r, rt, s,
                    !is_f(lt) && is_f(rt) ? P_SMALL
                    : r.chance(1, 3)      ? P_WIDE
                                          : P_SMALL);
    if (is_f(rt) && r.chance(1, 6))
      set_req(b);
    if (r.chance(1, 12)) {
      b.t = a.t;
      b.m = a.m;
      logf(c, "  adding it to itself");
    }
    if (right.m.st && (rt == lt || r.chance(1, 2))) {
      b.t = right.t;
      b.m = right.m;
      logf(c, "  adding another view of its base");
      count("adds_within_one_storage");
    }
    std::string bb = b.t.to_string();
    MT save = a.m;
    bool self = b.m.st == a.m.st;
    if (!m_iadd(a.m, b.m))
      throw Discard{};
    logf(c, "  += %s %s %.200s", kDT[b.m.dt], shape_str(b.m.sz).c_str(),
         bb.c_str());
    Tensor &ret = a.t += b.t;
    if (&ret != &a.t)
      failf("+= does not return its left side");
    verify(a, "left side");
    verify(base, "base of the left side");
    if (self)
      verify(b, "right side");
    else if (b.t.to_string() != bb)
      failf("+= changed its right side");
    if (detached && has_grad(base.t) && !(bs.size() && bs[0] == 0))
      failf("+= on a detached tensor made a gradient");
    count("adds");
    count("elements_added", a.m.n());
  }
  if (a.m.n() && a.m.n() != base.m.n())
    count("partial_writes");
  if (a.m.n())
    distinct(strf("%d %d %d %s %s", lt, rt, detached, shape_str(bs).c_str(),
                  shape_str(a.m.sz).c_str()));
}
