// C01: element-wise arithmetic with broadcasting and type promotion.
// RULE: one operation per case: operator, type pair (enumerated by index),
// broadcast-compatible shapes, layouts and value profile drawn by the seed;
// the real result is compared with the model element by element. Non-trivial:
// the result has elements; distinct by operator, types, shapes.
#include "prog.hpp"
const char *const kProperty = "C01";
uint64_t n_cases(bool th) { return th ? 800000 : 48000; }

static Prof prof(Rng &r) {
  static const Prof p[] = {P_SMALL,   P_WIDE, P_NONZERO,
                           P_SPECIAL, P_WIDE, P_FULL};
  return p[r.below(6)];
}
void run_case(Ctx &c) {
  if (c.idx % 60000 < 6)
    return million(c, M_ARITH, (unsigned)(c.idx % 60000 + c.idx / 60000));
  Rng &r = c.r;
  // all operator and type combinations in turn
  Bin op = (Bin)(c.idx % 4);
  types lt = (types)(c.idx / 4 % 6), rt = (types)(c.idx / 24 % 6);
  Shape a, b;
  gen_bcast_pair(r, a, b, r.chance(1, 14) ? 800 : 64);
  Prof pa = prof(r), pb = prof(r);
  if (c.idx % 11 == 10) { // unary minus and plus
    if (!is_f(lt) && lt >= INNC::i32 && pa == P_FULL)
      pa = P_WIDE; // the least number has no negative
    P x = mk_layout(r, lt, a, pa, &c);
    used(c, x);
    std::string before = x.t.to_string();
    logf(c, "-x: %s %s", kDT[lt], shape_str(a).c_str());
    MT m = m_neg(x.m);
    Tensor y = -x.t;
    verify(y, m, "-x");
    Tensor z = +x.t;
    verify(z, x.m, "+x");
    if (x.t.to_string() != before)
      failf("-x changed x");
    distinct(strf("neg %d %s", lt, shape_str(a).c_str()));
    count("op_neg");
    return;
  }
  if (!is_f(lt) && !is_f(rt) && lt >= INNC::i32 && rt >= INNC::i32 &&
      op == B_MUL)
    pa = pb = P_SMALL; // most products of wide values overflow (undefined)
  if (!is_f(lt) && !is_f(rt) && op == B_DIV)
    pb = P_NONZERO;
  if (!is_f(lt) && !is_f(rt)) {
    if (pa == P_FULL && (lt >= INNC::i32 || op == B_MUL))
      pa = P_WIDE;
    if (pb == P_FULL && (rt >= INNC::i32 || op >= B_MUL))
      pb = op == B_DIV ? P_NONZERO : P_WIDE;
  }
  P x = mk_layout(r, lt, a, pa, &c), y = mk_layout(r, rt, b, pb, &c);
  bool self = c.idx % 37 == 5;
  if (self) {
    y.t = x.t;
    y.m = x.m;
    b = a;
    rt = lt;
  }
  P base;
  if (!self && r.chance(1, 10)) { // two views of one tensor
    std::string dx, dy;
    base = std::move(x);
    if (siblings(r, base, x, y, dx, dy)) {
      a = x.m.sz;
      b = y.m.sz;
      rt = lt;
      logf(c, "x = base%s, y = base%s", dx.c_str(), dy.c_str());
      count("operands_of_one_base");
    } else
      x = std::move(base);
  }
  if (r.chance(1, 8) && is_f(lt)) // tracking does not change values
    set_req(x);
  used(c, x);
  used(c, y);
  std::string bx = x.t.to_string(), by = y.t.to_string();
  logf(c, "x %s y: %s %s, %s %s%s", kBin[op], kDT[lt], shape_str(a).c_str(),
       kDT[rt], shape_str(b).c_str(), self ? " (same tensor)" : "");
  MT m = m_bin(op, x.m, y.m);
  Tensor z = real_bin(op, x.t, y.t);
  logf(c, "  x = %.300s\n  y = %.300s", bx.c_str(), by.c_str());
  verify(z, m, "result");
  if (x.t.to_string() != bx)
    failf("the operation changed its left operand");
  if (y.t.to_string() != by)
    failf("the operation changed its right operand");
  if (m.n() && m.n() < 30000) { // the result owns its elements
    P w = mk(r, is_f(m.dt) ? INNC::f32 : INNC::i8, {}, P_NONZERO);
    Tensor d = z.detach();
    MT dm = m_detach(m);
    if (m_iadd(dm, w.m)) {
      d += w.t;
      if (x.t.to_string() != bx || y.t.to_string() != by)
        failf("the result shares elements with an operand");
    }
  }
  count(strf("op_%s", op == B_ADD   ? "add"
                      : op == B_SUB ? "sub"
                      : op == B_MUL ? "mul"
                                    : "div"));
  if (a != b)
    count("broadcasts");
  if (m.n())
    distinct(strf("%d %d %d %s %s", op, lt, rt, shape_str(a).c_str(),
                  shape_str(b).c_str()));
}
