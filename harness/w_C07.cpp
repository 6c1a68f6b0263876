// C07: results depend on the elements, not on how they lie in memory.
// RULE: one operation or small differentiated program per case, run on views
// and on contiguous twins with the same elements; results, flags and gradients
// are compared with each other. Distinct by operation, types, shapes, layouts.
#include "prog.hpp"
const char *const kProperty = "C07";
uint64_t n_cases(bool th) { return th ? 400000 : 27000; }

enum { KINDS = 20 };
// applies operation k to x and y (y only for binary ones)
static Tensor run(int k, uint64_t seed, Tensor &x, Tensor &y) {
  Rng r(seed);
  size_t n = x.dim();
  switch (k) {
  case 0:
  case 1:
  case 2:
  case 3:
    return real_bin((Bin)k, x, y);
  case 4:
    return -x;
  case 5:
    return x.abs();
  case 6:
    return x.sum();
  case 7:
    return x.mean();
  case 8:
    return x.max();
  case 9:
    return x.min();
  case 10: {
    types t = x.requires_grad() ? r.fdt() : r.dt();
    return x.type(t);
  }
  case 11:
    return x.clone();
  case 12:
    return x.contiguous();
  case 13: {
    if (!n)
      throw Discard{};
    std::vector<Tensor> v;
    v.push_back(alias(x));
    v.push_back(x.clone());
    v.push_back(alias(x));
    return Tensor::cat(v, r.below(n));
  }
  case 14:
    return x[sl_str(r, gen_slice(r, from_sv(x.size())))];
  case 15: {
    if (n < 2)
      throw Discard{};
    size_t d0 = r.below(n), d1 = r.below(n - 1);
    return x.transpose(d0, d1 >= d0 ? d1 + 1 : d1);
  }
  case 16: {
    Shape s = gen_reshape(r, x.numel());
    return x.reshape(to_dv(std::vector<long long>(s.begin(), s.end())));
  }
  case 17:
    return real_cmp((Cmp)r.below(6), x, y);
  case 18:
    return Tensor::zeros_like(x) + Tensor::ones_like(x);
  default:
    return +x;
  }
}
void run_case(Ctx &c) {
  Rng &r = c.r;
  int k = (int)(c.idx % KINDS);
  uint64_t seed = r.next();
  bool grad = r.chance(1, 2);
  types t = grad ? r.fdt() : r.dt(), u = r.dt();
  Shape a, b;
  gen_bcast_pair(r, a, b, r.chance(1, 11) ? 700 : 64);
  Prof p = P_DYADIC;
  P x = mk_layout(r, t, a, p, &c), y = mk_layout(r, u, b, p, &c);
  P base;
  if (r.chance(1, 8) && (k <= 3 || k == 17)) { // two views of one tensor
    std::string dx, dy;
    base = std::move(x);
    if (siblings(r, base, x, y, dx, dy)) {
      a = x.m.sz;
      b = y.m.sz;
      u = t;
      logf(c, "base%s and base%s", dx.c_str(), dy.c_str());
      count("operands_of_one_base");
    } else
      x = std::move(base);
  }
  // the same elements, contiguous
  P xc = mk(t, a, [&] {
    std::vector<ld> v;
    for (size_t i = 0; i < x.m.n(); ++i)
      v.push_back(x.m.val(i));
    return v;
  }());
  P yc = mk(u, b, [&] {
    std::vector<ld> v;
    for (size_t i = 0; i < y.m.n(); ++i)
      v.push_back(y.m.val(i));
    return v;
  }());
  if (x.m.id == y.m.id) { // one tensor on both sides
    yc.t = xc.t;
    yc.m = xc.m;
  }
  logf(c, "operation %d on %s %s and %s %s%s", k, kDT[t], shape_str(a).c_str(),
       kDT[u], shape_str(b).c_str(), grad ? ", with gradients" : "");
  same(x.t, xc.t, "operand");
  if (x.t.all() != xc.t.all())
    failf("all() depends on the layout");
  bool yg = grad && is_f(u) && r.chance(1, 2);
  if (grad)
    x.t.requires_grad(true), xc.t.requires_grad(true);
  if (yg)
    y.t.requires_grad(true), yc.t.requires_grad(true);
  if ((k == 8 || k == 9) && x.m.n() == 0)
    throw Discard{};
  if (k == 3 && !is_f(t) && !is_f(u))
    for (size_t i = 0; i < y.m.n(); ++i)
      if (y.m.val(i) == 0)
        throw Discard{};
  Tensor z = run(k, seed, x.t, y.t), zc = run(k, seed, xc.t, yc.t);
  same(z, zc, "result");
  count(strf("op_%02d", k));
  if (grad && z.requires_grad() && z.numel()) {
    Tensor w = Tensor::from_blob(
        pack(INNC::f64, gen_vals(r, INNC::f64, z.numel(), P_DYADIC)).data(),
        z.size(), INNC::f64);
    if (!zc.requires_grad())
      failf("requires_grad() of the result depends on the layout");
    (z * w).sum().backward();
    (zc * w).sum().backward();
    same(x.t.grad(), xc.t.grad(), "gradient");
    if (yg && k <= 3)
      same(y.t.grad(), yc.t.grad(), "gradient of the second operand");
    count("gradients");
  }
  if (!grad && !yg) { // and in place
    Shape s = gen_bcast_partner(r, a, true);
    P q = mk_layout(r, is_f(t) ? r.dt() : r.idt(), s, p);
    MT m = x.m;
    if (m_iadd(m, q.m)) {
      x.t += q.t;
      xc.t += q.t;
      same(x.t, xc.t, "after +=");
    }
  }
  if (x.m.n() > 1)
    distinct(strf("%d %d %d %s ", k, t, u, vec_str([&] {
                    auto st = x.t.stride();
                    return std::vector<long long>(st.begin(), st.end());
                  }())
                                               .c_str()) +
             shape_str(a) + shape_str(b));
}
