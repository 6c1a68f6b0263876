#include "dag.hpp"
void dag_leaves(Ctx &c, Dag &d, const DagOpt &o) {
  Rng &r = c.r;
  int n = 1 + (int)r.below(o.leaves);
  if (r.chance(1, 2)) {
    r.no_f32 = true;
    g_grad_rel = kGradRelF64;
    count("without_f32");
  }
  size_t most = 300;
  Shape base = gen_shape(r, o.leaf_numel, r.chance(1, 4) ? 5 : 4, false);
  if (r.chance(1, 150)) { // big tensors
    base = gen_shape(r, 600, 4, false);
    if (r.chance(1, 2))
      base = {(size_t)r.range(257, 1100)};
    if (numel_of(base) > 5000)
      base = {1025};
    most = 6000;
    if (r.chance(1, 40)) { // more elements than 16 bits count
      static const Shape h[] = {{65537}, {66000, 1}, {257, 256}, {2, 33000}};
      base = h[r.below(4)];
      most = 140000;
      d.huge = true;
    }
    n = std::min(n, 2);
    d.big = true;
  }
  for (int i = 0; i < n; ++i) {
    bool req = i == 0 || r.chance(2, 3);
    types t = req ? r.fdt() : r.dt();
    Shape s = i == 0              ? base
              : r.chance(2, 3)    ? gen_bcast_partner(r, base)
              : r.chance(1, 2)    ? base
                                  : gen_shape(r, o.leaf_numel, 4, false);
    if (numel_of(s) > most)
      s = base;
    P p = mk_layout(r, t, s, P_DYADIC, &c);
    if (req)
      set_req(p);
    logf(c, "t%zu = leaf %s %s%s %.250s", d.pool.size(), kDT[t],
         shape_str(s).c_str(), req ? " requires grad" : "",
         m_render(p.m).c_str());
    d.pool.push_back(std::move(p));
  }
  d.n_leaf = d.pool.size();
}
bool dag_ops(Ctx &c, Dag &d, const DagOpt &o, int steps) {
  Rng &r = c.r;
  Limits l;
  l.nonempty = true;
  l.maxnumel = d.huge ? 140000 : d.big ? 6000 : 600;
  if (d.huge)
    steps = std::min(steps, 2);
  bool any = false;
  for (int i = 0; i < steps; ++i) {
    P x;
    unsigned op;
    unsigned ops = o.lean && r.chance(2, 3) ? o.lean : o.ops;
    logf(c, "t%zu =", d.pool.size());
    if (!apply_random(c, d.pool, ops, l, x, nullptr, &op))
      continue;
    if (o.check_forward)
      verify(x, op_name(op));
    any |= x.m.req;
    d.pool.push_back(std::move(x));
  }
  return any;
}
bool dag_root(Ctx &c, Dag &d, const DagOpt &o) {
  Rng &r = c.r;
  // a one-element result, as it is
  if (o.scalar_roots && r.chance(1, 3)) {
    std::vector<size_t> cand;
    for (size_t i = d.n_leaf; i < d.pool.size(); ++i)
      if (d.pool[i].m.req && !d.pool[i].m.leaf && d.pool[i].m.n() == 1)
        cand.push_back(i);
    if (!cand.empty()) {
      size_t i = r.pick(cand);
      d.root.t = d.pool[i].t;
      d.root.m = d.pool[i].m;
      d.root_in_pool = true;
      d.root_at = i;
      logf(c, "  root = t%zu", i);
      g_tape.grad(d.root.m.node[0], d.g, d.ag);
      return true;
    }
  }
  std::vector<size_t> use;
  bool tracked = false;
  for (size_t i = 0; i < d.pool.size(); ++i)
    if (r.chance(i + 3 >= d.pool.size() ? 3 : 1, 4)) {
      use.push_back(i);
      tracked |= d.pool[i].m.req;
    }
  if (!tracked)
    for (size_t i = d.pool.size(); i-- > 0;)
      if (d.pool[i].m.req) {
        use.push_back(i);
        tracked = true;
        break;
      }
  if (!tracked)
    return false;
  d.root = make_root(c, d.pool, use);
  g_tape.grad(d.root.m.node[0], d.g, d.ag);
  return true;
}
