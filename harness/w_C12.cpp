// C12: which tensors track, which keep a gradient, and what backward leaves.
// RULE: one random DAG per case with drawn requires_grad, retain_grad and
// requires_grad(false) placements; flags, retained, freed and blocked
// gradients are checked. Distinct by program text.
#include "dag.hpp"
const char *const kProperty = "C12";
uint64_t n_cases(bool th) { return th ? 240000 : 20000; }

void run_case(Ctx &c) {
  Rng &r = c.r;
  Dag d;
  DagOpt o;
  o.ops = O_BINS | O_NEG | O_ABS | O_REDUCE | O_COPIES | O_VIEWS | O_DETACH;
  o.lean = O_BINS | O_VIEWS;
  o.leaves = 4;
  o.leaf_numel = 16;
  o.steps = 8;
  dag_leaves(c, d, o);
  // retain_grad is switched on and off while the program is recorded
  std::vector<int> retained; // identities of tensors with retain_grad
  auto is_retained = [&](const P &p) {
    return std::count(retained.begin(), retained.end(), p.m.id) > 0;
  };
  int steps = 1 + (int)r.below(o.steps);
  bool eager = r.chance(1, 2);
  for (int k = 0; k < steps; ++k) {
    size_t n = d.pool.size();
    dag_ops(c, d, o, 1);
    if (d.pool.size() == n)
      continue;
    if (d.pool[n].t.retain_grad() != is_retained(d.pool[n]))
      failf("retain_grad() of a new result t%zu is %d", n,
            (int)d.pool[n].t.retain_grad());
    count("flags_checked");
    if (r.chance(1, 8)) { // off and on again: as it was
      size_t i = r.below(d.pool.size());
      if (d.pool[i].m.req) {
        d.pool[i].t.requires_grad(false);
        if (d.pool[i].t.requires_grad())
          failf("requires_grad(false) has no effect");
        d.pool[i].t.requires_grad(true);
        logf(c, "  t%zu.requires_grad(false), t%zu.requires_grad(true)", i, i);
        count("switched_off_and_on");
      }
    }
    if (eager && r.chance(2, 3)) {
      d.pool[n].t.retain_grad(true);
      if (!d.pool[n].t.retain_grad())
        failf("retain_grad(true) has no effect");
      logf(c, "  t%zu.retain_grad(true)", n);
      retained.push_back(d.pool[n].m.id);
    }
    if (eager && r.chance(1, 6)) {
      size_t i = r.below(d.pool.size());
      d.pool[i].t.retain_grad(false);
      if (d.pool[i].t.retain_grad())
        failf("retain_grad(false) has no effect");
      logf(c, "  t%zu.retain_grad(false)", i);
      retained.erase(
          std::remove(retained.begin(), retained.end(), d.pool[i].m.id),
          retained.end());
    }
  }
  // comparisons never track
  for (int k = 0; k < 2; ++k) {
    P &a = d.pool[r.below(d.pool.size())];
    Tensor z = real_cmp((Cmp)r.below(6), a.t, a.t);
    if (z.requires_grad())
      failf("the result of a comparison requires grad");
    count("flags_checked");
  }
  // detached tensors show the same elements and do not track
  {
    P &a = d.pool[r.below(d.pool.size())];
    Tensor z = a.t.detach();
    verify(z, m_detach(a.m), "detach");
    if (has_grad(z) && !(a.m.sz.size() && a.m.sz[0] == 0))
      failf("a detached tensor has a gradient");
  }
  std::set<int> blocked;
  std::vector<bool> retain(d.pool.size()), off(d.pool.size());
  for (size_t i = 0; i < d.pool.size(); ++i) {
    if (d.pool[i].t.retain_grad() != is_retained(d.pool[i]))
      failf("retain_grad() of t%zu changed by itself", i);
    if (is_retained(d.pool[i]))
      retain[i] = true;
    if (!eager && i >= d.n_leaf && r.chance(1, 3)) {
      d.pool[i].t.retain_grad(true);
      if (!d.pool[i].t.retain_grad())
        failf("retain_grad(true) has no effect");
      retain[i] = true;
      retained.push_back(d.pool[i].m.id);
      logf(c, "  t%zu.retain_grad(true)", i);
    }
  }
  if (!dag_root(c, d, o))
    throw Discard{};
  if (d.root.t.retain_grad() != is_retained(d.root))
    failf("retain_grad() of the root is %d", (int)d.root.t.retain_grad());
  if (!d.root.t.requires_grad())
    failf("the root does not require grad");
  // stop the gradient at some tensors
  if (r.chance(1, 2)) {
    size_t i = r.below(d.pool.size());
    if (d.pool[i].m.req && !(d.root_in_pool && d.root_at == i)) {
      bool is_root_alias = d.root_in_pool && d.pool[i].m.id == d.root.m.id;
      if (!is_root_alias) {
        logf(c, "  t%zu.requires_grad(false)", i);
        d.pool[i].t.requires_grad(false);
        // handles of the same tensor (type() to the same type, unary plus)
        for (size_t k = 0; k < d.pool.size(); ++k)
          if (d.pool[k].m.req && d.pool[k].m.id == d.pool[i].m.id)
            off[k] = true;
        for (int n : d.pool[i].m.node)
          blocked.insert(n);
        for (size_t k = 0; k < d.pool.size(); ++k)
          if (off[k]) {
            if (d.pool[k].t.requires_grad())
              failf("requires_grad(false) has no effect");
            if (k != i)
              logf(c, "  (t%zu is the same tensor)", k);
          }
        count("blocked");
        g_tape.grad(d.root.m.node[0], d.g, d.ag, &blocked);
      }
    }
  }
  bool root_retain = !d.root_in_pool && r.chance(1, 3);
  if (root_retain)
    d.root.t.retain_grad(true);
  std::vector<std::string> before;
  for (auto &p : d.pool)
    before.push_back(p.t.to_string());
  std::string rb = d.root.t.to_string();
  d.root.t.backward();
  if (d.root.t.to_string() != rb)
    failf("backward changed the root");
  // retain_grad is a flag of the tensor, so handles of one tensor share it
  for (size_t i = 0; i < d.pool.size(); ++i)
    for (size_t k = 0; k < d.pool.size(); ++k)
      if (retain[k] && d.pool[k].m.id == d.pool[i].m.id)
        retain[i] = true;
  for (size_t i = 0; i < d.pool.size(); ++i) {
    P &p = d.pool[i];
    if (p.t.to_string() != before[i])
      failf("backward changed the values of t%zu", i);
    if (p.t.requires_grad() != (p.m.req && !off[i]))
      failf("backward changed requires_grad() of t%zu", i);
    if (i >= d.n_leaf && p.t.retain_grad() != retain[i])
      failf("backward changed retain_grad() of t%zu", i);
    count("flags_checked", 3);
    if (!p.m.req || off[i]) {
      if (has_grad(p.t))
        failf("t%zu does not require grad but has one", i);
      continue;
    }
    bool reached = false;
    for (int n : p.m.node)
      reached |= n < (int)d.ag.size() && d.ag[n] != 0;
    bool is_leaf = p.m.leaf;
    if (!reached) {
      if (has_grad(p.t))
        for (ld v : vals(p.t.grad()))
          if (fabsl(v) > 1e-6L)
            failf("t%zu has a gradient but no influence on the root", i);
      continue;
    }
    if (is_leaf || retain[i]) {
      verify_grad(p.t, p.m, d.g, d.ag, strf("t%zu", i).c_str());
      Tensor g = p.t.grad();
      if (g.requires_grad())
        failf("the gradient of t%zu requires grad", i);
      count(is_leaf ? "leaf_gradients" : "retained_gradients");
      if (r.chance(1, 3)) { // the gradient has elements of its own
        g += Tensor::ones(SizeVec{}, INNC::i8);
        if (p.t.to_string() != before[i])
          failf("the gradient of t%zu shares elements with it", i);
        Tensor m1 = Tensor::zeros(SizeVec{}, INNC::f32);
        m1 += Tensor(-1.0f);
        g += m1;
      }
    } else {
      if (has_grad(p.t))
        failf("t%zu is an intermediate result but kept its gradient", i);
      count("freed_gradients");
    }
  }
  if (!d.root_in_pool) {
    if (root_retain) {
      if (!has_grad(d.root.t) || vals(d.root.t.grad()) != std::vector<ld>{1})
        failf("the retained gradient of the root is not 1");
    } else if (has_grad(d.root.t))
      failf("the root kept its gradient");
  }
  distinct(c.log);
}
