// C09: backward() computes the derivatives of the program that was run.
// RULE: one random DAG per case: leaves, up to ten operations, a scalar root;
// every gradient is compared with a scalar tape in long double. Distinct by
// the program text with its values.
#include "dag.hpp"
const char *const kProperty = "C09";
uint64_t n_cases(bool th) { return th ? 160000 : 12000; }

void run_case(Ctx &c) {
  if (c.idx % 60000 < 5)
    return million(c, M_GRAD, (unsigned)(c.idx % 60000 + c.idx / 60000));
  Rng &r = c.r;
  DagOpt o;
  o.ops = O_BINS | O_NEG | O_ABS | O_REDUCE | O_COPIES | O_PLUS;
  o.lean = O_BINS;
  o.leaves = 4;
  Dag d;
  dag_leaves(c, d, o);
  dag_ops(c, d, o, 1 + (int)r.below(o.steps + (r.chance(1, 12) ? 25 : 0)));
  if (!dag_root(c, d, o))
    throw Discard{};
  verify(d.root, "root");
  d.root.t.backward();
  for (size_t i = 0; i < d.n_leaf; ++i) {
    P &p = d.pool[i];
    if (!p.m.req) {
      if (has_grad(p.t))
        failf("leaf t%zu does not require grad but has one", i);
      continue;
    }
    bool reached = false;
    for (auto n : p.m.node)
      reached |= n < (int)d.ag.size() && d.ag[n] != 0;
    if (reached)
      verify_grad(p.t, p.m, d.g, d.ag, strf("leaf t%zu", i).c_str());
    else if (has_grad(p.t))
      for (ld v : vals(p.t.grad()))
        if (fabsl(v) > 1e-6L)
          failf("leaf t%zu has a gradient but no influence", i);
    if (reached)
      count("leaves_with_gradient");
  }
  count("graph_nodes", d.pool.size() - d.n_leaf);
  distinct(c.log);
}
