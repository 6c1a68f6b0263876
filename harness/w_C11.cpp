// C11: gradients accumulate over backward passes until zero_grad().
// RULE: histories of two to five graphs over shared leaves, with zero_grad and
// release of gradients in between; the expected sums are checked after every
// step. Distinct by history.
#include "dag.hpp"
const char *const kProperty = "C11";
uint64_t n_cases(bool th) { return th ? 120000 : 9000; }

// The listed finding: a second pass through an intermediate result that an
// earlier pass went through.
static void finding(Ctx &c) {
  Tensor a = Tensor::ones(SizeVec{2}, INNC::f64);
  a.requires_grad(true);
  Tensor y = a * Tensor(2.0);
  y.sum().backward();
  y.sum().backward();
  auto v = vals(a.grad());
  logf(c, "y = a * 2; y.sum().backward() twice: a.grad() = %s",
       a.grad().to_string().c_str());
  if (v == std::vector<ld>{4, 4})
    return;
  if (v == std::vector<ld>{2, 2}) {
    known_finding("F1");
    return;
  }
  failf("two passes through one intermediate give %s",
        a.grad().to_string().c_str());
}
struct Acc { // what a leaf's gradient should be
  bool has = false;
  std::vector<ld> g, ag;
};
static void check(const P &p, const Acc &a, const char *what) {
  if (!a.has) {
    if (has_grad(p.t))
      for (ld v : vals(p.t.grad()))
        if (fabsl(v) > 1e-6L)
          failf("%s: there is a gradient although nothing contributed", what);
    return;
  }
  MT m = p.m;
  for (size_t i = 0; i < m.node.size(); ++i)
    m.node[i] = (int)i;
  verify_grad(p.t, m, a.g, a.ag, what);
}
// Thousands of passes; roots that lay idle for 2^8 or 2^16 passes (counters of
// passes that wrap would take them for visited) are used again.
static void long_history(Ctx &c) {
  Rng &r = c.r;
  types t = r.fdt();
  Tensor a = Tensor::ones(SizeVec{2}, t), b = Tensor::ones(SizeVec{3}, t);
  a.requires_grad(true);
  b.requires_grad(true);
  std::vector<Tensor> root;
  for (int i = 0; i < 4; ++i)
    root.push_back(a.sum());
  Tensor other = b.sum();
  long ga = 0, gb = 0;
  auto look = [&](long pass) {
    for (auto v : vals(a.grad()))
      if (v != ga)
        failf("after %ld passes a.grad() is %s, expected %ld", pass,
              a.grad().to_string().c_str(), ga);
    if (!gb)
      return;
    for (auto v : vals(b.grad()))
      if (v != gb)
        failf("after %ld passes b.grad() is %s, expected %ld", pass,
              b.grad().to_string().c_str(), gb);
  };
  for (auto &x : root) {
    x.backward();
    ++ga;
  }
  look(4);
  static const long period[] = {128, 256, 32768, 65536};
  long n = 65536 + 64 + (long)r.below(64);
  for (long k = 4; k < n; ++k) {
    bool mine = false;
    for (int i = 0; i < 4; ++i)
      if (k % period[i] == i) { // an exact number of periods later
        root[(size_t)i].backward();
        ++ga;
        mine = true;
        break;
      }
    if (!mine) {
      other.backward();
      ++gb;
    }
    if ((mine && k > 5000) || k < 300 || k % 1024 == 0)
      look(k);
  }
  look(n);
  logf(c, "%ld passes from five roots, %s", n, kDT[t]);
  count("passes", (uint64_t)n);
  count("long_histories");
  distinct(c.log);
}
void run_case(Ctx &c) {
  Rng &r = c.r;
  if (c.idx == 0)
    return finding(c);
  if (c.idx <= 3)
    return long_history(c);
  Dag d;
  DagOpt o;
  o.ops = O_BINS | O_NEG | O_ABS | O_REDUCE | O_COPIES | O_VIEWS | O_PLUS;
  o.lean = O_BINS | O_VIEWS;
  o.leaves = 4;
  o.leaf_numel = 16;
  o.steps = 5;
  dag_leaves(c, d, o);
  std::vector<Acc> acc(d.n_leaf);
  for (size_t i = 0; i < d.n_leaf; ++i) {
    acc[i].g.assign(d.pool[i].m.n(), 0);
    acc[i].ag.assign(d.pool[i].m.n(), 0);
  }
  int passes = d.huge ? 2 : 2 + (int)r.below(4), zeroed = 0;
  std::string before;
  for (size_t i = 0; i < d.n_leaf; ++i)
    before += d.pool[i].t.to_string();
  auto add = [&](const std::vector<ld> &g, const std::vector<ld> &ag) {
    for (size_t i = 0; i < d.n_leaf; ++i) {
      if (!d.pool[i].m.req)
        continue;
      for (size_t k = 0; k < d.pool[i].m.n(); ++k) {
        int n = d.pool[i].m.node[k];
        if (n < (int)g.size() && ag[n] != 0) {
          acc[i].g[k] += g[n];
          acc[i].ag[k] += ag[n];
          acc[i].has = true;
        }
      }
    }
  };
  for (int p = 0; p < passes; ++p) {
    logf(c, "pass %d", p);
    // only leaves survive from pass to pass
    d.pool.resize(d.n_leaf);
    if (r.chance(1, 6)) { // release a gradient; the next pass starts from zero
      std::vector<size_t> cand;
      for (size_t i = 0; i < d.n_leaf; ++i)
        if (d.pool[i].m.req && acc[i].has)
          cand.push_back(i);
      if (!cand.empty()) {
        size_t i = r.pick(cand);
        logf(c, "  t%zu.grad().release(), t%zu.sum().backward()", i, i);
        d.pool[i].t.grad().release();
        if (r.chance(1, 2))
          d.pool[i].t.zero_grad(); // nothing to do
        d.pool[i].t.sum().backward();
        std::fill(acc[i].g.begin(), acc[i].g.end(), 1);
        std::fill(acc[i].ag.begin(), acc[i].ag.end(), 1);
        for (size_t k = 0; k < d.n_leaf; ++k)
          if (d.pool[k].m.req)
            check(d.pool[k], acc[k], strf("leaf t%zu after release", k).c_str());
        count("released");
      }
    }
    if (r.chance(1, 4)) { // one operation, directly on leaves; run repeatedly
      std::vector<size_t> cand;
      for (size_t i = 0; i < d.n_leaf; ++i)
        if (d.pool[i].m.req)
          cand.push_back(i);
      size_t i = r.pick(cand);
      bool mean = r.chance(1, 2);
      Tensor root = mean ? d.pool[i].t.mean() : d.pool[i].t.sum();
      MT m = mean ? m_mean(d.pool[i].m) : m_sum(d.pool[i].m);
      std::vector<ld> g, ag;
      g_tape.grad(m.node[0], g, ag);
      int times = 1 + (int)r.below(3);
      logf(c, "  t%zu.%s() and backward %d times", i, mean ? "mean" : "sum",
           times);
      int inner = r.chance(1, 2) ? (int)r.below(times + 1) : -1;
      for (int q = 0; q <= times; ++q) {
        if (q == inner) { // once as a part of a larger expression
          bool keep = r.chance(2, 3);
          int f = (int)r.range(2, 5);
          logf(c, "  pass %d from %d times it%s", q, f,
               keep ? ", which keeps its gradient" : "");
          root.retain_grad(keep);
          Tensor z = root * Tensor((std::int8_t)f);
          z.backward();
          for (int w = 0; w < f; ++w)
            add(g, ag);
          if (keep && (!has_grad(root) || vals(root.grad())[0] != f))
            failf("the gradient of the factor of %d is %s", f,
                  root.grad().to_string().c_str());
          count("passes");
          count("roots_inside");
        }
        if (q == times)
          break;
        root.backward();
        add(g, ag);
        count("passes");
      }
    } else {
      dag_ops(c, d, o, 1 + (int)r.below(o.steps));
      if (!dag_root(c, d, o))
        continue;
      d.root.t.backward();
      count("passes");
      add(d.g, d.ag);
    }
    for (size_t i = 0; i < d.n_leaf; ++i)
      if (d.pool[i].m.req)
        check(d.pool[i], acc[i], strf("leaf t%zu after pass %d", i, p).c_str());
    if (r.chance(1, 3)) {
      size_t i = r.below(d.n_leaf);
      logf(c, "  t%zu.zero_grad()", i);
      d.pool[i].t.zero_grad();
      std::fill(acc[i].g.begin(), acc[i].g.end(), 0);
      std::fill(acc[i].ag.begin(), acc[i].ag.end(), 0);
      if (acc[i].has)
        ++zeroed;
      for (size_t k = 0; k < d.n_leaf; ++k)
        if (d.pool[k].m.req)
          check(d.pool[k], acc[k], strf("leaf t%zu after zero_grad", k).c_str());
    }
  }
  std::string after;
  for (size_t i = 0; i < d.n_leaf; ++i)
    after += d.pool[i].t.to_string();
  if (after != before)
    failf("the passes changed the values of leaves");
  count("zeroed", zeroed);
  distinct(c.log);
}
