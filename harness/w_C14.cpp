// C14: everything is freed when the last handle goes, nothing sooner.
// RULE: programs run repeatedly with the live heap measured, training loops
// with the heap measured per round, differentiation and views after the
// operands' handles were dropped, and periodic leak checks. Distinct by case
// text.
#include "dag.hpp"
#include "freeprog.hpp"
#include <sanitizer/allocator_interface.h>
#include <sanitizer/lsan_interface.h>
const char *const kProperty = "C14";
uint64_t n_cases(bool th) { return th ? 60000 : 2800; }

static size_t live() { return __sanitizer_get_current_allocated_bytes(); }

// The same program again and again: memory in use has to come back to where
// it was after each run. The first run warms up caches.
static void balance(Ctx &c) {
  FreeOpt o;
  o.steps = 15 + (int)c.r.below(30);
  o.hostile = c.r.chance(2, 3);
  uint64_t seed = c.r.next();
  logf(c, "program of %d steps%s, run three times", o.steps,
       o.hostile ? " with invalid requests" : "");
  size_t at[4];
  size_t calls = 0;
  for (int k = 0; k < 3; ++k) {
    {
      FreeStat st;
      Rng r(seed);
      run_free(r, o, st);
      calls += st.calls;
    }
    at[k] = live();
  }
  if (at[2] > at[1])
    failf("a program left %zu bytes behind after its last handle was gone",
          at[2] - at[1]);
  count("programs_balanced");
  count("calls", calls);
}
// Tensors of some hundred kilobytes each: nothing of that size stays behind,
// not even until the next program.
static void kept(Ctx &c) {
  Rng &r = c.r;
  auto use = [&](Rng &q, size_t n) {
    std::vector<Tensor> pool;
    for (int i = 0; i < 2; ++i) {
      Tensor t = Tensor::ones(SizeVec{n}, q.fdt());
      t.requires_grad(i == 0 || q.chance(1, 2));
      pool.push_back(std::move(t));
    }
    for (int i = 0, m = 1 + (int)q.below(3); i < m; ++i) {
      Tensor &a = pool[q.below(pool.size())], &b = pool[q.below(pool.size())];
      Tensor z;
      switch (q.below(12)) {
      case 0:
        z = a + b;
        break;
      case 1:
        z = a - b;
        break;
      case 2:
        z = a * b;
        break;
      case 3:
        z = a / b;
        break;
      case 4:
        z = a.abs();
        break;
      case 5:
        z = a.type(a.type() == INNC::f32 ? INNC::f64 : INNC::f32);
        break;
      case 6:
        z = a.clone();
        break;
      case 7:
        z = a["::-1"].contiguous();
        break;
      case 8:
        z = a.reshape(to_dv({1, -1})).transpose(0, 1)[":,0"];
        break;
      case 9: {
        std::vector<Tensor> v;
        v.push_back(a["1:"]);
        v.push_back(b["0:1"]);
        z = Tensor::cat(v, 0);
        break;
      }
      case 10:
        z = a < b;
        if (q.chance(1, 2))
          (void)a.to_string();
        break;
      default:
        z = is_f(a.type()) ? Tensor::randn_like(a) : Tensor::zeros_like(a);
      }
      if (q.chance(1, 2)) {
        try { // rejected
          if (q.chance(1, 2))
            z += Tensor::ones(SizeVec{n + 1}, INNC::f64);
          else
            (void)(z + Tensor::ones(SizeVec{n + 1}, INNC::f64));
        } catch (const std::exception &) {
        }
      }
      if (q.chance(1, 3))
        z.retain_grad(true);
      pool.push_back(std::move(z));
    }
    int how = (int)q.below(4);
    Tensor s = how == 0   ? pool.back().mean()
               : how == 1 ? pool.back().max()
                          : pool.back().sum();
    s = s + pool[0].sum();
    if (q.chance(3, 4))
      s.backward();
    if (q.chance(1, 3)) { // another pass, from elsewhere
      Tensor t = pool[0]["0:-1"].sum();
      t.backward();
    }
  };
  uint64_t seed = r.next(), other = r.next();
  const size_t big = 12000;
  {
    Rng q(seed);
    use(q, 4); // warm up
  }
  {
    Rng q(other);
    use(q, 4);
  }
  size_t before = live();
  {
    Rng q(seed);
    use(q, big);
  }
  size_t after = live();
  logf(c, "a program with tensors of %zu elements", big);
  if (after > before + big)
    failf("%zu bytes are still in use after the last handle of a program with "
          "tensors of %zu elements was gone",
          after - before, big);
  count("programs_with_large_tensors");
}
// A training loop must not grow.
static void steady(Ctx &c) {
  Rng &r = c.r;
  Shape s = gen_shape(r, 32, 3, false);
  P w = mk(r, r.fdt(), s, P_DYADIC), b = mk(r, r.fdt(), {}, P_DYADIC);
  P x = mk_layout(r, r.dt(), s, P_DYADIC), y = mk_layout(r, r.fdt(), s, P_DYADIC);
  w.t.requires_grad(true);
  b.t.requires_grad(true);
  int kind = (int)r.below(6), n = 6 + (int)r.below(6);
  logf(c, "training loop %d over %s, %d rounds", kind, shape_str(s).c_str(), n);
  size_t first = 0;
  bool zero = r.chance(1, 2), free_grads = r.chance(1, 3),
       free_temps = r.chance(1, 3);
  for (int i = 0; i < n; ++i) {
    {
      Tensor h = w.t * x.t + b.t;
      Tensor e = h - y.t;
      Tensor loss;
      switch (kind) {
      case 0:
        loss = (e * e).mean();
        break;
      case 1:
        loss = e.abs().sum();
        break;
      case 2:
        loss = (e * e).reshape(to_dv({(long long)e.numel()}))["0"] + b.t;
        break;
      case 3: {
        std::vector<Tensor> v;
        if (s.empty()) {
          loss = (e * e).sum();
          break;
        }
        v.push_back(alias(e));
        v.push_back(alias(h));
        loss = Tensor::cat(v, 0).clone().sum();
        break;
      }
      case 4:
        e.retain_grad(true);
        loss = (e / (e * e + Tensor(1.0))).sum();
        break;
      default:
        loss = (e.type(INNC::f64) * e.max()).mean();
      }
      if (i % 3 != 1)
        loss.backward();
      try {
        (void)(w.t.reshape(to_dv({7, 11, 13})) + h);
      } catch (const std::exception &) {
      }
      if (has_grad(w.t) && w.t.grad().requires_grad())
        failf("the gradient tracks");
      w.t.detach() += Tensor(-0.001f);
      if (zero) {
        w.t.zero_grad();
        b.t.zero_grad();
      }
      if (free_grads && has_grad(w.t)) { // the next pass makes them again
        w.t.grad().release();
        if (i % 3 != 1)
          loss.detach().clone().release();
        w.t.sum().backward();
      }
      if (free_temps) {
        Tensor big = Tensor::ones(to_sv({64}), INNC::f64) + b.t.detach();
        big.release();
      }
    }
    size_t now = live();
    if (i == 3)
      first = now;
    if (i > 3 && now > first)
      failf("memory in use grew by %zu bytes between rounds 3 and %d of a "
            "training loop",
            now - first, i);
  }
  count("training_rounds", n);
}
// Handles of intermediate results may go before backward().
static void dropped(Ctx &c) {
  Rng &r = c.r;
  Dag d;
  DagOpt o;
  o.ops = O_BINS | O_NEG | O_ABS | O_REDUCE | O_COPIES | O_VIEWS | O_PLUS;
  dag_leaves(c, d, o);
  dag_ops(c, d, o, 2 + (int)r.below(8));
  if (!dag_root(c, d, o))
    throw Discard{};
  std::vector<P> leaves;
  for (size_t i = 0; i < d.n_leaf; ++i)
    leaves.push_back(std::move(d.pool[i]));
  // even leaves that nobody looks at
  size_t lost = r.below(leaves.size() + 1);
  logf(c, "  drop every handle but the root and the leaves (except t%zu)",
       lost);
  d.pool.clear();
  if (lost < leaves.size() && leaves.size() > 1)
    leaves.erase(leaves.begin() + lost);
  d.root.t.backward();
  d.root = P();
  for (auto &p : leaves) {
    if (!p.m.req)
      continue;
    bool reached = false;
    for (int n : p.m.node)
      reached |= n < (int)d.ag.size() && d.ag[n] != 0;
    if (reached) {
      verify_grad(p.t, p.m, d.g, d.ag, "leaf");
      count("gradients_after_drop");
    }
    verify(p, "leaf");
  }
}
// Views keep what they show alive.
static void outlive(Ctx &c) {
  Rng &r = c.r;
  std::vector<P> pool;
  pool.push_back(mk_layout(r, r.dt(), gen_shape(r, 60), P_UNIQUE, &c));
  Limits l;
  l.maxabs = 1e6;
  for (int i = 0; i < 10; ++i) {
    P x;
    if (apply_random(c, pool, O_VIEWS | O_DETACH | O_PLUS, l, x)) {
      pool.push_back(std::move(x));
      if (r.chance(1, 2)) {
        logf(c, "  drop t0 (indices move)");
        pool.erase(pool.begin());
        count("sources_dropped");
      }
    }
    // something that might reuse the memory
    P junk = mk(r, INNC::i64, Shape{8}, P_WIDE);
    for (auto &p : pool)
      verify(p, "view whose source is gone");
  }
}
void run_case(Ctx &c) {
  switch (c.idx % 4) {
  case 0:
    if (c.idx % 20 == 0)
      kept(c);
    else
      balance(c);
    break;
  case 1: {
    // warm up: counters and the like
    Ctx d(c.seed);
    d.idx = c.idx;
    steady(d);
    steady(c);
    break;
  }
  case 2:
    dropped(c);
    break;
  default:
    outlive(c);
  }
  // unreachable blocks (a cycle of handles, say)
  if (c.idx % 64 == 63) {
    if (__lsan_do_recoverable_leak_check())
      failf("unreachable memory (see the leak report)");
    count("leak_checks");
  }
  distinct(c.log);
}
