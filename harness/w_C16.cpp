// C16: threads that work on tensors of their own, and read shared ones, do not
// disturb each other. Built with ThreadSanitizer.
// RULE: two to six threads per case run programs of their own, draw,
// differentiate, and read shared tensors, under ThreadSanitizer; traces are
// compared with a single-threaded run. Distinct by case text.
#include "dag.hpp"
#include "freeprog.hpp"
#include <atomic>
#include <thread>
const char *const kProperty = "C16";
uint64_t n_cases(bool th) { return th ? 24000 : 1600; }

// threads start together
struct Gate {
  std::atomic<int> n{0};
  void wait(int k) {
    n.fetch_add(1);
    while (n.load() < k)
      std::this_thread::yield();
  }
};
template <typename F> static void in_threads(int k, F &&f) {
  Gate g;
  std::vector<std::thread> t;
  std::vector<std::string> err(k);
  for (int i = 0; i < k; ++i)
    t.emplace_back([&, i] {
      g.wait(k);
      try {
        f(i);
      } catch (const std::exception &e) {
        err[i] = e.what();
      } catch (...) {
        err[i] = "unknown exception";
      }
    });
  for (auto &x : t)
    x.join();
  for (auto &e : err)
    if (!e.empty())
      failf("in a thread: %s", e.c_str());
}
static void programs(Ctx &c, bool with_shared) {
  Rng &r = c.r;
  int k = 2 + (int)r.below(5);
  std::vector<Tensor> shared;
  if (with_shared)
    for (int i = 0; i < 4; ++i) {
      P p = mk_layout(r, r.dt(), gen_shape(r, 40), P_DYADIC);
      shared.push_back(std::move(p.t));
    }
  FreeOpt o;
  o.steps = 10 + (int)r.below(25);
  o.hostile = r.chance(1, 2);
  o.shared = with_shared ? &shared : nullptr;
  std::vector<uint64_t> seeds;
  for (int i = 0; i < k; ++i)
    seeds.push_back(r.next());
  logf(c, "%d threads, programs of %d steps%s", k, o.steps,
       with_shared ? ", reading shared tensors" : "");
  std::vector<std::string> par(k), seq(k);
  std::vector<FreeStat> st(k);
  in_threads(k, [&](int i) {
    Rng q(seeds[i]);
    par[i] = run_free(q, o, st[i]);
  });
  for (int i = 0; i < k; ++i) {
    Rng q(seeds[i]);
    FreeStat s;
    seq[i] = run_free(q, o, s);
    count("calls_in_threads", st[i].calls);
    count("backward_calls_in_threads", st[i].backwards);
    if (seq[i] != par[i])
      failf("thread %d of %d got other results than the same program alone", i,
            k);
    count("results_compared");
  }
  distinct(seq[0] + seq[1]);
}
// Graphs over one parameter are built in parallel, then differentiated.
static void shared_parameter(Ctx &c) {
  Rng &r = c.r;
  int k = 2 + (int)r.below(6);
  Shape s = gen_shape(r, 40, 3, false);
  P w = mk(r, INNC::f64, s, P_DYADIC);
  set_req(w);
  std::vector<P> x;
  for (int i = 0; i < k; ++i)
    x.push_back(mk_layout(r, r.dt(), s, P_DYADIC));
  std::vector<Tensor> loss(k);
  logf(c, "%d threads build losses over one parameter %s", k,
       shape_str(s).c_str());
  in_threads(k, [&](int i) {
    for (int n = 0; n < 8; ++n) {
      Tensor h = w.t * x[i].t;
      Tensor v = h - w.t;
      loss[i] = v.sum();
      Tensor d = w.t.detach();
      (void)d.to_string();
    }
  });
  for (auto &l : loss)
    l.backward();
  std::vector<ld> want(w.m.n(), 0), mag(w.m.n(), 0);
  MT m = w.m;
  for (size_t e = 0; e < w.m.n(); ++e) {
    m.node[e] = (int)e;
    for (int i = 0; i < k; ++i) {
      want[e] += x[i].m.val(e) - 1;
      mag[e] += fabsl(x[i].m.val(e)) + 1;
    }
  }
  verify_grad(w.t, m, want, mag, "parameter");
  count("losses_built_in_threads", k * 8);
  distinct(strf("param %d %s", k, shape_str(s).c_str()));
}
// Each thread trains a model of its own.
static void training(Ctx &c) {
  Rng &r = c.r;
  int k = 2 + (int)r.below(6), n = 4 + (int)r.below(8);
  Shape s = gen_shape(r, 30, 3, false);
  P x = mk_layout(r, INNC::f32, s, P_DYADIC), y = mk(r, INNC::f64, s, P_DYADIC);
  logf(c, "%d threads train, %d rounds, on shared data %s", k, n,
       shape_str(s).c_str());
  std::vector<std::string> res(k + 1);
  auto train = [&](int i) {
    Tensor w = Tensor::ones(to_sv(s), INNC::f64), b = Tensor::zeros(SizeVec{}, INNC::f64);
    w.requires_grad(true);
    b.requires_grad(true);
    for (int q = 0; q < n; ++q) {
      Tensor e = w * x.t + b - y.t;
      Tensor l = (e * e).mean();
      l.backward();
      w.detach() += w.grad() * Tensor(-0.05);
      b.detach() += b.grad() * Tensor(-0.05);
      w.zero_grad();
      b.zero_grad();
    }
    res[i] = w.to_string() + b.to_string();
  };
  in_threads(k, train);
  train(k);
  for (int i = 0; i < k; ++i)
    if (res[i] != res[k])
      failf("training in thread %d of %d gave %.200s, alone %.200s", i, k,
            res[i].c_str(), res[k].c_str());
  count("rounds_in_threads", (uint64_t)k * n);
  distinct(strf("train %d %d %s", k, n, shape_str(s).c_str()));
}
// A graph goes from one thread to another.
static void handover(Ctx &c) {
  Rng &r = c.r;
  int k = 2 + (int)r.below(4);
  Shape s = gen_shape(r, 30, 3, false);
  std::vector<Tensor> leaf(k), loss(k);
  logf(c, "%d graphs built in threads, differentiated in others", k);
  in_threads(k, [&](int i) {
    leaf[i] = Tensor::ones(to_sv(s), INNC::f32);
    leaf[i].requires_grad(true);
    Tensor h = leaf[i] * Tensor((std::int32_t)(i + 2));
    loss[i] = (h + h).sum();
  });
  in_threads(k, [&](int i) { loss[(i + 1) % k].backward(); });
  in_threads(k, [&](int i) {
    int q = (i + 2) % k;
    for (ld v : vals(leaf[q].grad()))
      if (v != 2 * (q + 2))
        throw std::runtime_error("wrong gradient");
    loss[q] = Tensor(); // freed in yet another thread
  });
  count("graphs_handed_over", k);
  distinct(strf("hand %d %s", k, shape_str(s).c_str()));
}
static void random_numbers(Ctx &c) {
  int k = 2 + (int)c.r.below(6);
  logf(c, "%d threads draw random numbers", k);
  std::vector<std::string> got(k);
  in_threads(k, [&](int i) {
    for (int n = 0; n < 5; ++n) {
      Tensor t = Tensor::randn(SizeVec{16}, n % 2 ? INNC::f32 : INNC::f64);
      got[i] = t.to_string();
    }
  });
  std::set<std::string> u(got.begin(), got.end());
  if ((int)u.size() != k)
    failf("two threads drew the same 16 random numbers");
  count("random_tensors_in_threads", 5 * k);
  distinct(strf("randn %d", k));
}
void run_case(Ctx &c) {
  switch (c.idx % 8) {
  case 0:
  case 1:
    return programs(c, false);
  case 2:
  case 3:
  case 4:
    return programs(c, true);
  case 5:
    return shared_parameter(c);
  case 6:
    return training(c);
  default:
    if (c.r.chance(1, 3))
      return random_numbers(c);
    return handover(c);
  }
}
