// C22: long, wide and strongly shared graphs are differentiated and freed with
// little stack and in a number of steps that the graph bounds, not its paths.
// RULE: one big graph per case (eight families, enumerated by index) built,
// differentiated and freed on a thread with a 640 KB stack. Distinct by family
// and size.
#include "prog.hpp"
#include <pthread.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
const char *const kProperty = "C22";
uint64_t n_cases(bool th) { return th ? 960 : 160; }

static Ctx *g_c;
static std::string g_err;
static void body(Ctx &c);
static void *thread_main(void *) {
  try {
    body(*g_c);
  } catch (const std::exception &e) {
    g_err = e.what();
  }
  return nullptr;
}
static void expect(const Tensor &leaf, ld want, const char *what) {
  if (!has_grad(leaf))
    failf("%s: the leaf has no gradient", what);
  for (ld v : vals(leaf.grad()))
    if (fabsl(v - want) > 1e-9L * std::max<ld>(1, fabsl(want)) + 1e-6L)
      failf("%s: the gradient is %.6Lf, expected %.6Lf", what, v, want);
  count("gradients_compared", leaf.numel());
}
static Tensor make_leaf(Rng &r, Shape &s) {
  s = gen_shape(r, 4, 2, false);
  Tensor a = Tensor::ones(to_sv(s), INNC::f64);
  a.requires_grad(true);
  return a;
}
// CPU time of building, differentiating and freeing a graph of n operations.
static double cpu() {
  timespec t;
  clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
struct Cost {
  double build, back, free;
};
static Cost cost(int family, int n) {
  Tensor a = Tensor::ones(SizeVec{1}, INNC::f64), one = Tensor(1.0), y;
  a.requires_grad(true);
  double t0 = cpu();
  switch (family) {
  case 0: // a chain
    y = a;
    for (int i = 0; i < n; ++i)
      y = y + a;
    break;
  case 1: { // many uses of an intermediate result
    Tensor h = a * one;
    y = h;
    for (int i = 0; i < n; ++i)
      y = y * one + h;
    break;
  }
  case 2: { // a wide cat of results
    std::vector<Tensor> v;
    for (int i = 0; i < n; ++i)
      v.push_back(a * one);
    y = Tensor::cat(v, 0);
    break;
  }
  default: // a chain of views and copies
    y = a;
    for (int i = 0; i < n; ++i)
      y = i % 2 ? y["::-1"] : y.clone();
  }
  Tensor s = y.sum();
  double t1 = cpu();
  s.backward();
  double t2 = cpu();
  if (!has_grad(a))
    failf("no gradient");
  double t3 = cpu();
  y = Tensor();
  s = Tensor();
  return {t1 - t0, t2 - t1, cpu() - t3};
}
static void growth(Ctx &c) {
  static const char *const name[] = {"chain of sums", "shared result",
                                     "wide cat", "chain of views"};
  int family = (int)(c.idx / 8 % 4), n = 2500, f = 16;
  logf(c, "%s: %d and %d operations", name[family], n, n * f);
  cost(family, n);
  std::string what;
  for (int tries = 0; tries < 4; ++tries) { // a disturbed measurement is redone
    Cost s = cost(family, n), s2 = cost(family, n), b = cost(family, n * f);
    s.build = std::max(s.build, s2.build);
    s.back = std::max(s.back, s2.back);
    s.free = std::max(s.free, s2.free);
    // the square of the factor would be 256
    auto slow = [&](double x, double y) { return y > 4 * f * (x + 2e-4); };
    what = slow(s.build, b.build)  ? "building"
           : slow(s.back, b.back) ? "differentiating"
           : slow(s.free, b.free) ? "freeing"
                                  : "";
    logf(c, "CPU time: build %g and %g s, backward %g and %g s, free %g and %g s",
         s.build, b.build, s.back, b.back, s.free, b.free);
    if (what.empty())
      break;
  }
  if (!what.empty())
    failf("%s of %d operations: %s takes more than four times its share of the "
          "time that %d operations take",
          name[family], n * f, what.c_str(), n);
  count("growth_measured");
  distinct(strf("growth %d", family));
}
static void body(Ctx &c) {
  if (c.idx >= 8 && c.idx < 40 && c.idx % 8 == 7)
    return growth(c);
  Rng &r = c.r;
  Shape s;
  Tensor a = make_leaf(r, s);
  bool back = r.chance(3, 4);
  int kind = (int)(c.idx % 8);
  int depth = (int)r.range(6000, c.thorough ? 40000 : 12000);
  // the first graph of each long or wide family has more than 2^16 parts
  bool huge = c.idx < 8 && (kind < 2 || kind == 5 || kind == 6);
  if (huge) {
    depth = kind ? 40000 : 66000;
    back = true;
    count("huge_graphs");
  }
  Tensor y;
  ld want = 0;
  switch (kind) {
  case 0: { // a chain of sums
    logf(c, "y = y + a, %d times, over %s", depth, shape_str(s).c_str());
    y = a;
    for (int i = 0; i < depth; ++i)
      y = y + a;
    want = depth + 1;
    break;
  }
  case 1: { // a chain of products with constants, negations and clones
    logf(c, "chain of %d unary operations over %s", depth, shape_str(s).c_str());
    Tensor two = Tensor(2.0), half = Tensor(0.5);
    y = a;
    want = 1;
    for (int i = 0; i < depth; ++i)
      switch (r.below(5)) {
      case 0:
        y = -y;
        want = -want;
        break;
      case 1:
        y = y * two;
        y = y * half;
        break;
      case 2:
        y = y.clone();
        break;
      case 3:
        y = y / two * two;
        break;
      default:
        y = y - a * Tensor((std::int8_t)0);
      }
    break;
  }
  case 2: { // a chain of views
    s = {2, 3};
    a = Tensor::ones(to_sv(s), INNC::f64);
    a.requires_grad(true);
    depth /= 4;
    logf(c, "chain of %d views", depth);
    y = a;
    want = 1;
    for (int i = 0; i < depth; ++i)
      switch (r.below(3)) {
      case 0:
        y = y.transpose(0, 1);
        break;
      case 1:
        y = y["::-1"];
        break;
      default:
        y = y.reshape(to_dv({(long long)y.size()[1], -1}));
      }
    break;
  }
  case 3: { // 2^k paths
    int k = (int)r.range(20, 50);
    logf(c, "y = y + y, %d times", k);
    y = a;
    want = 1;
    for (int i = 0; i < k; ++i) {
      y = y + y;
      want *= 2;
    }
    break;
  }
  case 4: { // Fibonacci many paths
    int k = (int)r.range(30, 70);
    logf(c, "y[n] = y[n-1] + y[n-2], %d times", k);
    Tensor p, q;
    p = a;
    q = a;
    ld gp = 1, gq = 1;
    for (int i = 0; i < k; ++i) {
      Tensor n = p + q;
      ld g = gp + gq;
      p = q;
      q = n;
      gp = gq;
      gq = g;
    }
    y = q;
    want = gq;
    break;
  }
  case 5: { // many uses of one tensor, gathered in a tree
    int k = (int)r.range(500, c.thorough ? 4000 : 1500);
    if (huge)
      k = 66200;
    logf(c, "%d uses of one tensor, added up in a tree", k);
    Tensor h = a * Tensor(1.0);
    std::vector<Tensor> v;
    for (int i = 0; i < k; ++i) {
      int f = (int)r.range(-3, 3);
      want += f;
      v.push_back((huge || r.chance(1, 2) ? h : a) * Tensor((std::int32_t)f));
    }
    while (v.size() > 1) {
      std::vector<Tensor> n;
      for (size_t i = 0; i + 1 < v.size(); i += 2)
        n.push_back(v[i] + v[i + 1]);
      if (v.size() % 2)
        n.push_back(std::move(v.back()));
      v = std::move(n);
    }
    y = v[0];
    break;
  }
  case 6: { // wide cat
    int k = (int)r.range(200, c.thorough ? 2000 : 700);
    if (huge)
      k = 66200;
    logf(c, "cat of %d parts", k);
    if (s.empty()) {
      s = {1};
      a = Tensor::ones(to_sv(s), INNC::f64);
      a.requires_grad(true);
    }
    std::vector<Tensor> v;
    Tensor h = a * Tensor(1.0);
    for (int i = 0; i < k; ++i)
      if (huge || r.chance(1, 2)) {
        v.push_back(huge ? alias(h) : alias(a));
        want += 1;
      } else {
        v.push_back(a * Tensor(3.0));
        want += 3;
      }
    y = Tensor::cat(v, r.below(s.size()));
    break;
  }
  default: { // ladder: both rails use both rails
    int k = (int)r.range(20, 50);
    logf(c, "p, q = p + q, p - q, %d times", k);
    Tensor p, q;
    p = a;
    q = a * Tensor(1.0);
    ld gp = 1, gq = 1;
    for (int i = 0; i < k; ++i) {
      Tensor np = p + q, nq = p - q;
      ld a1 = gp + gq, b1 = gp - gq;
      p = std::move(np);
      q = std::move(nq);
      gp = a1;
      gq = b1;
    }
    y = p + q;
    want = gp + gq;
  }
  }
  if (back) {
    y.sum().backward();
    expect(a, want, c.log.c_str());
    // leaf gradients accumulate over a second graph
    (a * Tensor(2.0)).sum().backward();
    expect(a, want + 2, "second graph");
    count("graphs_differentiated");
  }
  count(strf("kind_%d", kind));
  if (r.chance(1, 2)) { // the leaf goes first
    a = Tensor();
    y = Tensor();
  } else {
    y = Tensor();
    if (back && !has_grad(a))
      failf("the gradient went with the graph");
  }
  count("graphs_freed");
  distinct(c.log);
}
static void on_alarm(int) {
  static const char m[] = "\nTIMEOUT: one graph took more than 100 s\n";
  (void)!write(2, m, sizeof m - 1);
  _exit(124);
}
void run_case(Ctx &c) {
  signal(SIGALRM, on_alarm);
  alarm(100);
  g_c = &c;
  g_err.clear();
  pthread_attr_t at;
  pthread_attr_init(&at);
  // enough for any sane call depth, not for recursion over the graph
  pthread_attr_setstacksize(&at, 640 << 10);
  pthread_t th;
  if (pthread_create(&th, &at, thread_main, nullptr))
    failf("harness error: no thread");
  pthread_join(th, nullptr);
  pthread_attr_destroy(&at);
  alarm(0);
  if (!g_err.empty())
    throw Violation(g_err);
}
