// C21: randn draws independent standard normal numbers. The thresholds make a
// false alarm less likely than 1e-10 per run of the check.
// RULE: big draws, pools of small draws, rows of equal small draws and draws in
// several threads, read exactly; moments, correlations of numbers and of their
// squares at many distances, Kolmogorov distance, precision and repetitions.
// Distinct by kind, type, shape.
#include "prog.hpp"
#include <thread>
const char *const kProperty = "C21";
uint64_t n_cases(bool th) { return th ? 6000 : 480; }

static double cdf(double x) { return 0.5 * erfc(-x / sqrt(2.0)); }
// The exact numbers: scaled by a power of two, they are printed in full.
static void exact(const Tensor &x, std::vector<double> &out) {
  static const double scale = 1152921504606846976.; // 2^60
  Tensor y = x * Tensor(scale);
  for (ld e : vals(y))
    out.push_back((double)(e / (ld)scale));
}
static void stats(std::vector<double> v, types t, const char *what) {
  double n = (double)v.size(), s = 0, s2 = 0, s3 = 0, s4 = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    double x = v[i];
    if (!std::isfinite(x) || fabs(x) > 10)
      failf("%s: %g is not a plausible standard normal number", what, x);
    s += x;
    s2 += x * x;
    s3 += x * x * x;
    s4 += x * x * x * x;
  }
  auto z = [&](double got, double want, double sd, const char *name) {
    if (fabs(got - want) > 8.5 * sd)
      failf("%s: the %s of %g numbers is %g, expected %g +- %g", what, name, n,
            got, want, sd);
  };
  z(s / n, 0, 1 / sqrt(n), "mean");
  z(s2 / n, 1, sqrt(2 / n), "second moment");
  z(s3 / n, 0, sqrt(15 / n), "third moment");
  z(s4 / n, 3, 1.3 * sqrt(96 / n), "fourth moment");
  // pairs: at fixed distances, and mirrored
  std::vector<size_t> lag{1,  2,  3,  4,  5,   6,   7,   8,   9,   10,  12,
                          15, 16, 24, 31, 32,  33,  64,  100, 127, 128, 256,
                          312, 397, 512, 623, 624, 1000, 1024, 4096};
  for (size_t k = 2; k < 7; ++k)
    lag.push_back(v.size() / k);
  lag.push_back(0);
  for (size_t l : lag) {
    if (l > v.size() / 2)
      continue;
    double ac = 0, sc = 0, m = 0;
    for (size_t i = l; i < (l ? v.size() : v.size() / 2); ++i, ++m) {
      double x = v[i], y = l ? v[i - l] : v[v.size() - 1 - i];
      ac += x * y;
      sc += (x * x - 1) * (y * y - 1);
    }
    if (fabs(ac) > 9.5 * sqrt(m))
      failf("%s: the correlation %s %zu of %g numbers is %g", what,
            l ? "at distance" : "between the ends,", l, n, ac / m);
    if (fabs(sc) > 16 * 2 * sqrt(m))
      failf("%s: the correlation of squares %s %zu of %g numbers is %g", what,
            l ? "at distance" : "between the ends,", l, n, sc / m);
  }
  // Repetitions, up to the sign. Exact f64 draws practically never repeat; f32
  // draws do, but seldom, and not at a fixed distance.
  std::vector<std::pair<double, size_t>> a;
  for (size_t i = 0; i < v.size(); ++i)
    a.emplace_back(fabs(v[i]), i);
  std::sort(a.begin(), a.end());
  size_t run = 1, rep = 0;
  std::map<size_t, size_t> at;
  for (size_t i = 1; i < a.size(); ++i) {
    run = a[i].first == a[i - 1].first ? run + 1 : 1;
    if (run > 7)
      failf("%s: the number %g occurs %zu times among %g", what, a[i].first,
            run, n);
    if (run > 1) {
      ++rep;
      size_t l = a[i].second - a[i - 1].second;
      if (++at[l] > 6)
        failf("%s: numbers repeat at distance %zu", what, l);
    }
  }
  if (rep > (t == INNC::f64 ? 3 : (size_t)(20 + 1e-6 * n * n)))
    failf("%s: %zu of %g numbers are repetitions", what, rep, n);
  std::sort(v.begin(), v.end());
  double d = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    double f = cdf(v[i]);
    d = std::max(d, std::max(fabs(f - i / n), fabs(f - (i + 1) / n)));
  }
  if (d > sqrt(16 / n))
    failf("%s: the distribution is %g away from the standard normal one "
          "(%g numbers)",
          what, d, n);
  count("numbers_tested", v.size());
}
void run_case(Ctx &c) {
  Rng &r = c.r;
  types t = c.idx % 2 ? INNC::f32 : INNC::f64;
  if (c.idx % 4 < 2) { // one big draw
    Shape s{(size_t)r.range(4000, 9000)};
    if (r.chance(1, 2))
      s = {(size_t)r.range(20, 60), (size_t)r.range(100, 200)};
    if (c.idx % 40 == 4 || c.idx % 40 == 5)
      s = {(size_t)r.range(66000, 140000)};
    logf(c, "randn %s %s", kDT[t], shape_str(s).c_str());
    Tensor x = Tensor::randn(to_sv(s), t);
    if (from_sv(x.size()) != s || x.type() != t || x.requires_grad() ||
        !x.is_contiguous())
      failf("randn does not have the shape, type or flags asked for");
    std::vector<double> v;
    exact(x, v);
    if (v.size() != numel_of(s))
      failf("%zu numbers instead of %zu", v.size(), numel_of(s));
    stats(v, t, "randn");
    if (t == INNC::f64) { // all the precision of the type is used
      Tensor d = (x - x.type(INNC::f32)) * Tensor(1e12);
      size_t k = 0;
      for (ld e : vals(d))
        k += e != 0;
      if (k < v.size() / 2)
        failf("randn(f64) has only the precision of f32");
      count("precision_checked");
    }
    distinct(strf("big %d %s", t, shape_str(s).c_str()));
    return;
  }
  if (c.idx == 22) { // many threads
    // A seed of 32 bits repeats among 300 threads with a chance of 1e-5.
    logf(c, "300 threads draw 8 numbers each");
    std::set<std::string> seen;
    for (int i = 0; i < 300; ++i) {
      std::string str;
      std::thread([&] {
        str = Tensor::randn(to_sv({8}), INNC::f64).to_string();
      }).join();
      if (!seen.insert(str).second)
        failf("two of 300 threads drew the same numbers");
    }
    count("threads", 300);
    distinct("300 threads");
    return;
  }
  if (c.idx % 20 == 2 || c.idx % 20 == 3) { // draws in several threads
    int k = 2 + (int)r.below(5);
    size_t n = (size_t)r.range(300, 900), m = 3;
    std::vector<std::vector<Tensor>> x((size_t)k);
    std::vector<std::thread> th;
    logf(c, "%d threads draw %zu times %zu numbers of %s", k, m, n, kDT[t]);
    bool serial = r.chance(1, 3); // one thread after the other
    for (int i = 0; i < k; ++i) {
      th.emplace_back([&x, i, m, n, t] {
        for (size_t q = 0; q < m; ++q)
          x[(size_t)i].push_back(Tensor::randn(to_sv({n}), t));
      });
      if (serial)
        th.back().join();
    }
    for (auto &y : th)
      if (y.joinable())
        y.join();
    std::set<std::string> seen;
    std::vector<std::vector<double>> all;
    std::vector<double> v;
    for (auto &y : x)
      for (auto &z : y) {
        seen.insert(z.to_string());
        all.emplace_back();
        exact(z, all.back());
        v.insert(v.end(), all.back().begin(), all.back().end());
      }
    if (seen.size() != all.size())
      failf("two threads or calls drew the same numbers");
    // streams do not overlap, shifted against each other
    std::map<double, size_t> first;
    size_t repeats = 0;
    for (size_t i = 0; i < all.size(); ++i)
      for (size_t q = 0; q + 1 < n; ++q) {
        double key = all[i][q] * 1e6 + all[i][q + 1];
        auto it = first.emplace(key, i);
        if (!it.second && it.first->second != i)
          ++repeats;
      }
    if (repeats > 20)
      failf("threads or calls drew overlapping sequences (%zu equal pairs)",
            repeats);
    stats(v, t, "draws in threads");
    count("threads", (uint64_t)k);
    distinct(strf("threads %d %d %zu", t, k, n));
    return;
  }
  if (c.idx % 20 == 6 || c.idx % 20 == 7) { // many draws of one small shape
    Shape s = c.idx % 40 < 20 ? Shape{} : gen_shape(r, 5, 2, false);
    size_t per = numel_of(s), n = 3000 / per;
    logf(c, "%zu draws of %s %s", n, kDT[t], shape_str(s).c_str());
    std::vector<double> v;
    std::vector<std::vector<double>> col(per);
    for (size_t i = 0; i < n; ++i) {
      std::vector<double> q;
      exact(Tensor::randn(to_sv(s), t), q);
      v.insert(v.end(), q.begin(), q.end());
      for (size_t k = 0; k < per; ++k)
        col[k].push_back(q.at(k));
    }
    stats(v, t, "draws of one shape");
    for (auto &q : col) // every position by itself
      stats(q, t, "one element of many draws");
    distinct(strf("row %d %s", t, shape_str(s).c_str()));
    return;
  }
  // many small draws, of odd shapes, pooled
  std::vector<double> v;
  std::set<std::string> seen;
  int n = 150;
  logf(c, "%d small draws of %s", n, kDT[t]);
  size_t big = 0;
  for (int i = 0; i < n; ++i) {
    Shape s = gen_shape(r, 48);
    Tensor x;
    if (r.chance(1, 2)) {
      P p = mk_layout(r, t, s, P_SMALL);
      x = Tensor::randn_like(p.t);
      verify(p, "the tensor to be like");
    } else
      x = Tensor::randn(to_sv(s), t);
    if (from_sv(x.size()) != s || x.type() != t || x.requires_grad())
      failf("randn or randn_like does not have the shape or type asked for");
    exact(x, v);
    if (numel_of(s) >= 8) {
      ++big;
      seen.insert(x.to_string());
    }
    distinct(strf("small %d %s", t, shape_str(s).c_str()));
  }
  if (seen.size() != big)
    failf("two draws of eight or more numbers are equal");
  if (v.size() > 1000)
    stats(v, t, "small draws");
}
