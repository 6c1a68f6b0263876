// C15: a program's results depend on the program only: not on what memory
// held before, and not on what ran before in the process.
// RULE: one random program per case, run four times under different heap fill
// patterns and after other programs; the full traces must be equal. Distinct
// by trace. Eight cases repeat one small program tens of thousands of times.
// A second build runs programs once each under valgrind's memcheck, which
// reports every decision and every shown value that depends on memory (heap or
// stack) that was never written.
#include "freeprog.hpp"
#include <new>
const char *const kProperty = "C15";
#ifdef MEMCHECK
uint64_t n_cases(bool th) { return th ? 20000 : 800; }
#else
uint64_t n_cases(bool th) { return th ? 80000 : 4800; }
#endif

// Every allocation is filled with a pattern that changes from run to run.
static int g_fill = -1;
static uint64_t g_filled;
static void *fill(void *p, size_t n) {
  if (g_fill >= 0 && p) {
    if (g_fill == 256) { // something that looks like small numbers
      auto q = (unsigned char *)p;
      for (size_t i = 0; i < n; ++i)
        q[i] = (unsigned char)(i % 8 == 0 ? 3 : 0);
    } else
      memset(p, g_fill, n);
    ++g_filled;
  }
  return p;
}
static void *get(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return fill(p, n);
}
#ifndef MEMCHECK
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif

// One small program tens of thousands of times: every repetition shows the
// same, and so does a graph that was recorded before the first of them.
static void again_and_again(Ctx &c) {
  Rng &r = c.r;
  int n = c.thorough ? 150000 : 35000, k = (int)(c.idx % 4);
  types t = r.fdt();
  Tensor a = Tensor::full(SizeVec{2}, 1.5, t), b = Tensor::full(SizeVec{2}, 2.0, t);
  a.requires_grad(true);
  Tensor x = a * b, early = (x + x).sum(), y;
  logf(c, "small program %d, %d times", k, n);
  std::string first;
  for (int i = 0; i < n; ++i) {
    a.zero_grad();
    switch (k) {
    case 0: {
      y = a * b;
      y = (y + a).sum();
      break;
    }
    case 1:
      y = a["0"] + a["1"] * b["1"];
      break;
    case 2: {
      std::vector<Tensor> v;
      v.push_back(a * a);
      v.push_back(a - b);
      y = Tensor::cat(v, 0).mean();
      break;
    }
    default:
      if (i % 128 == 0) // unwinding is slow under the sanitizers
      try {
        y = a + Tensor::ones(SizeVec{3}, INNC::i8);
        failf("accepted");
      } catch (const Violation &) {
        throw;
      } catch (const std::exception &) {
      }
      y = (a.clone() / b).reshape(SignedVec{2, 1}).max();
    }
    y.backward();
    if (i % 1000 && i % 1024 > 2)
      continue; // looked at often enough
    std::string s = y.to_string() + a.grad().to_string();
    if (first.empty())
      first = s;
    if (s != first)
      failf("repetition %d shows %s, the first one %s", i, s.c_str(),
            first.c_str());
    count("repetitions_compared");
  }
  count("repetitions", (uint64_t)n);
  a.zero_grad();
  early.backward();
  if (a.grad().to_string() != "[4.000000, 4.000000]")
    failf("a graph recorded before %d other passes gives the gradient %s", n,
          a.grad().to_string().c_str());
  distinct(c.log);
}
void run_case(Ctx &c) {
  // under memcheck: the program once, in memory that nobody has written to
#ifdef MEMCHECK
  const bool memcheck = true;
#else
  const bool memcheck = false;
#endif
  if (c.idx < 8 && !memcheck)
    return again_and_again(c);
  FreeOpt o;
  o.steps = 15 + (int)c.r.below(35);
  o.hostile = c.r.chance(1, 3);
  if (c.r.chance(1, 10))
    o.maxnumel = 2000;
  uint64_t seed = c.r.next();
  logf(c, "program of %d steps%s (seed %" PRIu64 ")", o.steps,
       o.hostile ? ", with invalid requests" : "", seed);
  if (memcheck) {
    FreeStat st;
    Rng r(seed);
    std::string tr = run_free(r, o, st);
    count("memcheck_programs");
    count("memcheck_calls", st.calls);
    count("memcheck_bytes_of_results", tr.size());
    logf(c, "  %.600s", tr.c_str());
    distinct(tr.size() > 4000 ? tr.substr(0, 4000) : tr);
    return;
  }
  static const int fills[] = {0, 0xff, 0x5a, 256};
  std::string first;
  for (int k = 0; k < 4; ++k) {
    if (k == 2) { // some other program in between
      Rng q(mix(seed, 99));
      FreeOpt p = o;
      FreeStat st;
      run_free(q, p, st);
    }
    FreeStat st;
    Rng r(seed);
    g_fill = fills[k];
    std::string tr;
    try {
      tr = run_free(r, o, st);
    } catch (...) {
      g_fill = -1;
      throw;
    }
    g_fill = -1;
    count("runs");
    count("calls", st.calls);
    count("backward_calls", st.backwards);
    if (k == 0) {
      first = tr;
      continue;
    }
    if (tr != first) {
      size_t i = 0;
      while (i < tr.size() && i < first.size() && tr[i] == first[i])
        ++i;
      size_t b = i > 120 ? i - 120 : 0;
      failf("the results differ when memory held something else before:\n"
            "  memory 0x00: ...%.240s\n  memory 0x%x: ...%.240s",
            first.substr(b).c_str(), fills[k], tr.substr(b).c_str());
    }
    count("bytes_of_results_compared", tr.size());
  }
  trace(first);
  count("allocations_filled", g_filled);
  g_filled = 0;
  logf(c, "  %.600s", first.c_str());
  distinct(first.size() > 4000 ? first.substr(0, 4000) : first);
}
