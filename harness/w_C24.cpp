// C24: running out of memory is reported and leaves everything usable.
// RULE: one operation (or a backward pass, or the dropping of handles) per
// case, repeated with the first, second, ... allocation failing, alone or with
// all that follow; tensors, results and live memory are checked after each
// failure. Distinct by case text.
#include "prog.hpp"
#include <new>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
const char *const kProperty = "C24";
uint64_t n_cases(bool th) { return th ? 200000 : 12000; }

// Every operator new of the process comes through here.
static bool g_armed, g_all;
static long g_until, g_seen, g_failed;
static bool fails() {
  if (!g_armed)
    return false;
  ++g_seen;
  if (g_until == 0 || g_seen < g_until || (!g_all && g_seen > g_until))
    return false;
  ++g_failed;
  return true;
}
static void *get(size_t n) {
  if (fails())
    throw std::bad_alloc();
  void *p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept {
  return fails() ? nullptr : malloc(n ? n : 1);
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
  return fails() ? nullptr : malloc(n ? n : 1);
}
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }

static size_t live() { return __sanitizer_get_current_allocated_bytes(); }

struct Armed { // failures only happen while one of these lives
  Armed(long k, bool all) {
    g_until = k;
    g_all = all;
    g_seen = g_failed = 0;
    g_armed = true;
  }
  ~Armed() { g_armed = false; }
};
enum End { DONE, NO_MEMORY, REJECTED };
// Runs f with the k-th allocation failing (0: none).
template <typename F> static End attempt(long k, bool all, F &&f) {
  try {
    Armed a(k, all);
    f();
    return DONE;
  } catch (const std::bad_alloc &) {
    if (!k)
      failf("memory ran out without a fault");
    return NO_MEMORY;
  } catch (const std::exception &) {
    return REJECTED;
  }
}
// Which allocations of n to fail: the first ones, the last ones and some.
static std::vector<long> points(Rng &r, long n) {
  std::set<long> s;
  for (long k = 1; k <= n && k <= 25; ++k)
    s.insert(k);
  for (long k = std::max(1l, n - 4); k <= n; ++k)
    s.insert(k);
  for (int i = 0; i < 10 && n > 0; ++i)
    s.insert(1 + (long)r.below((uint64_t)n));
  return std::vector<long>(s.begin(), s.end());
}
static std::string state(const Tensor &t) {
  std::string s = strf("%d %d %d %d ", (int)t.type(), t.requires_grad(),
                       t.retain_grad(), t.is_contiguous());
  s += t.size().to_string() + t.stride().to_string() + t.to_string();
  if (has_grad(t))
    s += " grad " + t.grad().to_string();
  return s;
}
static std::string state(const std::vector<P> &pool) {
  std::string s;
  for (auto &p : pool)
    s += state(p.t) + "\n";
  return s;
}
static const char *const kOp[] = {
    "+",     "-",     "*",        "/",        "<=",         "==",
    "unary -", "abs", "sum",      "mean",     "max",        "min",
    "clone", "contiguous", "type", "reshape", "reshape_as", "transpose",
    "slice", "cat",   "detach",   "to_string", "zeros",     "ones_like",
    "full",  "eye",   "from_blob", "randn_like", "initializer", "scalar",
    "all",   "size and stride", "assignment", "initializer assigned",
    "longer slice", "cat of three", "uninitialized", "invalid slice",
    "invalid shapes",
    "invalid reshape", "invalid backward"};
static const int kOps = sizeof kOp / sizeof *kOp;

// One operation on a and b; what it shows goes to `out` or `text`.
static void op(int k, Tensor &a, Tensor &b, uint64_t arg, Tensor &out,
               std::string &text) {
  static double blob[6] = {1, 2, 3, 4, 5, 6};
  switch (k) {
  case 0: out = a + b; break;
  case 1: out = a - b; break;
  case 2: out = a * b; break;
  case 3: out = a / b; break;
  case 4: out = a <= b; break;
  case 5: out = a == b; break;
  case 6: out = -a; break;
  case 7: out = a.abs(); break;
  case 8: out = a.sum(); break;
  case 9: out = a.mean(); break;
  case 10: out = a.max(); break;
  case 11: out = a.min(); break;
  case 12: out = a.clone(); break;
  case 13: out = a.contiguous(); break;
  case 14: {
    types t = (types)(arg % 6);
    if (a.requires_grad() && !is_f(t))
      t = INNC::f64;
    out = a.type(t);
    break;
  }
  case 15: out = a.reshape(SignedVec{-1}); break;
  case 16: out = b.reshape_as(b); break;
  case 17: out = a.dim() >= 2 ? a.transpose(0, a.dim() - 1) : a.detach(); break;
  case 18: out = a.dim() ? a[arg % 3 ? "::-1" : "-1:"] : +a; break;
  case 19: {
    std::vector<Tensor> v;
    v.push_back(a.reshape(SignedVec{-1}));
    v.push_back(b.reshape(SignedVec{-1}));
    out = Tensor::cat(v, 0);
    break;
  }
  case 20: out = a.detach(); break;
  case 21: text = a.to_string(); break;
  case 22: out = Tensor::zeros(a.size(), a.type()); break;
  case 23: out = Tensor::ones_like(a); break;
  case 24:
    out = arg % 2 ? Tensor::full(a.size(), 2.5, a.type())
                  : Tensor::full(a.size(), std::int64_t(-3), a.type());
    break;
  case 25: out = Tensor::eye(1 + arg % 4, 3, a.type()); break;
  case 26: out = Tensor::from_blob(blob, SizeVec{2, 3}, INNC::f64); break;
  case 27: {
    Tensor t = Tensor::randn(SizeVec{3}, INNC::f32);
    t = Tensor::randn_like(t);
    text = t.size().to_string();
    break;
  }
  case 28:
    out = Tensor(TensorInit{TensorInit{1, 2, 3}, TensorInit{4, 5, 6}});
    break;
  case 29: out = Tensor(2.5) + Tensor((std::int8_t)3); break;
  case 30: text = a.all() ? "true" : "false"; break;
  case 31: text = a.size().to_string() + a.stride().to_string(); break;
  case 32: {
    Tensor t = Tensor::ones(SizeVec{2}, INNC::i8);
    t = a;
    out = t;
    break;
  }
  case 33: out = TensorInit{7, 8, 9}; break;
  case 34: {
    std::string l;
    for (size_t i = 0; i < a.dim(); ++i)
      l += i ? ",   ::  -1" : "     0    :    ";
    out = l.empty() ? a.detach() : a[l];
    break;
  }
  case 35: {
    std::vector<Tensor> v;
    v.push_back(a.reshape(SignedVec{-1, 1}));
    v.push_back(Tensor::eye(2, 1, INNC::i16));
    v.push_back(b.reshape(SignedVec{-1, 1}));
    out = Tensor::cat(v, arg % 2 ? 0 : (a.numel() == 2 && b.numel() == 2));
    break;
  }
  case 36: text = Tensor(a.size(), b.type()).size().to_string(); break;
  case 37: out = a[arg % 2 ? "99999" : "1:x"]; break;
  case 38: {
    Tensor t = Tensor::ones(SizeVec{997}, INNC::i8),
           u = Tensor::ones(SizeVec{991}, INNC::i8);
    if (arg % 2)
      t += u;
    else
      out = t + u;
    break;
  }
  case 39: out = a.reshape(SignedVec{-3, 5}); break;
  default: Tensor::ones(SizeVec{2}, INNC::f64).backward();
  }
}
static void operation(Ctx &c) {
  Rng &r = c.r;
  int k = (int)(c.idx / 4 % kOps);
  Shape s, q;
  gen_bcast_pair(r, s, q, 12);
  if (numel_of(s) == 0 || numel_of(q) == 0)
    s = q = {2, 3};
  std::vector<P> pool;
  pool.reserve(4); // a and b below refer to its elements
  pool.push_back(mk_layout(r, r.dt(), s, P_NONZERO, &c));
  pool.push_back(mk_layout(r, r.dt(), q, P_NONZERO, &c));
  for (auto &p : pool)
    if (is_f(p.m.dt) && r.chance(1, 2)) {
      p.t.requires_grad(true);
      p.t.retain_grad(r.chance(1, 2));
      if (r.chance(1, 2))
        p.t.sum().backward();
    }
  if (k == 3 && !is_f(pool[1].m.dt) && !is_f(pool[0].m.dt))
    k = 2; // quotients of the least number and -1
  uint64_t arg = r.next();
  Tensor &a = pool[0].t, &b = pool[1].t;
  if (r.chance(1, 3) && a.requires_grad() && numel_of(s) > 0) { // a result
    P h;
    h.t = a * b;
    h.m = pool[0].m; // not looked at
    pool.push_back(std::move(h));
    a = pool[2].t;
  }
  logf(c, "%s of %s %s, %s %s", kOp[k], kDT[a.type()],
       a.size().to_string().c_str(), kDT[b.type()],
       b.size().to_string().c_str());
  std::string before = state(pool), want, text;
  long n = 0;
  End normal;
  {
    Tensor out;
    normal = attempt(0, false, [&] { op(k, a, b, arg, out, text); });
    n = g_seen;
    want = strf("%d ", normal) + text + (out.to_string() == "[]" ? "" : state(out));
  }
  if ((normal == REJECTED) != (k >= 37))
    failf("%s is %s", kOp[k], normal == REJECTED ? "rejected" : "accepted");
  Tensor marker = Tensor::full(SizeVec{2}, std::int64_t(5), INNC::i16);
  for (long at : points(r, n)) {
    bool all = r.chance(1, 2);
    Tensor out;
    out = marker;
    std::string got;
    got.reserve(64);
    End e;
    size_t l0 = live();
    e = attempt(at, all, [&] { op(k, a, b, arg, out, got); });
    size_t l1 = live();
    if (g_failed)
      count("failed_allocations", (uint64_t)g_failed);
    if (e == NO_MEMORY) {
      if (l1 > l0)
        failf("%s: %zu bytes are lost when allocation %ld of %ld fails", kOp[k],
              l1 - l0, at, n);
      count("failures_reported");
      if (out.type() != INNC::i16 || out.to_string() != "[5, 5]")
        failf("%s changed the handle that the result was for when allocation "
              "%ld of %ld failed",
              kOp[k], at, n);
    } else if (e == REJECTED && normal != REJECTED)
      failf("%s: something else than std::bad_alloc is thrown when allocation "
            "%ld of %ld fails",
            kOp[k], at, n);
    else if (e == DONE && normal == REJECTED)
      failf("%s is accepted when allocation %ld of %ld fails", kOp[k], at, n);
    else if (e == DONE) { // did without
      std::string g =
          strf("%d ", e) + got +
          (out.type() == INNC::i16 && out.to_string() == "[5, 5]" ? ""
                                                                  : state(out));
      if (g != want)
        failf("%s gives %s when allocation %ld of %ld fails, otherwise %s",
              kOp[k], g.c_str(), at, n, want.c_str());
      count("failures_survived");
    }
    if (state(pool) != before)
      failf("%s changed its operands when allocation %ld of %ld failed", kOp[k],
            at, n);
  }
  // and now it works
  Tensor out;
  text.clear();
  End e = attempt(0, false, [&] { op(k, a, b, arg, out, text); });
  std::string g = strf("%d ", e) + text + (out.to_string() == "[]" ? "" : state(out));
  if (g != want)
    failf("%s gives %s after failures, before them %s", kOp[k], g.c_str(),
          want.c_str());
  if (state(pool) != before)
    failf("%s changed its operands", kOp[k]);
  count(strf("op_%s", kOp[k]));
}
// In-place addition: each element is added to once or not at all.
static void in_place(Ctx &c) {
  Rng &r = c.r;
  types t = r.dt();
  Shape s = gen_shape(r, 20, 3, false);
  P b = mk_layout(r, t, gen_bcast_partner(r, s, true), P_SMALL, &c);
  P base = mk(r, t, s, P_SMALL);
  logf(c, "%s %s += %s", kDT[t], shape_str(s).c_str(),
       shape_str(b.m.sz).c_str());
  std::string sb = state(b.t);
  std::vector<ld> old = vals(base.t), want;
  long n;
  {
    Tensor a = base.t.clone();
    attempt(0, false, [&] { a += b.t; });
    n = g_seen;
    want = vals(a);
  }
  for (long at : points(r, n)) {
    Tensor a = base.t.clone();
    size_t l0 = live();
    End e = attempt(at, r.chance(1, 2), [&] { a += b.t; });
    if (e == REJECTED)
      failf("+= throws something else than std::bad_alloc");
    if (e == NO_MEMORY && live() > l0)
      failf("+= loses memory when an allocation fails");
    auto v = vals(a);
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i] != want[i] && (v[i] != old[i] || e == DONE))
        failf("element %zu is %Lg after += %s, was %Lg, expected %Lg", i, v[i],
              e == DONE ? "succeeded" : "failed", old[i], want[i]);
    if (state(b.t) != sb)
      failf("+= changed its right side");
    if (from_sv(a.size()) != s || a.type() != t)
      failf("+= changed the shape or the type");
    count("failures_reported", e == NO_MEMORY);
  }
}
// A pass that fails: no element and no flag changes, and what is recorded
// afterwards is differentiated as ever.
static void pass(Ctx &c) {
  Rng &r = c.r;
  Shape s = gen_shape(r, 8, 3, false);
  if (s.empty())
    s = {3};
  types t = r.fdt();
  P x = mk(r, t, s, P_NONZERO), y = mk_layout(r, r.fdt(), s, P_NONZERO, &c);
  x.t.requires_grad(true);
  y.t.requires_grad(r.chance(1, 2));
  int kind = (int)r.below(7);
  logf(c, "backward %d over %s %s", kind, kDT[t], shape_str(s).c_str());
  auto build = [&]() -> Tensor {
    Tensor h = x.t * y.t, z;
    switch (kind) {
    case 0: z = h.sum(); break;
    case 1: z = (h / y.t - x.t).mean(); break;
    case 2: z = h.abs().max() + x.t.min(); break;
    case 3: z = h.reshape(SignedVec{-1})["::-1"].sum(); break;
    case 4: z = (h.type(INNC::f64) + x.t).clone().sum(); break;
    case 5: {
      std::vector<Tensor> v;
      v.push_back(alias(h));
      v.push_back(alias(x.t));
      z = Tensor::cat(v, 0).sum();
      break;
    }
    default: z = h.dim() > 1 ? h.transpose(0, 1).sum() : (h - h).sum();
    }
    return z;
  };
  long n;
  std::string want;
  {
    Tensor z = build();
    attempt(0, false, [&] { z.backward(); });
    n = g_seen;
    want = x.t.grad().to_string();
    x.t.zero_grad();
    y.t.zero_grad();
  }
  auto plain = [&](const Tensor &v) {
    return v.to_string() + strf(" %d %d", v.requires_grad(), v.retain_grad());
  };
  std::string px = plain(x.t), py = plain(y.t);
  bool fresh = r.chance(1, 2); // the leaves have no gradient yet
  for (long at : points(r, n)) {
    if (fresh) {
      Tensor u = x.t.detach().clone();
      u.requires_grad(true);
      x.t = u;
    }
    size_t l0 = live();
    bool had = has_grad(x.t);
    End e;
    {
      Tensor z = build();
      std::string pz = plain(z);
      e = attempt(at, r.chance(1, 2), [&] { z.backward(); });
      if (e == REJECTED)
        failf("backward() throws something else than std::bad_alloc");
      if (plain(z) != pz || plain(x.t) != px || plain(y.t) != py)
        failf("a failed backward() changed an element or a flag");
      for (const Tensor *v : {&x.t, &y.t, &z}) // incomplete, but readable
        if (has_grad(*v) && (v->grad().to_string().empty() ||
                             from_sv(v->grad().size()) != from_sv(v->size())))
          failf("a failed backward() leaves a gradient of another shape");
      if (e == DONE && x.t.grad().to_string() != want)
        failf("backward() got by without an allocation, but the gradient is "
              "%s, expected %s",
              x.t.grad().to_string().c_str(), want.c_str());
    }
    size_t l1 = live();
    if (had && l1 > l0)
      failf("%zu bytes are lost when allocation %ld of %ld of backward() "
            "fails",
            l1 - l0, at, n);
    count("failures_reported", e == NO_MEMORY);
    x.t.zero_grad();
    y.t.zero_grad();
    Tensor z = build();
    z.backward();
    if (x.t.grad().to_string() != want)
      failf("after a failed backward(), zero_grad() and another one the "
            "gradient is %s, expected %s",
            x.t.grad().to_string().c_str(), want.c_str());
    x.t.zero_grad();
    y.t.zero_grad();
    count("passes");
  }
}
// Handles are dropped, and flags and gradients looked at, without memory.
static void drop(Ctx &c) {
  Rng &r = c.r;
  int n = 1 + (int)r.below(r.chance(1, 6) ? 3000 : 40);
  logf(c, "%d operations are recorded and dropped", n);
  size_t l0 = live();
  {
    std::vector<Tensor> v;
    v.reserve((size_t)n + 8);
    v.push_back(Tensor::ones(SizeVec{2, 2}, r.fdt()));
    v[0].requires_grad(true);
    for (int i = 0; i < n; ++i) {
      Tensor &a = v[r.chance(1, 2) ? v.size() - 1 : r.below(v.size())];
      switch (r.below(6)) {
      case 0: v.push_back(a + v.back()); break;
      case 1: v.push_back(a.transpose(0, 1)); break;
      case 2: v.push_back(a["::-1"]); break;
      case 3: v.push_back(a.reshape(SignedVec{2, -1})); break;
      case 4: v.push_back(a.clone()); break;
      default: v.push_back(a.abs());
      }
    }
    bool diff = r.chance(1, 2);
    Tensor s = v.back().sum();
    if (diff)
      s.backward();
    bool order = r.chance(1, 2);
    Armed a(1, true); // nothing can be allocated
    if (v[0].numel() != 4 || v[0].dim() != 2 || !v[0].is_contiguous() ||
        !v[0].requires_grad() || v[0].retain_grad()) {
      g_armed = false;
      failf("numel(), dim() or a flag is wrong when memory is exhausted");
    }
    v[0].retain_grad(true);
    v[0].requires_grad(true);
    v.back().requires_grad(false);
    v.back().retain_grad(false);
    if (order)
      while (!v.empty())
        v.pop_back();
    else {
      v[0] = std::move(s);
      for (auto &t : v)
        t.release(); // views of released memory are not read any more
      v.clear();
    }
    s = Tensor();
  }
  if (live() > l0)
    failf("%zu bytes are lost when handles are dropped", live() - l0);
  count("operations_dropped", (uint64_t)n);
}
void run_case(Ctx &c) {
  switch (c.idx % 4) {
  case 3:
    if (c.idx % 12 == 3)
      in_place(c);
    else if (c.idx % 12 == 7)
      pass(c);
    else
      drop(c);
    break;
  default:
    operation(c);
  }
  distinct(c.log);
}
