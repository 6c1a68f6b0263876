// C03: invalid requests are rejected and change nothing.
// RULE: one invalid request per case (30 kinds, enumerated by index) on drawn
// shapes, types and layouts; judged: an exception, and snapshots of all
// operands before and after. Distinct by kind, types and arguments.
#include "prog.hpp"
const char *const kProperty = "C03";
uint64_t n_cases(bool th) { return th ? 1500000 : 96000; }

struct Snap {
  std::string v, g;
  Shape s;
  types t;
  bool rq, rt;
  explicit Snap(const Tensor &x)
      : v(x.to_string()), g(x.grad().to_string()), s(from_sv(x.size())),
        t(x.type()), rq(x.requires_grad()), rt(x.retain_grad()) {}
  void check(const Tensor &x, const char *what) const {
    Snap n(x);
    if (n.v != v || n.s != s || n.t != t)
      failf("%s was changed by the rejected request", what);
    if (n.g != g)
      failf("the gradient of %s was changed by the rejected request", what);
    if (n.rq != rq || n.rt != rt)
      failf("a flag of %s was changed by the rejected request", what);
  }
};
static Prof somep(Rng &r) { return r.chance(1, 2) ? P_SMALL : P_NONZERO; }
static P any(Ctx &c, types t, const Shape &s) {
  P p = mk_layout(c.r, t, s, somep(c.r), &c);
  return p;
}
static void still_works(const Tensor &x, const MT &m) {
  if (!m.n())
    return;
  Tensor d = x.detach();
  verify(d.clone(), m_clone(m_detach(m)), "clone after a rejected request");
}
enum { KINDS = 30 };
void run_case(Ctx &c) {
  Rng &r = c.r;
  int kind = (int)(c.idx % KINDS);
  types ta = r.dt(), tb = r.dt();
  count(strf("kind_%02d", kind));
  auto done = [&](const std::string &d) {
    distinct(strf("%d %d %d ", kind, ta, tb) + d);
  };
  switch (kind) {
  case 0:
  case 1:
  case 2: { // shapes that do not broadcast
    Shape a, b;
    gen_nobcast_pair(r, a, b);
    if (kind == 2 && r.chance(1, 2)) {
      // broadcastable, but not into the left side
      Shape o;
      do
        gen_bcast_pair(r, a, b, 40);
      while (!bcast(a, b, o) || o == a);
    }
    P x = any(c, ta, a), y = any(c, tb, b);
    if (kind != 2 && is_f(ta) && r.chance(1, 3))
      set_req(x);
    Snap sx(x.t), sy(y.t);
    std::string d = shape_str(a) + " " + shape_str(b);
    if (kind == 0) {
      Bin op = (Bin)r.below(4);
      logf(c, "%s %s %s %s %s", kDT[ta], shape_str(a).c_str(), kBin[op],
           kDT[tb], shape_str(b).c_str());
      must_throw([&] { real_bin(op, x.t, y.t); },
                 strf("arithmetic on shapes %s", d.c_str()));
    } else if (kind == 1) {
      Cmp op = (Cmp)r.below(6);
      logf(c, "%s %s %s %s %s", kDT[ta], shape_str(a).c_str(), kCmp[op],
           kDT[tb], shape_str(b).c_str());
      must_throw([&] { real_cmp(op, x.t, y.t); },
                 strf("comparison of shapes %s", d.c_str()));
    } else {
      logf(c, "%s %s += %s %s", kDT[ta], shape_str(a).c_str(), kDT[tb],
           shape_str(b).c_str());
      must_throw([&] { x.t += y.t; }, strf("+= on shapes %s", d.c_str()));
    }
    sx.check(x.t, "the left operand");
    sy.check(y.t, "the right operand");
    still_works(x.t, x.m);
    return done(d);
  }
  case 3: { // in place on a tensor that requires grad
    Shape a = gen_shape(r), b = gen_bcast_partner(r, a, true);
    ta = r.fdt();
    P x = any(c, ta, a), y = any(c, tb, b);
    set_req(x);
    bool viewed = r.chance(1, 3) && a.size() >= 2;
    Tensor v;
    if (viewed)
      v = x.t.transpose(0, 1);
    else
      v = x.t;
    if (viewed)
      std::swap(a[0], a[1]), b = a, y = any(c, tb, b);
    Snap sx(x.t), sy(y.t);
    logf(c, "requiring %s %s += %s %s", kDT[ta], shape_str(a).c_str(), kDT[tb],
         shape_str(b).c_str());
    must_throw([&] { v += y.t; },
               "in-place add to a tensor that requires grad");
    sx.check(x.t, "the tensor");
    sy.check(y.t, "the operand");
    return done(shape_str(a));
  }
  case 4:
  case 5:
  case 6:
  case 7:
  case 8: { // impossible reshapes
    Shape a = gen_shape(r);
    P x = any(c, ta, a);
    if (is_f(ta) && r.chance(1, 3))
      set_req(x);
    size_t n = x.m.n();
    Shape g = gen_reshape(r, n);
    std::vector<long long> v(g.begin(), g.end());
    if (kind == 4 || kind == 8) { // other number of elements
      if (v.empty() || r.chance(1, 3))
        v.push_back(2);
      else
        v[r.below(v.size())] += 1;
      size_t q = 1;
      for (auto e : v)
        q *= (size_t)e;
      if (q == n)
        v.insert(v.begin(), n ? 3 : 5);
      q = 1;
      for (auto e : v)
        q *= (size_t)e;
      if (q == n) { // zero elements: give a shape that has some
        v.assign(1, 5);
      }
    } else if (kind == 5) { // more than one -1
      while (v.size() < 2)
        v.push_back(1);
      size_t i = r.below(v.size()), j = r.below(v.size() - 1);
      if (j >= i)
        ++j;
      v[i] = v[j] = -1;
    } else if (kind == 6) { // negative
      if (v.empty())
        v.push_back(1);
      size_t i = r.below(v.size());
      v[i] = v[i] > 1 && r.chance(1, 2) ? -v[i] : -r.range(2, 9);
      if (v.size() > 1 && r.chance(1, 3)) {
        size_t j = r.below(v.size());
        if (j != i)
          v[j] = -v[j] - 2;
      }
    } else { // -1 that cannot be determined
      v.clear();
      if (r.chance(1, 4)) {
        v = {0, -1};
        if (n == 0 && r.chance(1, 2))
          v = {-1, 0, 3};
      } else {
        long long k = 2;
        while (n && n % k == 0)
          ++k;
        if (n == 0) {
          v = {0, -1};
        } else
          v = r.chance(1, 2) ? std::vector<long long>{k, -1}
                             : std::vector<long long>{-1, k};
      }
    }
    Snap sx(x.t);
    logf(c, "reshape %s %s to %s", kDT[ta], shape_str(a).c_str(),
         vec_str(v).c_str());
    bool neg = false;
    for (auto e : v)
      neg |= e < 0;
    if (kind == 8 && !neg) {
      Shape s(v.begin(), v.end());
      if (numel_of(s) > 4000)
        throw Discard{};
      Tensor o = Tensor::zeros(to_sv(s), tb);
      must_throw([&] { x.t.reshape_as(o); },
                 strf("reshape_as from %s to %s", shape_str(a).c_str(),
                      vec_str(v).c_str()));
    } else
      must_throw(
          [&] {
            if (r.chance(1, 2))
              x.t.reshape(to_dv(v));
            else
              Tensor::reshape(x.t, to_dv(v));
          },
          strf("reshape from %s to %s", shape_str(a).c_str(),
               vec_str(v).c_str()));
    sx.check(x.t, "the tensor");
    still_works(x.t, x.m);
    return done(shape_str(a) + vec_str(v));
  }
  case 9:
  case 10: { // transposition of dimensions that do not exist
    Shape a = gen_shape(r);
    P x = any(c, ta, a);
    size_t n = a.size(), d0 = r.below(n + 1), d1 = n + r.below(4);
    if (kind == 10 && n) {
      d0 = d1 = r.below(n);
    } else {
      if (r.chance(1, 8))
        d1 = SIZE_MAX - r.below(3);
      if (r.chance(1, 2))
        std::swap(d0, d1);
    }
    Snap sx(x.t);
    logf(c, "transpose %s by %zu, %zu", shape_str(a).c_str(), d0, d1);
    must_throw(
        [&] {
          if (r.chance(1, 2))
            x.t.transpose(d0, d1);
          else
            Tensor::transpose(x.t, d0, d1);
        },
        strf("transpose(%zu, %zu) of %s", d0, d1, shape_str(a).c_str()));
    sx.check(x.t, "the tensor");
    return done(shape_str(a) + strf(" %zu %zu", d0, d1));
  }
  case 11:
  case 12:
  case 13: { // cat
    Shape a = gen_shape(r);
    if (a.empty() && kind != 13)
      a.push_back(2);
    std::vector<Shape> ss(1 + r.below(4), a);
    size_t dim = a.empty() ? 0 : r.below(a.size());
    if (!a.empty())
      for (auto &s : ss)
        s[dim] = r.below(4);
    if (kind == 11) { // another size in another dimension, or rank
      Shape bad = ss[0];
      if (a.size() >= 2 && r.chance(2, 3)) {
        size_t d = r.below(a.size() - 1);
        if (d >= dim)
          ++d;
        bad[d] += r.chance(1, 2) || bad[d] == 0 ? 1 : -1;
      } else if (r.chance(1, 2))
        bad.push_back(1 + r.below(2));
      else
        bad.insert(bad.begin(), 1 + r.below(2));
      ss.insert(ss.begin() + r.below(ss.size() + 1), bad);
      if (r.chance(1, 6) && a.size() == 1) {
        ss.back() = Shape{};
      }
    } else if (kind == 12) // dimension out of range
      dim = a.size() + (r.chance(1, 8) ? (size_t)1 << 62 : r.below(3));
    else { // scalars
      for (auto &s : ss)
        s.clear();
      dim = r.below(2);
    }
    if (kind == 13 && r.chance(1, 4))
      ss.clear();
    std::string d;
    std::vector<P> ps;
    std::vector<Tensor> ts;
    std::vector<Snap> sn;
    for (auto &s : ss) {
      if (numel_of(s) > 2000)
        throw Discard{};
      ps.push_back(any(c, r.dt(), s));
      ts.push_back(alias(ps.back().t));
      sn.emplace_back(ps.back().t);
      d += shape_str(s);
    }
    logf(c, "cat %s along %zu", d.c_str(), dim);
    must_throw([&] { Tensor::cat(ts, dim); },
               strf("cat of %s along %zu", d.c_str(), dim));
    for (size_t i = 0; i < ps.size(); ++i)
      sn[i].check(ps[i].t, "an operand");
    return done(d);
  }
  case 14:
  case 15:
  case 16:
  case 17:
  case 18: { // slices
    bool empties = kind >= 16 && r.chance(1, 4);
    Shape a = gen_shape(r, 64, 5, empties);
    if (a.empty())
      a.push_back(3);
    if (empties)
      a[r.below(a.size())] = 0;
    P x = any(c, ta, a);
    if (is_f(ta) && r.chance(1, 3))
      set_req(x);
    auto sl = gen_slice(r, a);
    sl.resize(a.size());
    size_t k = r.below(a.size());
    long long n = (long long)a[k];
    std::string s;
    if (kind == 14) { // more dimensions than there are
      for (size_t i = 0, q = 1 + r.below(2); i < q; ++i) {
        Sl e;
        e.index = r.chance(1, 2);
        sl.push_back(e);
      }
      s = sl_str(r, sl);
    } else if (kind == 15) { // index out of range
      Sl e;
      e.index = true;
      e.i = r.chance(1, 2) ? n + r.range(0, 3) : -n - r.range(1, 3);
      if (r.chance(1, 6))
        e.i = r.chance(1, 2) ? INT64_MAX : INT64_MIN;
      sl[k] = e;
      s = sl_str(r, sl);
    } else {
      // tokens by hand
      for (size_t i = 0; i < sl.size(); ++i) {
        if (i)
          s += ",";
        std::string tok = sl_str(r, {sl[i]});
        if (i == k) {
          static const std::vector<const char *> zero = {
              "::0",  ":2:0", "0:1:0", "1::-0",  " : : 0 ",
              "::+0", "::00", "99::0", ":-99:0", "5:1:0"};
          // none of these is an integer
          static const std::vector<const char *> word = {
              "a",   "--1", "+",   "-",     "e5",  ".",   "[0]", ".5",
              "$",   "one", "*",   "0a",    "1a",  "0.5", "1.0", "0 0",
              "1 2", "0x1", "0-",  "0)",    "1e0", "0_",  "1;",  "0\t1",
              "1L",  "0f",  "'0'", "\"0\"", "!0",  "0+",  "0:-:"};
          const char *w = word[r.below(word.size())];
          static const std::vector<const char *> around = {
              "%s",   "%s",     "%s",     "%s:",    ":%s",
              "::%s", "9:%s",   "9::%s",  "0:%s:1", ":-9:%s",
              "%s:0", "0:0:%s", "%s::-1", " %s ",   ": %s"};
          static const std::vector<const char *> big = {"99999999999999999999",
                                                        "-99999999999999999999",
                                                        "9223372036854775808",
                                                        "-9223372036854775809",
                                                        "18446744073709551616",
                                                        "0:1:1:1",
                                                        ":::",
                                                        "::::",
                                                        "0:1:1:",
                                                        "9:0:1:0"};
          std::string f = around[r.below(around.size())];
          tok = kind == 16   ? zero[r.below(zero.size())]
                : kind == 17 ? f.replace(f.find("%s"), 2, w)
                             : big[r.below(big.size())];
        } else if (tok.empty() || tok == "::")
          tok = ":";
        s += tok;
      }
    }
    Snap sx(x.t);
    logf(c, "%s %s[\"%s\"]", kDT[ta], shape_str(a).c_str(), s.c_str());
    must_throw([&] { x.t[s]; },
               strf("slice \"%s\" of %s", s.c_str(), shape_str(a).c_str()));
    sx.check(x.t, "the tensor");
    still_works(x.t, x.m);
    return done(shape_str(a) + s);
  }
  case 19: { // integers do not require grad
    ta = r.idt();
    Shape a = gen_shape(r);
    P x = any(c, ta, a);
    Snap sx(x.t);
    logf(c, "requires_grad(true) on %s %s", kDT[ta], shape_str(a).c_str());
    must_throw([&] { x.t.requires_grad(true); },
               "requires_grad(true) on an integer tensor");
    sx.check(x.t, "the tensor");
    return done(shape_str(a));
  }
  case 20:
  case 21:
  case 22: { // backward
    ta = r.fdt();
    Shape a = gen_shape(r, 64, 4, false);
    P x = any(c, ta, a);
    Tensor y;
    if (kind == 20) { // not a scalar
      if (numel_of(a) == 1)
        x = any(c, ta, a = Shape{2, 1 + (size_t)r.below(3)});
      set_req(x);
      Tensor z = x.t.sum(), k = x.t * z;
      if (r.chance(1, 2)) // there is a gradient already
        z.backward();
      y = std::move(k);
    } else if (kind == 21) { // does not require grad
      Tensor z = r.chance(1, 2) ? x.t.sum() : x.t.max();
      if (r.chance(1, 2)) {
        set_req(x);
        z = x.t.sum().detach();
      }
      y = std::move(z);
    } else { // a leaf
      x = any(c, ta, r.chance(1, 2) ? Shape{} : Shape{1});
      set_req(x);
      y = x.t;
    }
    Snap sx(x.t), sy(y);
    logf(c, "backward kind %d on %s %s", kind, kDT[ta], shape_str(a).c_str());
    must_throw([&] { y.backward(); },
               kind == 20 ? "backward from a tensor that is not a scalar"
               : kind == 21
                   ? "backward from a tensor that does not require grad"
                   : "backward from a leaf");
    sx.check(x.t, "the leaf");
    sy.check(y, "the root");
    return done(shape_str(a));
  }
  case 23: { // integer conversion of a tracked tensor
    ta = r.fdt();
    tb = r.idt();
    Shape a = gen_shape(r);
    P x = any(c, ta, a);
    set_req(x);
    Tensor y;
    y = x.t;
    if (r.chance(1, 2) && x.m.n())
      y = x.t * x.t;
    Snap sx(x.t);
    logf(c, "requiring %s %s to %s", kDT[ta], shape_str(a).c_str(), kDT[tb]);
    must_throw([&] { y.type(tb); },
               "conversion to integers of a tensor that requires grad");
    sx.check(x.t, "the tensor");
    return done(shape_str(a));
  }
  case 24: { // integer random numbers
    ta = r.idt();
    Shape a = gen_shape(r);
    logf(c, "randn %s %s", kDT[ta], shape_str(a).c_str());
    if (r.chance(1, 2))
      must_throw([&] { Tensor::randn(to_sv(a), ta); }, "randn of integers");
    else {
      P x = any(c, ta, a);
      Snap sx(x.t);
      must_throw([&] { Tensor::randn_like(x.t); }, "randn_like of integers");
      sx.check(x.t, "the tensor");
    }
    return done(shape_str(a));
  }
  case 25:
  case 26: { // integer division by zero
    ta = r.idt(), tb = r.idt();
    Shape a, b, o;
    do
      gen_bcast_pair(r, a, b, 48);
    while (!bcast(a, b, o) || numel_of(o) == 0);
    P x = any(c, ta, a);
    auto v = gen_vals(r, tb, numel_of(b), P_NONZERO);
    v[r.below(v.size())] = 0;
    P y = mk(tb, b, v);
    Snap sx(x.t), sy(y.t);
    logf(c, "%s %s / %s %s with a zero", kDT[ta], shape_str(a).c_str(), kDT[tb],
         shape_str(b).c_str());
    must_throw([&] { x.t / y.t; }, "integer division by zero");
    sx.check(x.t, "the dividend");
    sy.check(y.t, "the divisor");
    return done(shape_str(a) + shape_str(b));
  }
  case 27: { // more elements or bytes than there are addresses
    Shape a;
    unsigned bits = 64; // the product of the sizes in bytes is 2^bits or more
    static const unsigned esz[] = {0, 1, 2, 3, 2, 3};
    bits += (unsigned)r.below(3) * 8 - esz[ta];
    for (unsigned left = bits; left;) {
      unsigned k = std::min<unsigned>(left, 1 + (unsigned)r.below(62));
      a.insert(a.begin() + r.below(a.size() + 1), (size_t)1 << k);
      left -= k;
    }
    if (r.chance(1, 2))
      a.insert(a.begin() + r.below(a.size() + 1), r.range(1, 7));
    int k = (int)r.below(7);
    if (a.size() == 2 && r.chance(1, 2))
      k = 7;
    if (k == 6)
      ta = r.fdt();
    logf(c, "constructor %d of %s %s", k, kDT[ta], shape_str(a).c_str());
    uint8_t blob[8] = {};
    SizeVec sv = to_sv(a);
    must_throw(
        [&] {
          Tensor x = k == 0   ? Tensor::zeros(sv, ta)
                     : k == 1 ? Tensor::ones(sv, ta)
                     : k == 2 ? Tensor::full(sv, (std::int64_t)1, ta)
                     : k == 3 ? Tensor::full(sv, 1.0, ta)
                     : k == 4 ? Tensor::from_blob(blob, sv, ta)
                     : k == 5 ? Tensor(sv, ta)
                     : k == 6 ? Tensor::randn(sv, ta)
                              : Tensor::eye(a[0], a[1], ta);
        },
        "sizes beyond all memory");
    return done(shape_str(a));
  }
  case 28: { // reshape to sizes whose product is right modulo 2^64 only
    long long n = 4 * r.range(0, 6);
    Shape a{(size_t)n};
    if (n && r.chance(1, 2))
      a = Shape{(size_t)(n / 4), 4};
    std::vector<long long> v;
    if (n == 0) {
      long long k = r.range(2, 62);
      v = {1ll << k, 1ll << (64 - k)};
      if (r.chance(1, 2))
        v.push_back(r.range(1, 5));
    } else {
      v = {n, (1ll << 62) + 1};
      if (r.chance(1, 2))
        v = {2, n / 2, (1ll << 62) + 1};
      else if (r.chance(1, 2))
        v = {4, (1ll << 62) + 1, -1};
    }
    for (size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[r.below(i)]);
    P x = any(c, ta, a);
    Snap sx(x.t);
    std::string str;
    for (auto e : v)
      str += strf("%lld ", e);
    logf(c, "reshape of %s %s to %s", kDT[ta], shape_str(a).c_str(),
         str.c_str());
    must_throw([&] { x.t.reshape(to_dv(v)); },
               strf("reshape of %s to %s", shape_str(a).c_str(), str.c_str()));
    sx.check(x.t, "the tensor");
    return done(shape_str(a) + str);
  }
  default: { // initializers
    int k = (int)r.below(7);
    logf(c, "initializer %d", k);
    std::int32_t a = (std::int32_t)r.range(-9, 9);
    auto f = [&] {
      switch (k) {
      case 0:
        Tensor(TensorInit{TensorInit{a, 1}, TensorInit{a, 2, 3}});
        break;
      case 1:
        Tensor(TensorInit{TensorInit{TensorInit{a, 1}, TensorInit{a, 2}},
                          TensorInit{TensorInit{a, 1}}});
        break;
      case 2:
        Tensor(TensorInit{TensorInit{a, 1}, TensorInit{1.5, 2.5}});
        break;
      case 3:
        Tensor(TensorInit{TensorInit{TensorInit{a}, TensorInit{a}},
                          TensorInit{a, a}});
        break;
      case 4:
        Tensor(TensorInit{TensorInit{a, 1, 2}, TensorInit{a, 2, 3},
                          TensorInit{a, 2}});
        break;
      case 6:
        Tensor(TensorInit{TensorInit(std::initializer_list<TensorInit>{}),
                          TensorInit(std::initializer_list<TensorInit>{})});
        break;
      default:
        Tensor(TensorInit{TensorInit{1.f, 2.f}, TensorInit{1.0, 2.0}});
      }
    };
    must_throw(f, strf("ragged or mixed initializer %d", k));
    distinct(strf("init %d %d", k, a));
    return;
  }
  }
}
