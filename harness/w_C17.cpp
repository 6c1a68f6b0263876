// C17: tensors are constructed with the elements that were asked for.
// RULE: one construction per case: factory and type enumerated by index, shape
// and values drawn. Non-trivial: has elements; distinct by factory, type,
// shape.
#include "prog.hpp"
const char *const kProperty = "C17";
uint64_t n_cases(bool th) { return th ? 900000 : 72000; }

static void check_new(const Tensor &t, const MT &m, const char *what) {
  verify(t, m, what);
  if (has_grad(t) && !(m.sz.size() && m.sz[0] == 0))
    failf("%s: a new tensor has a gradient", what);
  if (t.retain_grad())
    failf("%s: a new tensor retains its gradient", what);
  if (!t.is_contiguous())
    failf("%s: a new tensor is not contiguous", what);
}
template <typename T> static void init_case(Ctx &c, types t) {
  Rng &r = c.r;
  auto raw = gen_vals(r, t, 40,
                      r.chance(1, 3)   ? P_FULL
                      : r.chance(1, 2) ? P_WIDE
                                       : P_SMALL);
  std::vector<T> v;
  for (auto x : raw)
    v.push_back((T)x);
  auto m = [&](Shape s) {
    return m_fresh(t, s,
                   std::vector<ld>(raw.begin(), raw.begin() + numel_of(s)));
  };
  int k = (int)r.below(11);
  logf(c, "initializer form %d of %s", k, kDT[t]);
  switch (k) {
  case 0:
    check_new(Tensor(TensorInit{v[0]}), m({1}), "{x}");
    break;
  case 1:
    check_new(Tensor(TensorInit{v[0], v[1], v[2], v[3], v[4]}), m({5}),
              "1-D initializer");
    break;
  case 2:
    check_new(Tensor(TensorInit{TensorInit{v[0], v[1], v[2]},
                                TensorInit{v[3], v[4], v[5]}}),
              m({2, 3}), "2-D initializer");
    break;
  case 3:
    check_new(Tensor(TensorInit{TensorInit{v[0]}, TensorInit{v[1]},
                                TensorInit{v[2]}, TensorInit{v[3]}}),
              m({4, 1}), "2-D initializer");
    break;
  case 4:
    check_new(
        Tensor(TensorInit{
            TensorInit{TensorInit{v[0], v[1]}, TensorInit{v[2], v[3]}},
            TensorInit{TensorInit{v[4], v[5]}, TensorInit{v[6], v[7]}},
            TensorInit{TensorInit{v[8], v[9]}, TensorInit{v[10], v[11]}}}),
        m({3, 2, 2}), "3-D initializer");
    break;
  case 5: {
    Tensor x;
    x = TensorInit{TensorInit{v[0], v[1]}, TensorInit{v[2], v[3]}};
    check_new(x, m({2, 2}), "assigned initializer");
    x = TensorInit{v[0], v[1], v[2]};
    check_new(x, m({3}), "reassigned initializer");
    // into a handle that showed a parameter, which stays as it was
    P w = mk(r, INNC::f64, {2, 2}, P_DYADIC);
    w.t.requires_grad(true);
    w.t.retain_grad(true);
    w.t.sum().backward();
    std::string before = w.t.to_string();
    x = w.t;
    x = TensorInit{v[3], v[4], v[5], v[6]};
    std::vector<ld> want(raw.begin() + 3, raw.begin() + 7);
    check_new(x, m_fresh(t, {4}, want), "initializer for a parameter's handle");
    if (w.t.to_string() != before || !w.t.requires_grad() || !has_grad(w.t))
      failf("assigning to a handle changed the tensor it showed before");
    break;
  }
  case 8:
    check_new(Tensor(TensorInit{v[0],  v[1],  v[2],  v[3],  v[4],  v[5],  v[6],
                                v[7],  v[8],  v[9],  v[10], v[11], v[12], v[13],
                                v[14], v[15], v[16], v[17], v[18], v[19], v[20],
                                v[21], v[22], v[23], v[24], v[25], v[26], v[27],
                                v[28], v[29], v[30], v[31], v[32]}),
              m({33}), "long initializer");
    break;
  case 9: {
    using I = TensorInit;
    check_new(Tensor(I{I{I{I{I{v[0], v[1]}, I{v[2], v[3]}},
                           I{I{v[4], v[5]}, I{v[6], v[7]}}},
                         I{I{I{v[8], v[9]}, I{v[10], v[11]}},
                           I{I{v[12], v[13]}, I{v[14], v[15]}}}},
                       I{I{I{I{v[16], v[17]}, I{v[18], v[19]}},
                           I{I{v[20], v[21]}, I{v[22], v[23]}}},
                         I{I{I{v[24], v[25]}, I{v[26], v[27]}},
                           I{I{v[28], v[29]}, I{v[30], v[31]}}}}}),
              m({2, 2, 2, 2, 2}), "5-D initializer");
    break;
  }
  case 10: {
    using I = TensorInit;
    check_new(Tensor(I{I{v[0], v[1]}, I{v[2], v[3]}, I{v[4], v[5]},
                       I{v[6], v[7]}, I{v[8], v[9]}, I{v[10], v[11]},
                       I{v[12], v[13]}, I{v[14], v[15]}, I{v[16], v[17]}}),
              m({9, 2}), "tall initializer");
    break;
  }
  case 6:
    check_new(
        Tensor(TensorInit{
            TensorInit{
                TensorInit{TensorInit{v[0], v[1]}, TensorInit{v[2], v[3]}},
                TensorInit{TensorInit{v[4], v[5]}, TensorInit{v[6], v[7]}}},
            TensorInit{
                TensorInit{TensorInit{v[8], v[9]}, TensorInit{v[10], v[11]}},
                TensorInit{TensorInit{v[12], v[13]},
                           TensorInit{v[14], v[15]}}}}),
        m({2, 2, 2, 2}), "4-D initializer");
    break;
  default:
    check_new(Tensor(v[0]), m({}), "scalar");
  }
  distinct(strf("init %d %d", t, k) + std::to_string((double)raw[0]));
}
void run_case(Ctx &c) {
  if (c.idx % 60000 < 8)
    return million(c, M_INIT, (unsigned)(c.idx % 60000 + c.idx / 60000));
  Rng &r = c.r;
  int kind = (int)(c.idx % 9);
  types t = (types)(c.idx / 9 % 6);
  Shape s = gen_shape(r, r.chance(1, 20) ? 1500 : 100);
  size_t n = numel_of(s);
  SizeVec sv = to_sv(s);
  Tensor x;
  MT m;
  const char *what = "";
  bool ns = r.chance(1, 2); // the function of the namespace
  if (r.chance(1, 8)) {     // into a handle that showed a parameter
    x = Tensor::ones(SizeVec{3}, INNC::f32);
    x.requires_grad(true);
    x.retain_grad(true);
    x.sum().backward();
  }
  switch (kind) {
  case 0:
    what = "zeros";
    x = ns ? INNC::zeros(sv, t) : Tensor::zeros(sv, t);
    m = m_fresh(t, s, std::vector<ld>(n, 0));
    break;
  case 1:
    what = "ones";
    x = ns ? INNC::ones(sv, t) : Tensor::ones(sv, t);
    m = m_fresh(t, s, std::vector<ld>(n, 1));
    break;
  case 2: {
    what = "full with an integer";
    std::int64_t v = r.chance(1, 2) ? r.range(-200, 200)
                                    : (std::int64_t)r.next() >> r.below(40);
    if (r.chance(1, 40))
      v = r.chance(1, 2) ? INT64_MIN : INT64_MAX;
    if (r.chance(1, 3))
      v = (std::int64_t)gen_vals(r, INNC::i64, 1, P_FULL)[0];
    x = ns ? INNC::full(sv, v, t) : Tensor::full(sv, v, t);
    m = m_fresh(t, s, std::vector<ld>(n, round_to(t, (ld)v)));
    logf(c, "value %lld", (long long)v);
    break;
  }
  case 3: {
    what = "full with a double";
    double v = (double)r.range(-1000, 1000) / 8;
    if (is_f(t) && r.chance(1, 4))
      v = v * 1e5 + 0.0625;
    if (is_f(t) && r.chance(1, 4)) {
      auto w = gen_vals(r, t, 1, P_SPECIAL);
      v = (double)w[0];
    }
    if (is_f(t) && r.chance(1, 4))
      v = (double)gen_vals(r, t, 1, P_FULL)[0];
    if (t >= INNC::i32 && !is_f(t) && r.chance(1, 3))
      v = ldexp((double)r.range(-(1ll << 53), 1ll << 53),
                t == INNC::i32 ? -(int)r.range(22, 40) : (int)r.range(-30, 9));
    if (t == INNC::f32 && r.chance(1, 6))
      v = ldexp((double)r.range(1, 1ll << 40), (int)r.range(-60, 60));
    x = ns ? INNC::full(sv, v, t) : Tensor::full(sv, v, t);
    m = m_fresh(t, s, std::vector<ld>(n, round_to(t, (ld)v)));
    logf(c, "value %f", v);
    break;
  }
  case 4: {
    what = "eye";
    size_t a = r.below(r.chance(1, 10) ? 40 : 8), b = r.below(8);
    bool sq = r.chance(1, 2);
    if (sq)
      b = a;
    s = {a, b};
    std::vector<ld> v(a * b, 0);
    for (size_t i = 0; i < a && i < b; ++i)
      v[i * b + i] = 1;
    if (t == INNC::i8 && r.chance(1, 2))
      x = sq ? Tensor::eye(a) : Tensor::eye(a, b);
    else if (sq && r.chance(1, 2))
      x = Tensor::eye(a, t);
    else
      x = Tensor::eye(a, b, t);
    m = m_fresh(t, s, v);
    break;
  }
  case 5: {
    what = "from_blob";
    auto v = gen_vals(r, t, n,
                      r.chance(1, 3)   ? P_FULL
                      : r.chance(1, 2) ? P_WIDE
                                       : P_SPECIAL);
    auto raw = pack(t, v);
    if (raw.empty())
      raw.resize(1);
    x = ns ? INNC::from_blob(raw.data(), sv, t)
           : Tensor::from_blob(raw.data(), sv, t);
    auto copy = raw;
    // the tensor is a copy
    for (auto &b : raw)
      b ^= 0x5a;
    m = m_fresh(t, s, v);
    check_new(x, m, "from_blob, after the blob changed");
    auto blob = raw;
    P one = mk(t, {}, {1});
    MT m2 = m_clone(m);
    if (m_iadd(m2, one.m)) {
      Tensor y = Tensor::from_blob(copy.data(), sv, t);
      auto keep = copy;
      y += one.t;
      if (copy != keep)
        failf("from_blob: writing to the tensor changed the blob");
    }
    break;
  }
  case 6: {
    what = "zeros_like or ones_like";
    P p = mk_layout(r, t, s, P_SMALL, &c);
    if (is_f(t) && r.chance(1, 3))
      set_req(p);
    p.t.retain_grad(r.chance(1, 2));
    if (p.m.req && p.m.n() && r.chance(1, 2))
      p.t.sum().backward();
    bool one = r.chance(1, 2);
    if (ns)
      x = one ? INNC::ones_like(p.t) : INNC::zeros_like(p.t);
    else
      x = one ? Tensor::ones_like(p.t) : Tensor::zeros_like(p.t);
    m = m_fresh(t, s, std::vector<ld>(n, one));
    verify(p, "the tensor to be like");
    break;
  }
  case 7: {
    what = "sizes only";
    x = Tensor(sv, t);
    if (from_sv(x.size()) != s || x.type() != t || x.numel() != n ||
        x.dim() != s.size() || x.requires_grad() || !x.is_contiguous())
      failf("Tensor(sizes, type) does not have the shape or type asked for");
    // its elements can be used once they have been written: x + (y - x)
    Tensor z = Tensor::zeros(sv, t);
    x = z;
    m = m_fresh(t, s, std::vector<ld>(n, 0));
    break;
  }
  default:
    switch (t) {
    case INNC::i8:
      return init_case<std::int8_t>(c, t);
    case INNC::i16:
      return init_case<std::int16_t>(c, t);
    case INNC::i32:
      return init_case<std::int32_t>(c, t);
    case INNC::i64:
      return init_case<std::int64_t>(c, t);
    case INNC::f32:
      return init_case<float>(c, t);
    default:
      return init_case<double>(c, t);
    }
  }
  logf(c, "%s: %s %s", what, kDT[t], shape_str(s).c_str());
  check_new(x, m, what);
  // two tensors made the same way share nothing
  if (kind <= 1) {
    Tensor y = kind ? Tensor::ones(sv, t) : Tensor::zeros(sv, t);
    y += Tensor((std::int8_t)1);
    check_new(x, m, what);
  }
  count(strf("kind_%d", kind));
  if (m.n())
    distinct(strf("%d %d %s", kind, t, shape_str(s).c_str()));
}
