#include "prog.hpp"
#include <map>
#include <sys/mman.h>

static const char *const kOps[] = {
    "add",       "sub",    "mul",  "div",   "neg",   "abs",       "max",
    "min",       "sum",    "mean", "type",  "clone", "contiguous", "cat",
    "slice",     "transpose", "reshape", "reshape_as", "plus", "detach"};
const char *op_name(unsigned o) { return kOps[__builtin_ctz(o)]; }

std::string vec_str(const std::vector<long long> &v) {
  std::string o = "{";
  for (size_t i = 0; i < v.size(); ++i)
    o += (i ? "," : "") + std::to_string(v[i]);
  return o + "}";
}
Tensor alias(const Tensor &t) {
  Tensor x;
  x = t;
  return x;
}
int reshape_shares(const P &p) {
  if (p.m.n() == 0)
    return -1;
  if (p.m.n() == 1 || p.t.is_contiguous())
    return 1;
  for (size_t i = 2; i < p.m.n(); ++i)
    if ((long long)p.m.ix[i] - (long long)p.m.ix[i - 1] !=
        (long long)p.m.ix[1] - (long long)p.m.ix[0])
      return 0;
  return -1;
}

bool apply_random(Ctx &c, std::vector<P> &pool, unsigned ops, const Limits &l,
                  P &out, std::vector<size_t> *src, unsigned *which) {
  Rng &r = c.r;
  std::vector<unsigned> ch;
  for (unsigned b = 0; b < 20; ++b)
    if (ops >> b & 1)
      ch.push_back(1u << b);
  for (int tries = 0; tries < 40; ++tries) {
    unsigned op = r.pick(ch);
    size_t ia = r.below(pool.size()), ib = r.below(pool.size());
    P &a = pool[ia], &b = pool[ib];
    std::vector<size_t> used{ia};
    P o;
    std::string desc;
    if (which)
      *which = op;
    switch (op) {
    case O_ADD:
    case O_SUB:
    case O_MUL:
    case O_DIV: {
      P sx, sy; // views of one tensor, or two tensors of the pool
      std::string dx, dy;
      bool sib = r.chance(1, 5) && siblings(r, pool[ia], sx, sy, dx, dy);
      P &a = sib ? sx : pool[ia], &b = sib ? sy : pool[ib];
      Shape s;
      if (!bcast(a.m.sz, b.m.sz, s) || numel_of(s) > l.maxnumel)
        continue;
      Bin bo = op == O_ADD   ? B_ADD
               : op == O_SUB ? B_SUB
               : op == O_MUL ? B_MUL
                             : B_DIV;
      bool ok = true;
      for (size_t i = 0; ok && bo == B_DIV && i < b.m.n(); ++i)
        ok = fabsl(b.m.val(i)) >= l.mindiv;
      ld ma = a.m.maxabs(), mb = b.m.maxabs();
      if (bo == B_MUL)
        ok &= ma * mb <= l.maxabs;
      if (bo == B_ADD || bo == B_SUB)
        ok &= ma + mb <= l.maxabs;
      if (!ok)
        continue;
      try {
        o.m = m_bin(bo, a.m, b.m);
      } catch (const Discard &) {
        continue;
      }
      if (o.m.maxabs() > l.maxabs)
        continue;
      if (sib)
        count("operands_of_one_base");
      else
        used.push_back(ib);
      desc = strf("t%zu%s %s t%zu%s", ia, dx.c_str(), kBin[bo], sib ? ia : ib,
                  dy.c_str());
      o.t = real_bin(bo, a.t, b.t);
      break;
    }
    case O_NEG:
      try {
        o.m = m_neg(a.m);
      } catch (const Discard &) {
        continue;
      }
      desc = strf("-t%zu", ia);
      o.t = -a.t;
      break;
    case O_PLUS:
      o.m = a.m;
      desc = strf("+t%zu", ia);
      o.t = +a.t;
      break;
    case O_ABS:
      try {
        o.m = m_abs(a.m);
      } catch (const Discard &) {
        continue;
      }
      desc = strf("t%zu.abs()", ia);
      o.t = a.t.abs();
      break;
    case O_MAX:
    case O_MIN:
      if (!a.m.n() || ((!l.ties || a.m.req) && !m_ext_unique(a.m, op == O_MAX)))
        continue;
      o.m = m_ext(a.m, op == O_MAX);
      desc = strf("t%zu.%s()", ia, op_name(op));
      o.t = op == O_MAX ? a.t.max() : a.t.min();
      break;
    case O_SUM:
    case O_MEAN:
      if (!a.m.n())
        continue;
      try {
        o.m = op == O_SUM ? m_sum(a.m) : m_mean(a.m);
      } catch (const Discard &) {
        continue;
      }
      if (o.m.maxabs() > l.maxabs)
        continue;
      desc = strf("t%zu.%s()", ia, op_name(op));
      o.t = op == O_SUM ? a.t.sum() : a.t.mean();
      break;
    case O_TYPE: {
      types t = a.m.req ? r.fdt() : r.dt();
      try {
        o.m = m_type(a.m, t);
      } catch (const Discard &) {
        continue;
      }
      desc = strf("t%zu.type(%s)", ia, kDT[t]);
      o.t = a.t.type(t);
      break;
    }
    case O_CLONE:
      o.m = m_clone(a.m);
      desc = strf("t%zu.clone()", ia);
      o.t = a.t.clone();
      break;
    case O_CONTIG:
      o.m = m_clone(a.m);
      desc = strf("t%zu.contiguous()", ia);
      o.t = a.t.contiguous();
      break;
    case O_DETACH:
      o.m = m_detach(a.m);
      desc = strf("t%zu.detach()", ia);
      o.t = a.t.detach();
      break;
    case O_CAT: {
      if (a.m.sz.empty())
        continue;
      P sx, sy;
      std::string dx, dy;
      if (r.chance(1, 6) && siblings(r, a, sx, sy, dx, dy) &&
          !sx.m.sz.empty() && sx.m.n() * 2 <= l.maxnumel) {
        size_t dim = r.below(sx.m.sz.size());
        for (size_t k = 0; k < sx.m.sz.size(); ++k) // transposed squares
          if (sx.m.sz[k] != sy.m.sz[k])
            dim = k;
        std::vector<Tensor> ts;
        ts.push_back(alias(sx.t));
        ts.push_back(alias(sy.t));
        desc = strf("cat(t%zu%s,t%zu%s,dim %zu)", ia, dx.c_str(), ia,
                    dy.c_str(), dim);
        o.m = m_cat({&sx.m, &sy.m}, dim);
        o.t = Tensor::cat(ts, dim);
        count("operands_of_one_base");
        break;
      }
      size_t dim = r.below(a.m.sz.size());
      std::vector<size_t> sel{ia};
      for (size_t k = 0, want = r.below(4); k < want; ++k) {
        size_t j = r.below(pool.size());
        for (int q = 0; q < 6; ++q, j = r.below(pool.size())) {
          Shape x = pool[j].m.sz, y = a.m.sz;
          if (x.size() != y.size())
            continue;
          x[dim] = y[dim] = 0;
          if (x == y) {
            sel.push_back(j);
            break;
          }
        }
      }
      std::vector<const MT *> ms;
      std::vector<Tensor> ts;
      desc = "cat(";
      size_t tot = 0;
      for (auto j : sel) {
        ms.push_back(&pool[j].m);
        ts.push_back(alias(pool[j].t));
        desc += strf("t%zu,", j);
        tot += pool[j].m.n();
      }
      if (tot > l.maxnumel)
        continue;
      desc += strf("dim %zu)", dim);
      used = sel;
      o.m = m_cat(ms, dim);
      o.t = Tensor::cat(ts, dim);
      break;
    }
    case O_SLICE: {
      auto sl = gen_slice(r, a.m.sz, true, l.nonempty || r.chance(4, 5));
      if (sl.empty())
        continue;
      if (!m_slice(a.m, sl, o.m))
        continue;
      std::string s = sl_str(r, sl);
      desc = strf("t%zu[\"%s\"]", ia, s.c_str());
      o.t = a.t[s];
      break;
    }
    case O_TRANSPOSE: {
      size_t n = a.m.sz.size();
      if (n < 2)
        continue;
      size_t d0 = r.below(n), d1 = r.below(n - 1);
      if (d1 >= d0)
        ++d1;
      o.m = m_transpose(a.m, d0, d1);
      desc = strf("t%zu.transpose(%zu,%zu)", ia, d0, d1);
      o.t = r.chance(1, 2) ? a.t.transpose(d0, d1)
                           : Tensor::transpose(a.t, d0, d1);
      break;
    }
    case O_RESHAPE:
    case O_RESHAPE_AS: {
      int sh = reshape_shares(a);
      if (sh < 0 && (ops & O_DETACH)) // programs that look at aliasing
        continue;
      Shape s = gen_reshape(r, a.m.n());
      std::vector<long long> v(s.begin(), s.end());
      if (!v.empty() && a.m.n() && r.chance(1, 3))
        v[r.below(v.size())] = -1;
      o.m = sh == 1 ? m_reshape_view(a.m, s) : m_reshape_copy(a.m, s);
      if (op == O_RESHAPE) {
        desc = strf("t%zu.reshape(%s)", ia, vec_str(v).c_str());
        o.t = r.chance(1, 2) ? a.t.reshape(to_dv(v))
                             : Tensor::reshape(a.t, to_dv(v));
      } else {
        Tensor shape = Tensor::zeros(to_sv(s), INNC::i8);
        desc = strf("t%zu.reshape_as(zeros(%s))", ia, shape_str(s).c_str());
        o.t = a.t.reshape_as(shape);
      }
      break;
    }
    }
    if (l.nonempty && !o.m.n())
      continue;
    logf(c, "  %s  -> %s %s", desc.c_str(), kDT[o.m.dt],
         shape_str(o.m.sz).c_str());
    count(std::string("op_") + op_name(op));
    if (src)
      *src = used;
    out = std::move(o);
    return true;
  }
  return false;
}

P make_root(Ctx &c, std::vector<P> &pool, const std::vector<size_t> &use) {
  P acc;
  bool first = true;
  for (size_t i : use) {
    P &p = pool[i];
    P s;
    // weights, so that elements do not all get the same gradient
    bool weigh = c.r.chance(2, 3) && p.m.n();
    P w;
    if (weigh)
      w = mk(c.r, c.r.chance(1, 4) ? c.r.idt() : c.r.fdt(), p.m.sz, P_DYADIC);
    if (weigh) {
      s.m = m_sum(m_bin(B_MUL, p.m, w.m));
      s.t = (p.t * w.t).sum();
    } else if (p.m.n() && c.r.chance(1, 4)) {
      s.m = m_mean(p.m);
      s.t = p.t.mean();
    } else {
      s.m = m_sum(p.m);
      s.t = p.t.sum();
    }
    logf(c, "  root %s= %s(t%zu%s)", first ? "" : "+", "sum", i,
         weigh ? (" * " + m_render(w.m)).c_str() : "");
    if (first)
      acc = std::move(s);
    else {
      P n;
      n.m = m_bin(B_ADD, acc.m, s.m);
      n.t = acc.t + s.t;
      acc = std::move(n);
    }
    first = false;
  }
  return acc;
}
// Elements far out in tensors with more bytes or elements than 32 bits count.
// The tensor's memory is not initialised, and only a few pages are touched.
void giant(Ctx &c) {
  struct G {
    types t;
    Shape s;
  };
  static const G gs[] = {{INNC::i8, {66000, 66000}},
                         {INNC::i8, {3, 1500000000}},
                         {INNC::i16, {2, 2, 575000000}},
                         {INNC::f64, {600000000}},
                         {INNC::i8, {1500000000, 3}},
                         {INNC::f32, {5, 220000000, 1}}};
  Rng &r = c.r;
  const G &g = gs[c.idx % 6];
  const unsigned long long n = numel_of(g.s);
  size_t bytes = n * INNC::size_of(g.t);
  void *probe = mmap(nullptr, bytes, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (probe == MAP_FAILED)
    throw Discard{};
  munmap(probe, bytes);
  logf(c, "uninitialised %s %s", kDT[g.t], shape_str(g.s).c_str());
  Tensor base(to_sv(g.s), g.t);
  size_t rank = g.s.size();
  if (base.numel() != n || base.dim() != rank ||
      from_sv(base.size()) != g.s || !base.is_contiguous())
    failf("numel() %zu, dim() %zu, size() %s, is_contiguous() %d", base.numel(),
          base.dim(), base.size().to_string().c_str(), base.is_contiguous());
  auto st = base.stride();
  long long want = 1;
  for (size_t d = rank; d-- > 0; want *= (long long)g.s[d])
    if (st[d] != want)
      failf("stride() is %s", st.to_string().c_str());
  std::vector<unsigned long long> pos{0, n - 1, n / 2};
  const unsigned long long k31 = 1ull << 31, k32 = 1ull << 32;
  for (auto p : {k31 - 1, k31, k32 - 1, k32, n - 1 - k31, n - 1 - k32,
                 k31 / INNC::size_of(g.t), k32 / INNC::size_of(g.t), n - 1 - k32 / INNC::size_of(g.t),
                 n - 1 - k31 / INNC::size_of(g.t), r.next() % n, r.next() % n})
    if (p < n)
      pos.push_back(p);
  std::sort(pos.begin(), pos.end());
  pos.erase(std::unique(pos.begin(), pos.end()), pos.end());
  // a view that shows element p alone, made in one of many ways
  std::string how;
  auto at = [&](unsigned long long p) {
    std::vector<long long> i(rank), s(g.s.begin(), g.s.end());
    for (size_t d = rank; d-- > 0;) {
      i[d] = (long long)(p % g.s[d]);
      p /= g.s[d];
    }
    Tensor t;
    t = base;
    how = "";
    for (int k = 0, m = (int)r.below(4); k < m; ++k)
      switch (r.below(5)) {
      case 0:
        if (s.size() >= 2) {
          size_t a = r.below(s.size()), b = r.below(s.size() - 1);
          b += b >= a;
          Tensor u = t.transpose(a, b);
          t = u;
          std::swap(i[a], i[b]);
          std::swap(s[a], s[b]);
          how += strf(".transpose(%zu,%zu)", a, b);
        }
        break;
      case 1: { // backwards
        size_t d = r.below(s.size());
        std::string str;
        for (size_t q = 0; q < d; ++q)
          str += ":,";
        str += "::-1";
        Tensor u = t[str];
        t = u;
        i[d] = s[d] - 1 - i[d];
        how += "[\"" + str + "\"]";
        break;
      }
      case 2: { // from some element on
        size_t d = r.below(s.size());
        long long b = (long long)(r.next() % (uint64_t)(i[d] + 1));
        std::string str;
        for (size_t q = 0; q < d; ++q)
          str += ":,";
        str += strf("%lld:", r.chance(1, 2) ? b : b - s[d]);
        Tensor u = t[str];
        t = u;
        i[d] -= b;
        s[d] -= b;
        how += "[\"" + str + "\"]";
        break;
      }
      case 3: { // every st-th
        size_t d = r.below(s.size());
        long long w = 1 + (long long)r.below(3);
        if (r.chance(1, 2) && i[d])
          w = i[d];
        if (i[d] % w)
          w = 1;
        std::string str;
        for (size_t q = 0; q < d; ++q)
          str += ":,";
        str += strf("::%lld", w);
        Tensor u = t[str];
        t = u;
        i[d] /= w;
        s[d] = (s[d] - 1) / w + 1;
        how += "[\"" + str + "\"]";
        break;
      }
      default:
        if (t.is_contiguous() && from_sv(t.size()) == g.s) {
          long long f = 0;
          for (size_t d = 0; d < s.size(); ++d)
            f = f * s[d] + i[d];
          Tensor u = t.reshape(SignedVec{-1});
          t = u;
          s = {(long long)n};
          i = {f};
          how += ".reshape(-1)";
        } else {
          Tensor u = t.detach();
          t = u;
          how += ".detach()";
        }
      }
    if (from_sv(t.size()) != Shape(s.begin(), s.end()))
      failf("base%s has the shape %s, expected %s", how.c_str(),
            t.size().to_string().c_str(), vec_str(s).c_str());
    std::string str;
    for (size_t d = 0; d < s.size(); ++d) {
      if (d)
        str += ",";
      str += r.chance(1, 3)
                 ? strf("%lld:%lld", i[d], i[d] + 1)
                 : strf("%lld", r.chance(1, 2) ? i[d] : i[d] - s[d]);
    }
    how += "[\"" + str + "\"]";
    Tensor u = t[str];
    return u;
  };
  auto read = [&](unsigned long long p) {
    Tensor v = at(p);
    std::string s = v.sum().to_string();
    return strtod(s.c_str(), nullptr);
  };
  std::map<unsigned long long, double> val;
  for (auto p : pos)
    val[p] = read(p);
  for (int k = 0; k < 60; ++k) {
    auto p = r.pick(pos);
    int by = r.chance(1, 2) ? 1 : 2;
    if (fabs(val[p]) > 100)
      by = val[p] > 0 ? -1 : 1;
    Tensor v = at(p);
    logf(c, "  base%s += %d", how.c_str(), by);
    v += Tensor((std::int8_t)by);
    val[p] += by;
    for (auto q : pos) {
      double got = read(q);
      if (fabs(got - val[q]) > 1e-4)
        failf("element %llu, read as base%s, is %g, expected %g", q,
              how.c_str(), got, val[q]);
      count("far_elements_read");
    }
  }
  // views of two elements far from each other
  Tensor flat = base.reshape(SignedVec{-1});
  for (int k = 0; k < 30 && pos.size() > 1; ++k) {
    auto p = r.pick(pos), q = r.pick(pos);
    if (p == q)
      continue;
    bool down = p > q;
    std::string str =
        down ? strf("%llu:%s:-%llu", p, q ? strf("%llu", q - 1).c_str() : "",
                    p - q)
             : strf("%llu:%llu:%llu", p, q + 1, q - p);
    Tensor v = flat[str];
    logf(c, "  base.reshape(-1)[\"%s\"]", str.c_str());
    auto near = [&](const Tensor &t, double x, double y, const char *what) {
      std::vector<ld> w = vals(t);
      if (w.size() != 2 || fabsl(w[0] - x) > 1e-3L || fabsl(w[1] - y) > 1e-3L)
        failf("%s of [\"%s\"] is %s, expected %g, %g", what, str.c_str(),
              t.to_string().c_str(), x, y);
    };
    double x = val[p], y = val[q];
    near(v, x, y, "to_string()");
    near(v.clone(), x, y, "clone()");
    near(v.type(INNC::f64), x, y, "type(f64)");
    near(v + Tensor((std::int8_t)1), x + 1, y + 1, "+ 1");
    near(v.reshape(SignedVec{2, 1}).transpose(0, 1)["0"], x, y, "reshape()");
    if (fabs(strtod(v.sum().to_string().c_str(), nullptr) - x - y) > 1e-3 ||
        fabs(strtod(v.max().to_string().c_str(), nullptr) - std::max(x, y)) >
            1e-3)
      failf("sum() or max() of [\"%s\"] is %s, %s for %g, %g", str.c_str(),
            v.sum().to_string().c_str(), v.max().to_string().c_str(), x, y);
    if (v.all() != (x != 0 && y != 0))
      failf("all() of [\"%s\"] is wrong for %g, %g", str.c_str(), x, y);
    count("far_pairs_read");
  }
  distinct(c.log);
}
void million(Ctx &c, Million kind, unsigned k) {
  Rng &r = c.r;
  const size_t n = (1u << 20) + r.below(40);
  auto fx = [](size_t i) { return (ld)((long long)(i * 7919 % 251) - 125); };
  auto fy = [](size_t i) { // never zero
    long long v = (long long)(i * 104729 % 241) - 120;
    return (ld)(v ? v : 77);
  };
  static const types tx[] = {INNC::i32, INNC::f64, INNC::i8, INNC::f32,
                             INNC::i64, INNC::i16};
  types t = tx[k % 6], u = tx[(k + 1 + r.below(5)) % 6];
  auto make = [&](types ty, auto f, Shape s = {}) {
    std::vector<ld> v(n);
    for (size_t i = 0; i < n; ++i)
      v[i] = f(i);
    auto raw = pack(ty, v);
    if (s.empty())
      s = {n};
    return Tensor::from_blob(raw.data(), to_sv(s), ty);
  };
  std::vector<size_t> at{0, n - 16, n / 2, n / 4, n / 3};
  for (size_t b = 256; b < n; b *= 2)
    at.push_back(b - 8);
  for (int q = 0; q < 60; ++q)
    at.push_back(r.below(n - 16));
  // the elements of `z` in windows and at even distances
  auto look = [&](const Tensor &z, types ty, size_t m, auto f,
                  const char *what) {
    if (z.type() != ty || from_sv(z.size()) != Shape{m} || z.numel() != m)
      failf("%s is %s %s", what, kDT[z.type()], z.size().to_string().c_str());
    Tensor w;
    w = z;
    auto one = [&](size_t b, size_t step, size_t cnt) {
      Tensor v = w[strf("%zu:%zu:%zu", b, b + (cnt - 1) * step + 1, step)];
      auto e = vals(v);
      if (e.size() != cnt)
        failf("%s: a slice of %zu elements has %zu", what, cnt, e.size());
      for (size_t q = 0; q < cnt; ++q) {
        ld want = f(b + q * step);
        if (std::isnan(want)) // not judged
          continue;
        ld tol = !is_f(ty) ? 0 : 2e-6L + (ty == INNC::f32 ? 1e-6L * fabsl(want) : 0);
        if (!(fabsl(e[q] - want) <= tol))
          failf("%s: element %zu of %zu is %Lg, expected %Lg", what,
                b + q * step, m, e[q], want);
      }
      count("elements_compared", cnt);
    };
    for (size_t b : at)
      if (b + 16 <= m)
        one(b, 1, 16);
    one(m - 16, 1, 16);
    size_t step = 900 + r.below(200);
    one(r.below(step), step, (m - step) / step);
    one(r.below(step), step, (m - step) / step);
  };
  types p = t > u ? t : u; // the larger of the two
  count("cases_of_a_million_elements");
  switch (kind) {
  case M_ARITH: {
    // types that hold every result
    t = k % 2 ? INNC::f64 : INNC::i32;
    u = k % 3 ? INNC::i64 : INNC::f32;
    p = t > u ? t : u;
    Tensor x = make(t, fx), y = make(u, fy), z;
    logf(c, "%zu elements, %s and %s, operation %u", n, kDT[t], kDT[u], k % 6);
    switch (k % 6) {
    case 0:
      z = x + y;
      look(z, p, n, [&](size_t i) { return fx(i) + fy(i); }, "x + y");
      break;
    case 1:
      z = x / y;
      look(z, p, n,
           [&](size_t i) {
             ld q = fx(i) / fy(i);
             return is_f(p) ? q : truncl(q);
           },
           "x / y");
      break;
    case 2:
      z = x * y;
      look(z, p, n, [&](size_t i) { return fx(i) * fy(i); }, "x * y");
      break;
    case 3:
      z = y - x;
      look(z, p, n, [&](size_t i) { return fy(i) - fx(i); }, "y - x");
      break;
    case 4:
      z = x.abs();
      look(z, t, n, [&](size_t i) { return fabsl(fx(i)); }, "x.abs()");
      break;
    default:
      z = -x;
      look(z, t, n, [&](size_t i) { return -fx(i); }, "-x");
    }
    look(x, t, n, fx, "x afterwards");
    break;
  }
  case M_CMP: {
    logf(c, "%zu elements, %s and %s, comparison %u", n, kDT[t], kDT[u], k % 7);
    if (k % 7 == 6) {
      Tensor y = make(t, fy);
      if (!y.all())
        failf("all() of %zu elements, none of them zero, is false", n);
      size_t z = k % 2 ? n - 1 - r.below(20) : r.below(n);
      Tensor q = make(t, [&](size_t i) { return i == z ? 0 : fy(i); });
      if (q.all())
        failf("all() of %zu elements is true although element %zu is zero", n,
              z);
      break;
    }
    Tensor x = make(t, fx), y = make(u, fy);
    Cmp op = (Cmp)(k % 7);
    look(real_cmp(op, x, y), INNC::i8, n,
         [&](size_t i) {
           ld a = fx(i), b = fy(i);
           switch (op) {
           case C_LT: return (ld)(a < b);
           case C_GT: return (ld)(a > b);
           case C_LE: return (ld)(a <= b);
           case C_GE: return (ld)(a >= b);
           case C_EQ: return (ld)(a == b);
           default: return (ld)(a != b);
           }
         },
         "the comparison");
    break;
  }
  case M_REDUCE: {
    size_t top = k % 2 ? n - 1 - r.below(3) : r.below(n),
           low = r.chance(1, 2) ? n - 4 : r.below(n);
    if (low == top)
      low = top / 2;
    auto f = [&](size_t i) {
      return i == top ? (ld)126 : i == low ? (ld)-127 : fx(i);
    };
    Tensor x = make(t, f);
    ld s = 0;
    for (size_t i = 0; i < n; ++i)
      s += f(i);
    logf(c, "%zu elements, %s, largest at %zu, least at %zu", n, kDT[t], top,
         low);
    auto num = [](const Tensor &z) {
      return strtold(z.to_string().c_str(), nullptr);
    };
    ld want[] = {s, is_f(t) ? s / n : truncl(s / n), 126, -127};
    Tensor got[] = {x.sum(), x.mean(), x.max(), x.min()};
    for (int q = 0; q < 4; ++q)
      if (fabsl(num(got[q]) - want[q]) > 1e-6L)
        failf("reduction %d is %s, expected %.8Lg", q,
              got[q].to_string().c_str(), want[q]);
    break;
  }
  case M_MOVE: {
    size_t w = 2 + r.below(600), h = n / w, m = h * w;
    logf(c, "%s, %zu by %zu", kDT[t], h, w);
    Tensor x = make(t, fx);
    std::string str = strf("0:%zu", m);
    Tensor g = x[str].reshape(SignedVec{(long long)h, -1});
    auto tr = [&](size_t i) { return fx(i % h * w + i / h); };
    switch (k % 4) {
    case 0:
      look(g.transpose(0, 1).contiguous().reshape(SignedVec{-1}), t, m, tr,
           "the transposition");
      break;
    case 1:
      look(g.transpose(0, 1).reshape(SignedVec{-1}), t, m, tr,
           "the reshaped transposition");
      break;
    case 2:
      look(g.clone().reshape(SignedVec{-1}), t, m, fx, "the clone");
      break;
    default: {
      size_t b = 1 + r.below(n - 1);
      Tensor l = x[strf("0:%zu", b)], q = x[strf("%zu:", b)];
      std::vector<Tensor> two;
      two.push_back(std::move(q));
      two.push_back(std::move(l));
      look(Tensor::cat(two, 0), t, n,
           [&](size_t i) { return fx(i < n - b ? i + b : i - (n - b)); },
           "cat");
    }
    }
    break;
  }
  case M_SLICE: {
    logf(c, "%zu elements, %s", n, kDT[t]);
    Tensor x = make(t, fx);
    look(x["::-1"], t, n, [&](size_t i) { return fx(n - 1 - i); }, "[::-1]");
    look(x["-1000000:"], t, 1000000,
         [&](size_t i) { return fx(n - 1000000 + i); }, "[-1000000:]");
    look(x["7::3"], t, (n - 7 + 2) / 3, [&](size_t i) { return fx(7 + 3 * i); },
         "[7::3]");
    break;
  }
  case M_TYPE: {
    logf(c, "%zu elements, %s to %s", n, kDT[t], kDT[u]);
    Tensor x = make(t, fx);
    look(x.type(u), u, n, fx, "type()");
    break;
  }
  case M_INIT: {
    logf(c, "%zu elements, %s, kind %u", n, kDT[t], k % 4);
    { // leaves its marks in memory
      Tensor y = make(t, fy);
    }
    SizeVec sv{n};
    switch (k % 4) {
    case 0:
      look(Tensor::zeros(sv, t), t, n, [](size_t) { return (ld)0; }, "zeros");
      break;
    case 1:
      look(Tensor::ones(sv, t), t, n, [](size_t) { return (ld)1; }, "ones");
      break;
    case 2:
      look(Tensor::full(sv, std::int64_t(-7), t), t, n,
           [](size_t) { return (ld)-7; }, "full");
      break;
    default: {
      Tensor e = Tensor::eye(1025, 1030, t);
      look(e.reshape(SignedVec{-1}), t, 1025 * 1030,
           [](size_t i) { return (ld)(i / 1030 == i % 1030); }, "eye");
    }
    }
    break;
  }
  case M_IADD: {
    u = t; // no conversions
    logf(c, "%zu elements, %s", n, kDT[t]);
    auto small = [&](size_t i) { return (ld)(i % 3); };
    auto half = [&](size_t i) { return truncl(fx(i) / 2); };
    Tensor x = make(t, half), y = make(t, small);
    Tensor w;
    w = x;
    switch (k % 3) {
    case 0:
      x += y;
      look(w, t, n, [&](size_t i) { return half(i) + small(i); }, "x += y");
      break;
    case 1: {
      Tensor v = x["::-1"];
      v += y;
      look(w, t, n, [&](size_t i) { return half(i) + small(n - 1 - i); },
           "x[::-1] += y");
      break;
    }
    default: {
      Tensor v = x["1::2"];
      v += Tensor(std::int8_t(3));
      look(w, t, n, [&](size_t i) { return half(i) + (i % 2 ? 3 : 0); },
           "x[1::2] += 3");
    }
    }
    look(y, t, n, small, "y afterwards");
    break;
  }
  case M_GRAD: {
    t = k % 2 ? INNC::f64 : INNC::f32;
    logf(c, "%zu elements, %s, kind %u", n, kDT[t], k % 5);
    Tensor x = make(t, fx), y = make(t, fy);
    x.requires_grad(true);
    switch (k % 5) {
    case 0:
      (x * y).sum().backward();
      look(x.grad(), t, n, fy, "the gradient");
      break;
    case 1:
      x["::-1"].sum().backward();
      x["5:"].sum().backward();
      look(x.grad(), t, n, [](size_t i) { return (ld)(i < 5 ? 1 : 2); },
           "the gradient");
      break;
    case 2: {
      size_t b = n / 2 + r.below(1000);
      Tensor a = x[strf("0:%zu", b)], q = x[strf("%zu:", b)];
      std::vector<Tensor> two;
      two.push_back(std::move(q));
      two.push_back(std::move(a));
      (Tensor::cat(two, 0) * y).sum().backward();
      look(x.grad(), t, n,
           [&](size_t i) { return fy(i >= b ? i - b : i + (n - b)); },
           "the gradient");
      break;
    }
    case 3: { // a scalar used by every element
      Tensor s = Tensor::full(SizeVec{1}, std::int64_t(3), INNC::f64);
      s.requires_grad(true);
      x.requires_grad(false);
      (x * s).sum().backward();
      ld want = 0;
      for (size_t i = 0; i < n; ++i)
        want += fx(i);
      if (fabsl(vals(s.grad())[0] - want) > 1e-5L)
        failf("the gradient of the factor is %s, expected %Lg",
              s.grad().to_string().c_str(), want);
      break;
    }
    default:
      (x / y).abs().sum().backward();
      look(x.grad(), t, n,
           [&](size_t i) {
             ld s = fx(i) / fy(i);
             return s == 0 ? NAN : (s < 0 ? -1 : 1) / fy(i);
           },
           "the gradient");
    }
    break;
  }
  }
  distinct(c.log);
}
void used(Ctx &c, P &x, bool zeros) {
  Rng &r = c.r;
  if (!r.chance(1, 6) || x.m.n() == 0 || x.m.n() > 2000)
    return;
  // first what must not remember anything
  ld total = 0;
  for (size_t i = 0; i < x.m.n(); ++i)
    total += fabsl(x.m.val(i));
  Tensor seven = Tensor::full(SizeVec{}, 7.0, INNC::f64);
  if (is_f(x.m.dt) || total < 9e18L) {
    x.t.sum();
    x.t.mean();
  }
  x.t.max();
  x.t.min();
  x.t.all();
  x.t.to_string();
  x.t.clone();
  x.t.contiguous();
  x.t.type(INNC::f64);
  if (x.m.dt != INNC::f64)
    x.t.type(INNC::f32);
  x.t.detach();
  x.t *seven;
  seven - x.t;
  x.t < seven;
  x.t == x.t;
  if (is_f(x.m.dt)) {
    -x.t;
    x.t.abs();
  }
  x.t.reshape(SignedVec{-1});
  if (x.t.dim()) {
    std::vector<Tensor> v;
    v.push_back(alias(x.t));
    v.push_back(alias(x.t));
    Tensor::cat(v, 0);
  }
  // element i becomes (about) element j, or zero
  size_t i = r.below(x.m.n()), j = r.below(x.m.n());
  ld to = zeros && r.chance(1, 2) ? 0 : x.m.val(j);
  ld d = round_to(x.m.dt, to - x.m.val(i));
  if (!std::isfinite(to) || !std::isfinite(x.m.val(i)) || !std::isfinite(d))
    return;
  static const ld lim[] = {127, 32767, 2147483647.0L, 9e18L};
  if (!is_f(x.m.dt) && fabsl(to - x.m.val(i)) > lim[x.m.dt])
    return;
  P y;
  y.t = x.t.detach();
  y.m = m_detach(x.m);
  std::vector<Sl> sl(x.m.sz.size());
  size_t k = i;
  for (size_t dim = x.m.sz.size(); dim-- > 0;) {
    sl[dim].index = true;
    sl[dim].i = (long long)(k % x.m.sz[dim]);
    k /= x.m.sz[dim];
  }
  MT e = y.m;
  if (!sl.empty()) {
    if (!m_slice(y.m, sl, e))
      return;
    Tensor q = y.t[sl_str(r, sl)];
    y.t = std::move(q);
  }
  P b = mk(x.m.dt, {}, {d});
  if (!m_iadd(e, b.m))
    return;
  y.t += b.t;
  logf(c, "  # %s %s was used, then element %zu became %Lg", kDT[x.m.dt],
       shape_str(x.m.sz).c_str(), i, x.m.val(i));
  count("changed_after_use");
}
