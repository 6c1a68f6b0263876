#include "freeprog.hpp"

namespace {
ld mag(const Tensor &t) { // largest magnitude; huge if not finite
  if (t.numel() == 0)
    return 0;
  ld m = 0;
  for (ld v : vals(t.detach()))
    m = std::isfinite(v) ? std::max(m, fabsl(v)) : 1e300L;
  return m;
}
std::string junk_slice(Rng &r) {
  static const char ch[] = "0123456789:::,,--+ \tax.";
  std::string s;
  for (size_t i = 0, n = r.below(12); i < n; ++i)
    s += ch[r.below(sizeof ch - 1)];
  return s;
}
SizeVec rshape(Rng &r, size_t maxnumel) { return to_sv(gen_shape(r, maxnumel)); }
} // namespace

std::string run_free(Rng &r, const FreeOpt &o, FreeStat &st) {
  std::string tr;
  std::vector<Tensor> pool;
  auto show = [&](const Tensor &t) {
    if (o.render) {
      tr += t.to_string();
      tr += '|';
    }
  };
  auto push = [&](Tensor &&t) {
    show(t);
    if (pool.size() < 10)
      pool.push_back(std::move(t));
    else
      pool[r.below(pool.size())] = std::move(t);
  };
  auto any = [&]() -> Tensor & {
    if (o.shared && !o.shared->empty() && r.chance(1, 3))
      return (*o.shared)[r.below(o.shared->size())];
    return pool[r.below(pool.size())];
  };
  auto fresh = [&]() -> Tensor {
    types t = r.dt();
    SizeVec s = rshape(r, o.maxnumel > 1000 && r.chance(1, 6) ? o.maxnumel / 4 : 48);
    switch (r.below(9)) {
    case 0:
      return Tensor::zeros(s, t);
    case 1:
      return Tensor::ones(s, t);
    case 2:
      return Tensor::full(s, (std::int64_t)r.range(-5, 5), t);
    case 3:
      return Tensor::full(s, (double)r.range(-20, 20) / 4, t);
    case 4:
      return Tensor::eye(r.below(5), r.below(5), t);
    case 5:
      return r.chance(1, 2) ? Tensor(TensorInit{TensorInit{1.5, -2.5},
                                                TensorInit{0.5, 4.0}})
                            : Tensor(TensorInit{TensorInit{1, 2, 3}});
    case 6:
      if (o.randn)
        return Tensor::randn(s, r.fdt());
      return r.chance(1, 2) ? Tensor(r.range(-9, 9) / 2.0)
                            : Tensor((std::int16_t)r.range(-9, 9));
    default: {
      Shape sh = from_sv(s);
      auto v = pack(t, gen_vals(r, t, numel_of(sh), P_DYADIC));
      v.reserve(1);
      return Tensor::from_blob(v.data(), s, t);
    }
    }
  };
  pool.push_back(fresh());
  pool.push_back(fresh());
  for (int i = 0; i < o.steps; ++i) {
    int k = (int)r.below(26);
    ++st.calls;
    ++st.kinds[k];
    if (o.render)
      tr += strf("\n%d:", k);
    try {
      switch (k) {
      case 0:
      case 1: {
        Tensor t = fresh();
        if (t.type() >= INNC::f32 && r.chance(1, 2))
          t.requires_grad(true);
        push(std::move(t));
        break;
      }
      case 2:
      case 3:
      case 4:
      case 5: {
        Tensor &a = any(), &b = any();
        Bin op = (Bin)r.below(4);
        bool ints = !is_f(a.type()) && !is_f(b.type());
        if (ints && (mag(a) > 1e4L || mag(b) > 1e4L))
          break;
        Shape s;
        if (bcast(from_sv(a.size()), from_sv(b.size()), s)) {
          if (numel_of(s) > o.maxnumel)
            break;
        } else if (!o.hostile)
          break;
        push(real_bin(op, a, b));
        break;
      }
      case 6: {
        Tensor &a = any(), &b = any();
        Shape s;
        if (bcast(from_sv(a.size()), from_sv(b.size()), s) &&
            numel_of(s) > o.maxnumel)
          break;
        push(real_cmp((Cmp)r.below(6), a, b));
        break;
      }
      case 7: {
        Tensor &a = any();
        if (!is_f(a.type()) && mag(a) > 1e9L)
          break;
        push(r.chance(1, 2) ? -a : a.abs());
        break;
      }
      case 8: {
        Tensor &a = any();
        if (!is_f(a.type()) && mag(a) > 1e12L)
          break;
        push(r.chance(1, 2) ? a.sum() : a.mean());
        break;
      }
      case 9: {
        Tensor &a = any();
        push(r.chance(1, 2) ? a.max() : a.min());
        break;
      }
      case 10: {
        Tensor &a = any();
        types t = r.dt();
        if (!is_f(t) && is_f(a.type()) && mag(a) > 120)
          break;
        if (o.shared && t == a.type())
          break; // would be a handle of somebody else's tensor
        push(a.type(t));
        break;
      }
      case 11: {
        Tensor &a = any();
        push(r.chance(1, 2) ? a.clone() : a.contiguous());
        break;
      }
      case 12: {
        std::vector<Tensor> v;
        Tensor &a = any();
        size_t n = a.dim();
        Tensor x;
        x = a;
        size_t tot = 0;
        for (size_t q = 0, m = r.below(4) + (o.hostile ? 0 : 1); q < m; ++q) {
          Tensor y;
          y = o.hostile && r.chance(1, 4) ? any() : a;
          tot += y.numel();
          v.push_back(std::move(y));
        }
        if (tot > o.maxnumel * 2)
          break;
        if (!o.hostile && n == 0)
          break;
        push(Tensor::cat(v, r.below(n + (o.hostile ? 2 : 0))));
        break;
      }
      case 13:
      case 14: {
        Tensor &a = any();
        std::string s = o.hostile && r.chance(1, 3)
                            ? junk_slice(r)
                            : sl_str(r, gen_slice(r, from_sv(a.size())));
        push(a[s]);
        break;
      }
      case 15: {
        Tensor &a = any();
        size_t n = a.dim() + (o.hostile ? 1 : 0);
        if (!n)
          break;
        size_t d0 = r.below(n), d1 = r.below(n);
        if (o.hostile && r.chance(1, 30))
          d1 = SIZE_MAX - r.below(4);
        push(a.transpose(d0, d1));
        break;
      }
      case 16: {
        Tensor &a = any();
        Shape s = gen_reshape(r, a.numel());
        std::vector<long long> v(s.begin(), s.end());
        if (!v.empty() && r.chance(1, 3))
          v[r.below(v.size())] = -1;
        if (o.hostile && !v.empty() && r.chance(1, 4))
          v[r.below(v.size())] = r.range(-3, 6);
        push(a.reshape(to_dv(v)));
        break;
      }
      case 17: {
        Tensor &a = any(), &b = any();
        push(a.reshape_as(b));
        break;
      }
      case 18:
        push(any().detach());
        break;
      case 19: { // in place, only on tensors of our own
        Tensor &a = pool[r.below(pool.size())], &b = any();
        bool guard = false;
        if (!is_f(a.type()))
          guard = mag(a) > 100 || mag(b) > 100;
        if (guard)
          break;
        if (o.shared)
          break; // it might be a view of somebody else's tensor
        a += b;
        show(a);
        break;
      }
      case 20:
      case 21: {
        if (!o.backward)
          break;
        std::vector<size_t> tracked;
        for (size_t q = 0; q < pool.size(); ++q)
          if (pool[q].requires_grad())
            tracked.push_back(q);
        size_t at = r.below(pool.size());
        if (!tracked.empty() && (!o.hostile || r.chance(4, 5)))
          at = r.pick(tracked);
        else if (!o.hostile)
          break;
        Tensor &a = pool[at];
        if (a.numel() == 1 || (o.hostile && r.chance(1, 4)))
          a.backward();
        else
          a.sum().backward();
        ++st.backwards;
        break;
      }
      case 22: {
        Tensor &a = pool[r.below(pool.size())];
        Tensor g = a.grad();
        show(g);
        if (r.chance(1, 4))
          a.zero_grad();
        if (r.chance(1, 4) && g.to_string() != "[]")
          push(std::move(g));
        break;
      }
      case 23: {
        Tensor &a = pool[r.below(pool.size())];
        if (r.chance(1, 3))
          a.retain_grad(r.chance(1, 2));
        else if (o.hostile || is_f(a.type()))
          a.requires_grad(r.chance(3, 4));
        break;
      }
      case 24: {
        size_t q = r.below(pool.size());
        switch (r.below(5)) {
        case 0:
          if (pool.size() > 2)
            pool.erase(pool.begin() + q);
          break;
        case 1: {
          Tensor &s = pool[q];
          s = pool[q]; // self-assignment
          break;
        }
        case 2: {
          Tensor x(std::move(pool[q]));
          pool[q] = std::move(x);
          break;
        }
        case 3:
          pool[q] = pool[r.below(pool.size())];
          break;
        default: {
          Tensor e;
          show(e);
          Tensor f = Tensor::zeros_like(pool[q]);
          e = f;
          e += Tensor::ones_like(pool[q]);
          show(e);
        }
        }
        break;
      }
      default: {
        Tensor &a = any();
        tr += strf("%zu %zu %d %d %d", a.numel(), a.dim(), (int)a.type(),
                   (int)a.is_contiguous(), (int)a.all());
        (void)a.stride();
        show(a);
      }
      }
    } catch (const Violation &) {
      throw;
    } catch (const Discard &) {
      throw;
    } catch (const std::exception &e) {
      ++st.rejected;
      tr += "rejected";
    }
  }
  for (auto &t : pool) {
    show(t);
    show(t.grad());
  }
  return tr;
}
