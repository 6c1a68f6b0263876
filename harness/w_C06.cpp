// C06: rearranging operations move elements around and nothing else.
// RULE: one reshape, reshape_as, transpose, cat, clone or contiguous per case,
// on drawn layouts. Distinct by operation, types, shapes.
#include "prog.hpp"
const char *const kProperty = "C06";
uint64_t n_cases(bool th) { return th ? 600000 : 48000; }

static void check_layout(const Tensor &t, const MT &m, bool fresh,
                         const char *what) {
  // stride() has to describe where the elements are
  auto st = t.stride();
  if (st.size() != m.sz.size())
    failf("%s: stride() has %zu entries for %zu dimensions", what, st.size(),
          m.sz.size());
  if (m.n() == 0)
    return;
  size_t below = 1;
  bool all_gt1 = true;
  for (size_t d = m.sz.size(); d-- > 0;) {
    if (m.sz[d] > 1) {
      long long want = (long long)m.ix[below] - (long long)m.ix[0];
      if (st[d] != want)
        failf("%s: stride()[%zu] is %lld, but the elements are %lld apart",
              what, d, (long long)st[d], want);
    } else {
      all_gt1 = false;
      if (fresh && st[d] != (long long)below)
        failf("%s: stride()[%zu] is %lld, expected %zu", what, d,
              (long long)st[d], below);
    }
    below *= m.sz[d];
  }
  bool ct = t.is_contiguous();
  if (fresh && !ct)
    failf("%s: is_contiguous() is false for a new tensor", what);
  if (ct && !m_contig(m))
    failf("%s: is_contiguous() is true for scattered elements", what);
  if (!ct && all_gt1 && m_contig(m))
    failf("%s: is_contiguous() is false for consecutive elements", what);
  count("layouts_checked");
  count(ct ? "contiguous" : "not_contiguous");
}
void run_case(Ctx &c) {
  if (c.idx % 5000 < 2)
    return giant(c);
  if (c.idx % 60000 >= 2 && c.idx % 60000 < 6)
    return million(c, M_MOVE, (unsigned)(c.idx % 60000 - 2 + c.idx / 60000));
  Rng &r = c.r;
  types t = (types)(c.idx % 6);
  int kind = (int)(c.idx / 6 % 6);
  Shape s = gen_shape(r, r.chance(1, 7) ? 900 : 100);
  P x = mk_layout(r, t, s, r.chance(1, 3) ? P_FULL : P_UNIQUE, &c);
  if (is_f(t) && r.chance(1, 8))
    set_req(x);
  used(c, x);
  std::string before = x.t.to_string();
  logf(c, "%s %s", kDT[t], shape_str(s).c_str());
  check_layout(x.t, x.m, false, "source");
  std::string key = strf("%d %d %s ", kind, t, shape_str(s).c_str());
  switch (kind) {
  case 0: { // permutations by transpositions
    P y;
    y.t = x.t;
    y.m = x.m;
    if (s.size() < 2)
      throw Discard{};
    std::vector<std::pair<size_t, size_t>> done;
    for (int k = 0, n = 1 + (int)r.below(5); k < n; ++k) {
      size_t d0 = r.below(s.size()), d1 = r.below(s.size() - 1);
      if (d1 >= d0)
        ++d1;
      done.push_back({d0, d1});
      logf(c, "  transpose(%zu,%zu)", d0, d1);
      key += strf("%zu%zu ", d0, d1);
      y.m = m_transpose(y.m, d0, d1);
      Tensor z = r.chance(1, 2) ? y.t.transpose(d0, d1)
                                : r.chance(1, 2) ? Tensor::transpose(y.t, d0, d1)
                                                  : INNC::transpose(y.t, d0, d1);
      y.t = std::move(z);
      verify(y, "transpose");
      check_layout(y.t, y.m, false, "transpose");
    }
    for (size_t k = done.size(); k-- > 0;) { // and back
      Tensor z = y.t.transpose(done[k].second, done[k].first);
      y.t = std::move(z);
    }
    same(y.t, x.t, "transposed and transposed back");
    break;
  }
  case 1: // reshape
  case 2: {
    P y;
    y.t = x.t;
    y.m = x.m;
    for (int k = 0, n = 1 + (int)r.below(3); k < n; ++k) {
      Shape g = gen_reshape(r, y.m.n(), 6);
      std::vector<long long> v(g.begin(), g.end());
      if (!v.empty() && y.m.n() && r.chance(1, 3))
        v[r.below(v.size())] = -1;
      key += vec_str(v);
      logf(c, "  reshape(%s)%s", vec_str(v).c_str(),
           kind == 2 ? " by reshape_as" : "");
      int sh = reshape_shares(y);
      MT m = sh == 1 ? m_reshape_view(y.m, g) : m_reshape_copy(y.m, g);
      Tensor z;
      if (kind == 2)
        z = y.t.reshape_as(Tensor::zeros(to_sv(g), r.dt()));
      else if (r.chance(1, 2))
        z = y.t.reshape(to_dv(v));
      else
        z = r.chance(1, 2) ? Tensor::reshape(y.t, to_dv(v))
                           : INNC::reshape(y.t, to_dv(v));
      verify(z, m, "reshape");
      if (sh >= 0)
        check_layout(z, m, false, "reshape");
      y.t = std::move(z);
      if (sh < 0 && m.n()) { // may or may not share: continue from a copy
        Tensor q = y.t.clone();
        y.t = std::move(q);
        m = m_clone(m);
      }
      y.m = std::move(m);
      if (y.m.sz.size() >= 2 && r.chance(1, 2)) {
        size_t d = r.below(y.m.sz.size() - 1);
        Tensor q = y.t.transpose(d, d + 1);
        y.t = std::move(q);
        y.m = m_transpose(y.m, d, d + 1);
        logf(c, "  transpose(%zu,%zu)", d, d + 1);
        verify(y, "transpose");
      }
    }
    break;
  }
  case 3: { // contiguous and clone
    MT m = m_clone(x.m);
    Tensor a = x.t.contiguous(), b = x.t.clone();
    verify(a, m, "contiguous");
    check_layout(a, m, true, "contiguous");
    verify(b, m, "clone");
    check_layout(b, m, true, "clone");
    break;
  }
  case 4: { // cat of several tensors
    if (s.empty())
      throw Discard{};
    size_t dim = r.below(s.size());
    std::vector<P> ps;
    size_t n = r.chance(1, 10) ? 5 + r.below(20) : 1 + r.below(4);
    for (size_t k = 0; k < n; ++k) {
      Shape q = s;
      q[dim] = r.below(4);
      types tt = r.chance(1, 2) ? t : r.dt();
      ps.push_back(mk_layout(r, tt, q, P_SMALL, &c));
      if (is_f(tt) && r.chance(1, 6))
        set_req(ps.back());
      used(c, ps.back());
      key += strf("%zu", q[dim]);
      logf(c, "  part %s %s", kDT[tt], shape_str(q).c_str());
    }
    std::vector<const MT *> ms;
    std::vector<Tensor> ts;
    std::vector<std::string> b;
    for (auto &p : ps) {
      ms.push_back(&p.m);
      ts.push_back(alias(p.t));
      b.push_back(p.t.to_string());
    }
    logf(c, "  cat along %zu", dim);
    MT m = m_cat(ms, dim);
    bool ns = r.chance(1, 2); // the functions of the namespace are the same
    Tensor z = dim == 0 && r.chance(1, 2) ? ns ? INNC::cat(ts) : Tensor::cat(ts)
               : ns                       ? INNC::cat(ts, dim)
                                          : Tensor::cat(ts, dim);
    verify(z, m, "cat");
    check_layout(z, m, true, "cat");
    for (size_t k = 0; k < ps.size(); ++k)
      if (ps[k].t.to_string() != b[k])
        failf("cat changed operand %zu", k);
    count("cat_parts", n);
    break;
  }
  default: { // taking apart and putting together again
    if (s.empty() || x.m.n() == 0)
      throw Discard{};
    size_t dim = r.below(s.size());
    std::vector<Tensor> parts;
    size_t at = 0;
    while (at < s[dim]) {
      size_t w = 1 + r.below(s[dim] - at);
      std::string str;
      for (size_t d = 0; d < dim; ++d)
        str += ":,";
      str += strf("%zu:%zu", at, at + w);
      parts.push_back(x.t[str]);
      logf(c, "  part [\"%s\"]", str.c_str());
      at += w;
    }
    Tensor z = Tensor::cat(parts, dim);
    same(z, x.t, "parts put together");
    check_layout(z, m_clone(x.m), true, "cat");
    // flatten and restore
    long long n = (long long)x.m.n();
    Tensor f = x.t.reshape(to_dv({n})), g = f.reshape_as(x.t);
    same(g, x.t, "flattened and restored");
    key += strf("%zu", parts.size());
    break;
  }
  }
  if (x.t.to_string() != before)
    failf("the operation changed its source");
  if (x.m.n())
    distinct(key);
}
