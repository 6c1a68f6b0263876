// C23: gradient descent follows the trajectory that a reference computes.
// RULE: one training run per case (five model families, enumerated by index),
// compared with the reference in every round. Distinct by configuration and
// final parameters.
#include "prog.hpp"
const char *const kProperty = "C23";
uint64_t n_cases(bool th) { return th ? 40000 : 3200; }

// All digits of the elements.
static std::vector<ld> exact(const Tensor &t) {
  auto v = vals(t.type() == INNC::f32 ? t * Tensor(1073741824.f)
                                      : t * Tensor(1152921504606846976.));
  for (auto &x : v)
    x *= t.type() == INNC::f32 ? 0x1p-30L : 0x1p-60L;
  return v;
}
// `sc` scales the tolerance
static void close(const Tensor &t, const std::vector<ld> &want,
                  const std::vector<ld> &sc, ld rel, const char *what,
                  int round) {
  auto v = exact(t);
  if (v.size() != want.size())
    failf("%s has %zu elements, expected %zu", what, v.size(), want.size());
  for (size_t i = 0; i < v.size(); ++i)
    if (!(fabsl(v[i] - want[i]) <= rel * (1 + fabsl(want[i]) + sc[i])))
      failf("round %d: element %zu of %s is %.15Lg, expected %.15Lg", round, i,
            what, v[i], want[i]);
  count("elements_compared", v.size());
}
void run_case(Ctx &c) {
  Rng &r = c.r;
  // features x samples; the parameters are broadcast over the samples
  size_t n = 2 + r.below(6), d = 1 + r.below(4);
  if (r.chance(1, 60))
    n = 100 + r.below(400);
  int model = (int)(c.idx % 5), rounds = 3 + (int)r.below(10);
  if (r.chance(1, 80))
    rounds = 200 + (int)r.below(200);
  double lr = 1.0 / (double)(16 << r.below(3));
  types pt = r.chance(1, 4) ? INNC::f32 : INNC::f64;
  ld rel = pt == INNC::f32 ? 4e-5L : 1e-11L;
  if (pt == INNC::f64)
    r.no_f32 = true;
  g_grad_rel = rel;
  size_t all = n, batch = 0;
  if (r.chance(1, 3)) { // every round sees some of the samples
    batch = n;
    all = n + 1 + r.below(2 * n);
  }
  P xs = mk_layout(r, r.chance(1, 3) ? r.idt() : r.fdt(), {all, d}, P_DYADIC,
                   &c),
    ys = mk_layout(r, pt, {all, d}, P_DYADIC, &c);
  // The leaves, and the parameters of the model: the leaves themselves, or
  // views of one leaf that are taken anew in every round.
  std::vector<P> leaves, ps;
  std::vector<Shape> shapes = {{d}, {1, d}};
  if (model >= 2)
    shapes.push_back({n, 1});
  int where = (int)r.below(4);
  P flat;
  size_t total = 0;
  for (auto &s : shapes)
    total += numel_of(s);
  auto part = [](size_t b, size_t e, size_t k) {
    Sl q;
    q.hb = q.he = q.hs = true;
    q.b = (long long)b, q.e = (long long)e, q.s = (long long)k;
    return q;
  };
  // views of the flat tensor, with every second element, and their shapes
  auto view = [&](P &f, std::vector<P> &out) {
    size_t at = 0;
    for (auto &s : shapes) {
      size_t k = numel_of(s);
      Sl q = part(at, at + 2 * k, 2);
      at += 2 * k;
      P v, w;
      v.t = f.t[strf("%lld:%lld:%lld", q.b, q.e, q.s)];
      m_slice(f.m, {q}, v.m);
      std::vector<long long> dv(s.begin(), s.end());
      w.t = v.t.reshape(to_dv(dv));
      w.m = m_reshape_view(v.m, s);
      out.push_back(std::move(w));
    }
  };
  if (where == 0) { // one tensor each
    for (auto &s : shapes)
      leaves.push_back(mk(r, pt, s, P_DYADIC));
  } else if (where == 1) { // each somewhere in a larger tensor
    for (auto &s : shapes)
      leaves.push_back(mk_layout(r, pt, s, P_DYADIC, &c));
  } else if (where == 2) { // all in one tensor that is not tracked itself
    flat = mk(r, pt, {2 * total}, P_DYADIC);
    view(flat, leaves);
  } else // all parts of one tracked tensor
    leaves.push_back(mk(r, pt, {2 * total}, P_DYADIC));
  for (auto &p : leaves)
    set_req(p);
  bool zero = r.chance(2, 3); // otherwise gradients accumulate (momentum-like)
  bool freeze = leaves.size() > 1 && r.chance(1, 4), rest = r.chance(1, 4);
  logf(c,
       "model %d, %zu samples of %zu, %zu features, %s parameters of kind %d, "
       "lr %g, %d rounds%s%s%s",
       model, n, all, d, kDT[pt], where, lr, rounds,
       zero ? "" : ", gradients accumulate",
       freeze ? ", parameters are frozen at times" : "",
       rest ? ", graphs are kept" : "");
  std::vector<std::vector<ld>> acc;
  for (auto &p : leaves)
    acc.push_back(std::vector<ld>(p.m.n(), 0));
  std::vector<Tensor> kept;
  std::vector<bool> released(leaves.size());
  auto outside = flat.m.st ? flat.m.st->v : std::vector<ld>();
  for (int k = 0; k < rounds; ++k) {
    // the model starts from the values of the parameters
    g_tape.n.clear();
    std::vector<bool> frozen;
    for (auto &p : leaves) {
      bool f = freeze && frozen.size() + 1 < leaves.size() && r.chance(1, 3);
      frozen.push_back(f);
      p.t.requires_grad(!f);
      p.m.req = !f;
      p.m.node.assign(p.m.n(), -1);
      if (!f)
        for (auto &q : p.m.node)
          q = g_tape.leaf();
      p.m.st->err = 0;
    }
    ps.clear();
    if (where == 3)
      view(leaves[0], ps);
    else
      for (auto &p : leaves) {
        P q;
        q.t = alias(p.t);
        q.m = p.m;
        ps.push_back(std::move(q));
      }
    P x, y;
    if (batch) {
      size_t step = 1 + r.below((all - 1) / (n - 1));
      size_t at = r.below(all - (n - 1) * step);
      Sl q = part(at, at + (n - 1) * step + 1, step);
      std::string str = strf("%lld:%lld:%lld", q.b, q.e, q.s);
      x.t = xs.t[str];
      m_slice(xs.m, {q}, x.m);
      y.t = ys.t[str];
      m_slice(ys.m, {q}, y.m);
    } else {
      x.t = alias(xs.t);
      x.m = xs.m;
      y.t = alias(ys.t);
      y.m = ys.m;
    }
    P h, loss;
    h.t = x.t * ps[0].t + ps[1].t;
    h.m = m_bin(B_ADD, m_bin(B_MUL, x.m, ps[0].m), ps[1].m);
    P e;
    e.t = h.t - y.t;
    e.m = m_bin(B_SUB, h.m, y.m);
    if (e.m.maxabs() > 1e4L)
      throw Discard{};
    switch (model) {
    case 0: // mean squared error
      loss.t = (e.t * e.t).mean();
      loss.m = m_mean(m_bin(B_MUL, e.m, e.m));
      break;
    case 1: { // through views
      Tensor et = e.t.transpose(0, 1);
      MT em = m_transpose(e.m, 0, 1);
      Sl one;
      one.hs = true;
      one.s = -1;
      Tensor er = et["::-1"];
      MT erm;
      m_slice(em, {one}, erm);
      Tensor f = er.reshape(to_dv({-1}));
      MT fm = m_reshape_copy(erm, {erm.n()});
      loss.t = (f * f).mean();
      loss.m = m_mean(m_bin(B_MUL, fm, fm));
      break;
    }
    case 2: { // a weight per sample
      P w;
      w.t = e.t * ps[2].t;
      w.m = m_bin(B_MUL, e.m, ps[2].m);
      std::vector<Tensor> v;
      v.push_back(alias(w.t));
      v.push_back(alias(e.t));
      Tensor cc = Tensor::cat(v, 1);
      MT cm = m_cat({&w.m, &e.m}, 1);
      loss.t = (cc * cc).mean();
      loss.m = m_mean(m_bin(B_MUL, cm, cm));
      break;
    }
    case 3: { // a quotient
      P q, s, sq;
      Tensor one = Tensor(1.0);
      P om = mk(INNC::f64, {}, {1});
      sq.t = e.t * e.t;
      sq.m = m_bin(B_MUL, e.m, e.m);
      s.t = sq.t + one;
      s.m = m_bin(B_ADD, sq.m, om.m);
      q.t = (sq.t + ps[2].t * ps[2].t) / s.t;
      q.m = m_bin(B_DIV,
                  m_bin(B_ADD, sq.m, m_bin(B_MUL, ps[2].m, ps[2].m)), s.m);
      loss.t = q.t.mean();
      loss.m = m_mean(q.m);
      break;
    }
    default: { // a regulariser, and a part that is detached
      Tensor det = h.t.detach();
      MT dm = m_detach(h.m);
      Tensor f = e.t * e.t + det * ps[2].t;
      MT fm = m_bin(B_ADD, m_bin(B_MUL, e.m, e.m), m_bin(B_MUL, dm, ps[2].m));
      Tensor reg = (ps[0].t * ps[0].t).sum();
      MT rm = m_sum(m_bin(B_MUL, ps[0].m, ps[0].m));
      Tensor reg2 = (ps[2].t * ps[2].t).sum();
      MT rm2 = m_sum(m_bin(B_MUL, ps[2].m, ps[2].m));
      loss.t = f.mean() + reg + reg2;
      loss.m = m_bin(B_ADD, m_bin(B_ADD, m_mean(fm), rm), rm2);
    }
    }
    ld big = std::max({e.m.maxabs() * e.m.maxabs(), h.m.maxabs(), 1.0L});
    for (auto &p : ps)
      big = std::max(big, p.m.maxabs() * p.m.maxabs() * (ld)p.m.n());
    close(loss.t, {loss.m.val(0)}, {4 * big}, rel, "the loss", k);
    loss.t.backward();
    std::vector<ld> g, ag;
    g_tape.grad(loss.m.node[0], g, ag);
    for (size_t i = 0; i < leaves.size(); ++i) {
      P &p = leaves[i];
      if (p.t.requires_grad() == frozen[i])
        failf("parameter %zu: requires_grad() was changed", i);
      std::vector<ld> sc(p.m.n(), 0);
      if (!frozen[i]) {
        released[i] = false;
        for (size_t q = 0; q < p.m.n(); ++q) {
          int nd = p.m.node[q];
          acc[i][q] += nd < (int)g.size() ? g[nd] : 0;
          sc[q] = nd < (int)ag.size() ? ag[nd] : 0;
          if (fabsl(acc[i][q]) > 1e3L)
            throw Discard{};
        }
        std::string what = strf("the gradient of parameter %zu", i);
        close(p.t.grad(), acc[i], sc, rel, what.c_str(), k);
        acc[i] = exact(p.t.grad()); // rounding errors do not add up
      } else if (!released[i] && has_grad(p.t)) // of an earlier round
        close(p.t.grad(), acc[i], sc, rel, "a frozen parameter's gradient", k);
      if (!frozen[i]) {
        Tensor step = p.t.grad() * Tensor(-lr);
        p.t.detach() += step;
      }
      std::vector<ld> now;
      for (size_t q = 0; q < p.m.n(); ++q)
        now.push_back(p.m.val(q) - (frozen[i] ? 0 : (ld)lr * acc[i][q]));
      close(p.t, now, sc, rel, strf("parameter %zu", i).c_str(), k);
      auto is = exact(p.t);
      for (size_t q = 0; q < p.m.n(); ++q)
        p.m.st->v[p.m.ix[q]] = round_to(pt, is[q]);
      if (zero && !frozen[i]) {
        released[i] = r.chance(1, 4);
        if (released[i])
          p.t.grad().release(); // starts from zero as well
        else
          p.t.zero_grad();
        std::fill(acc[i].begin(), acc[i].end(), 0);
      }
    }
    // what lies between the parameters stays as it is
    if (flat.m.st) {
      auto v = exact(flat.t);
      for (size_t q = 1; q < v.size(); q += 2)
        if (v[q] != outside[q])
          failf("round %d: element %zu of the tensor around the parameters "
                "changed from %.15Lg to %.15Lg",
                k, q, outside[q], v[q]);
    }
    if (rest)
      kept.push_back(std::move(loss.t));
    count("rounds");
  }
  count(strf("parameters_of_kind_%d", where));
  distinct(c.log + leaves[0].t.to_string());
}
