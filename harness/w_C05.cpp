// C05: views share elements with their source, copies do not.
// RULE: drawn histories of view-making, copying and in-place additions over a
// pool of tensors; after every write all tensors of the pool are compared with
// the model. Distinct by history.
#include "prog.hpp"
const char *const kProperty = "C05";
uint64_t n_cases(bool th) { return th ? 160000 : 12000; }

void run_case(Ctx &c) {
  Rng &r = c.r;
  std::vector<P> pool;
  for (int i = 0, n = 1 + (int)r.below(2); i < n; ++i) {
    types t = r.dt();
    Shape s = gen_shape(r, r.chance(1, 16) ? 700 : 48);
    pool.push_back(mk_layout(r, t, s, P_SMALL, &c));
    logf(c, "  t%zu = %s %s", pool.size() - 1, kDT[t], shape_str(s).c_str());
  }
  const unsigned ops = O_VIEWS | O_COPIES | O_PLUS | O_DETACH | O_ADD | O_SUB |
                       O_NEG | O_ABS | O_SUM | O_MAX;
  Limits l;
  l.maxabs = 1e6;
  unsigned writes = 0, shared = 0;
  for (int step = 0, n = 6 + (int)r.below(14); step < n; ++step) {
    if (pool.size() < 12 && r.chance(3, 5)) {
      P o;
      unsigned op;
      // views are what this is about
      unsigned w = r.chance(1, 2) ? (O_VIEWS | O_PLUS | O_DETACH) : ops;
      if (apply_random(c, pool, w | O_DETACH, l, o, nullptr, &op)) {
        verify(o, op_name(op));
        pool.push_back(std::move(o));
      }
      continue;
    }
    size_t i = r.below(pool.size());
    if (r.chance(1, 10)) { // drop a handle; its views must survive
      if (pool.size() > 2) {
        logf(c, "  drop t%zu (indices move)", i);
        pool.erase(pool.begin() + i);
        count("handles_dropped");
      }
      continue;
    }
    P &a = pool[i];
    Shape bs = gen_bcast_partner(r, a.m.sz, true);
    P b = mk_layout(r, is_f(a.m.dt) ? r.dt() : r.idt(), bs, P_NONZERO);
    bool self = r.chance(1, 10);
    size_t from = i;
    if (!self && r.chance(1, 4)) {
      size_t j = r.below(pool.size());
      Shape o;
      if (m_iadd_defined(a.m, pool[j].m) && bcast(a.m.sz, pool[j].m.sz, o) &&
          o == a.m.sz) {
        if (pool[j].m.st == a.m.st)
          count("adds_within_one_storage");
        from = j;
        b.t = pool[j].t;
        b.m = pool[j].m;
      }
    }
    if (self) {
      b.t = a.t;
      b.m = a.m;
    }
    if (a.m.maxabs() + b.m.maxabs() > (a.m.dt == INNC::i8 ? 100 : 1e4L))
      continue;
    if (!m_iadd(a.m, b.m))
      continue;
    logf(c, "  t%zu += %s", i,
         self || from != i ? strf("t%zu", from).c_str() : m_render(b.m).c_str());
    if (r.chance(1, 2))
      a.t += b.t;
    else {
      Tensor h;
      h = a.t; // another handle
      h += b.t;
    }
    if (a.m.n())
      ++writes;
    for (size_t k = 0; k < pool.size(); ++k) {
      if (k != i && pool[k].m.st == a.m.st && pool[k].m.n())
        ++shared;
      verify(pool[k], strf("t%zu after t%zu +=", k, i).c_str());
    }
  }
  count("writes", writes);
  count("views_of_written_storage_observed", shared);
  if (!writes)
    throw Discard{};
  if (shared)
    distinct(c.log);
}
