// Random operations applied to a real tensor and to its model at once.
#pragma once
#include "common.hpp"

enum Op : unsigned {
  O_ADD = 1u << 0,
  O_SUB = 1u << 1,
  O_MUL = 1u << 2,
  O_DIV = 1u << 3,
  O_NEG = 1u << 4,
  O_ABS = 1u << 5,
  O_MAX = 1u << 6,
  O_MIN = 1u << 7,
  O_SUM = 1u << 8,
  O_MEAN = 1u << 9,
  O_TYPE = 1u << 10,
  O_CLONE = 1u << 11,
  O_CONTIG = 1u << 12,
  O_CAT = 1u << 13,
  O_SLICE = 1u << 14,
  O_TRANSPOSE = 1u << 15,
  O_RESHAPE = 1u << 16,
  O_RESHAPE_AS = 1u << 17,
  O_PLUS = 1u << 18,
  O_DETACH = 1u << 19,
  O_BINS = O_ADD | O_SUB | O_MUL | O_DIV,
  O_VIEWS = O_SLICE | O_TRANSPOSE | O_RESHAPE | O_RESHAPE_AS,
  O_REDUCE = O_MAX | O_MIN | O_SUM | O_MEAN,
  O_COPIES = O_CLONE | O_CONTIG | O_CAT | O_TYPE,
  O_ALL = (1u << 20) - 1,
};
struct Limits {
  size_t maxnumel = 80;
  ld maxabs = 64;   // values beyond this are not made
  ld mindiv = 0.2L; // divisors below this are not used
  bool ties = true; // max/min may have ties
  bool nonempty = false;
};
// Applies one random operation from `ops` to tensors of the pool. Returns
// false if nothing suitable was found; otherwise `out` and (for the log) `src`.
bool apply_random(Ctx &c, std::vector<P> &pool, unsigned ops, const Limits &l,
                  P &out, std::vector<size_t> *src = nullptr,
                  unsigned *which = nullptr);
const char *op_name(unsigned o);
// does reshape() of p share p's elements? 1 yes, 0 no, -1 unspecified
int reshape_shares(const P &p);
std::string vec_str(const std::vector<long long> &v);
// the scalar that sums up everything: a random combination of pool tensors
P make_root(Ctx &c, std::vector<P> &pool, const std::vector<size_t> &use);
// handles of the same tensor
Tensor alias(const Tensor &t);
// elements far out in a tensor of more than 4 GB, most of it never touched
void giant(Ctx &c);
// operations on more than 2^20 elements; `kind` says which
enum Million { M_ARITH, M_CMP, M_REDUCE, M_MOVE, M_SLICE, M_TYPE, M_INIT, M_IADD, M_GRAD };
void million(Ctx &c, Million kind, unsigned k);
// now and then: x is used in all kinds of ways, then one of its elements is
// changed through another handle (what was seen before must not be seen again)
void used(Ctx &c, P &x, bool zeros = false);
