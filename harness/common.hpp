// Common parts of the workload drivers: PRNG, case loop, shadow model of
// tensors (explicit element lists instead of strides), scalar autograd tape,
// and observation of real tensors through INNC's public API only.
#pragma once
#include "INNC/INNC.hpp"
#include <algorithm>
#include <cfloat>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

using INNC::SignedVec;
using INNC::SizeVec;
using INNC::Tensor;
using INNC::TensorInit;
using INNC::types;
using ld = long double;
typedef std::vector<size_t> Shape;

extern const char *const kDT[6];
inline bool is_f(types t) { return t >= INNC::f32; }
inline types wider(types a, types b) { return a < b ? b : a; }

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long long range(long long a, long long b) { // inclusive
    return a + (long long)below((uint64_t)(b - a) + 1);
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <typename T> const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
  bool no_f32 = false; // draw f64 instead
  types dt() {
    types t = (types)below(6);
    return t == INNC::f32 && no_f32 ? INNC::f64 : t;
  }
  types fdt() { return no_f32 ? INNC::f64 : (types)(4 + below(2)); }
  types idt() { return (types)below(4); }
};
uint64_t mix(uint64_t a, uint64_t b);
// Relative tolerance for gradients: of f32 programs, or of programs without
// f32. Reset before every case.
extern ld g_grad_rel;
const ld kGradRelF32 = 4e-5L, kGradRelF64 = 1e-11L;

// ---------------------------------------------------------------- verdicts
struct Violation : std::runtime_error {
  using std::runtime_error::runtime_error;
};
// A case that turned out to be outside the property's domain.
struct Discard {};

std::string strf(const char *f, ...) __attribute__((format(printf, 1, 2)));

struct Ctx {
  Rng r;
  uint64_t idx = 0;      // global index of the case
  uint64_t seed = 0;     // seed of the case
  std::string log;       // what the case did, for the replay file
  bool thorough = false;
  explicit Ctx(uint64_t s) : r(s), seed(s) {}
};
extern Ctx *g_ctx; // the case in flight, for crash reports

void logf(Ctx &c, const char *f, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void failf(const char *f, ...)
    __attribute__((format(printf, 1, 2)));

// Counters that end up in the evidence file.
void count(const std::string &key, uint64_t n = 1);
// Distinct non-trivial situations observed (hashed).
void distinct(const std::string &what);
void sample(const std::string &s);
// A listed finding was observed (see known_findings.txt).
void known_finding(const std::string &id);
void trace(const std::string &s); // appended to --trace output (hash per case)

// ---------------------------------------------------------------- shapes
size_t numel_of(const Shape &s);
std::string shape_str(const Shape &s);
SizeVec to_sv(const Shape &s);
SignedVec to_dv(const std::vector<long long> &s);
Shape from_sv(const SizeVec &s);
Shape gen_shape(Rng &r, size_t maxnumel = 64, unsigned maxrank = 5,
                bool allow_zero = true);
bool next_index(Shape &i, const Shape &s); // odometer
bool bcast(const Shape &a, const Shape &b, Shape &out);
// a shape that broadcasts with s (never 0 against 1)
Shape gen_bcast_partner(Rng &r, const Shape &s, bool only_into = false);
// shapes a,b that are broadcast compatible
void gen_bcast_pair(Rng &r, Shape &a, Shape &b, size_t maxnumel = 64);
// a shape pair that is not broadcast compatible
void gen_nobcast_pair(Rng &r, Shape &a, Shape &b);
// factorise into another shape with the same number of elements
Shape gen_reshape(Rng &r, size_t n, unsigned maxrank = 5);

// ---------------------------------------------------------------- values
ld round_to(types t, ld v); // store v in an element of type t
enum Prof { P_SMALL, P_UNIQUE, P_WIDE, P_SPECIAL, P_NONZERO, P_DYADIC, P_FULL };
std::vector<ld> gen_vals(Rng &r, types t, size_t n, Prof p);
// raw memory holding the values as elements of type t
std::vector<uint8_t> pack(types t, const std::vector<ld> &v);

// ---------------------------------------------------------------- model
struct Tape {
  struct Edge {
    int n;
    ld d;  // partial derivative
    ld ad; // its magnitude, enlarged where it is not known exactly
  };
  struct Node {
    std::vector<Edge> in;
  };
  std::vector<Node> n;
  int leaf() {
    n.emplace_back();
    return (int)n.size() - 1;
  }
  int op(std::initializer_list<Edge> in) {
    n.emplace_back();
    for (auto &p : in)
      if (p.n >= 0)
        n.back().in.push_back(p);
    return (int)n.size() - 1;
  }
  int copy(int from) { return op({{from, 1, 1}}); }
  // adjoints of every node for seed root (1), and the sum of absolute path
  // contributions, which scales the tolerance
  void grad(int root, std::vector<ld> &g, std::vector<ld> &ag,
            const std::set<int> *blocked = nullptr) const;
};
extern Tape g_tape;

struct MStore {
  std::vector<ld> v;
  ld err = 0; // bound of the rounding errors that the real elements may have
};
int new_id();
struct MT {
  int id = new_id(); // copies of an MT are handles of one tensor
  types dt = INNC::i8;
  Shape sz;
  std::shared_ptr<MStore> st;
  std::vector<size_t> ix; // logical (row-major) element -> storage cell
  bool req = false;
  bool leaf = true;
  std::vector<int> node; // tape node per element, if req
  ld val(size_t i) const { return st->v[ix[i]]; }
  ld err() const { return st->err; }
  ld maxabs() const;
  size_t n() const { return ix.size(); }
};

MT m_fresh(types t, const Shape &s, const std::vector<ld> &v);
struct Sl { // one dimension of a slice
  bool index = false;
  long long i = 0;
  bool hb = false, he = false, hs = false;
  long long b = 0, e = 0, s = 1;
};
// Python semantics; false: out of range index
bool m_slice(const MT &a, const std::vector<Sl> &sl, MT &out);
std::string sl_str(Rng &r, const std::vector<Sl> &sl); // random spelling
std::vector<Sl> gen_slice(Rng &r, const Shape &s, bool allow_index = true,
                          bool keep_nonempty = false);
MT m_transpose(const MT &a, size_t d0, size_t d1);
MT m_reshape_view(const MT &a, const Shape &s); // shares storage
MT m_reshape_copy(const MT &a, const Shape &s);
MT m_cat(const std::vector<const MT *> &v, size_t dim);
enum Bin { B_ADD, B_SUB, B_MUL, B_DIV };
extern const char *const kBin[4];
ld ref_bin(Bin op, types lt, ld l, types rt, ld r, types out);
bool bin_overflows(Bin op, types lt, ld l, types rt, ld r); // UB for ints
MT m_bin(Bin op, const MT &a, const MT &b);
enum Cmp { C_LT, C_GT, C_LE, C_GE, C_EQ, C_NE };
extern const char *const kCmp[6];
MT m_cmp(Cmp op, const MT &a, const MT &b);
MT m_neg(const MT &a);
MT m_abs(const MT &a);
MT m_sum(const MT &a);
MT m_mean(const MT &a);
MT m_ext(const MT &a, bool max); // a not empty
bool m_ext_unique(const MT &a, bool max);
MT m_type(const MT &a, types t); // same type: shares
MT m_clone(const MT &a);
MT m_detach(const MT &a);
bool m_iadd(MT &a, const MT &b); // in place; false: int overflow (UB)
// is a += b the same in whatever order the elements are visited: b shows none
// of the cells that a shows, or the same ones in the same places
bool m_iadd_defined(const MT &a, const MT &b);
bool m_contig(const MT &a);      // elements are consecutive storage cells

// ---------------------------------------------------------------- pairs
struct P { // a real tensor and its model
  Tensor t;
  MT m;
  P() = default;
  P(Tensor &&t_, MT &&m_) : t(std::move(t_)), m(std::move(m_)) {}
  P(P &&) = default;
  P &operator=(P &&) = default;
};
P mk(types t, const Shape &s, const std::vector<ld> &v);
P mk(Rng &r, types t, const Shape &s, Prof p);
// as above, but the result is (usually) a non-contiguous, offset or reversed
// view of a bigger tensor
P mk_layout(Rng &r, types t, const Shape &s, Prof p, Ctx *log = nullptr);
// two views of the elements of a, of the same shape: shifted, reversed or
// transposed against each other, or equal. false: a has no such views
bool siblings(Rng &r, P &a, P &x, P &y, std::string &dx, std::string &dy);
// make it a leaf that requires grad
void set_req(P &p);

Tensor real_bin(Bin op, const Tensor &a, const Tensor &b);
Tensor real_cmp(Cmp op, const Tensor &a, const Tensor &b);

// ---------------------------------------------------------------- observers
// parses to_string(); checks that the nesting is that of `s`
bool parse_tensor(const std::string &str, const Shape &s, std::vector<ld> &out);
std::string m_render(const MT &m); // what to_string() must give
std::vector<ld> vals(const Tensor &t);
// full check of a real tensor against its model
void verify(const Tensor &t, const MT &m, const char *what);
inline void verify(const P &p, const char *what) { verify(p.t, p.m, what); }
bool ld_close(ld got, ld want, types t, ld err);
// value equality of two real tensors
void same(const Tensor &a, const Tensor &b, const char *what);
// compares t.grad() with the adjoints of m's nodes
void verify_grad(const Tensor &t, const MT &m, const std::vector<ld> &g,
                 const std::vector<ld> &ag, const char *what);
inline bool has_grad(const Tensor &t) { return t.grad().to_string() != "[]"; }

// expects an exception
template <typename F> void must_throw(F &&f, const std::string &what) {
  bool thrown = false;
  try {
    f();
  } catch (const Violation &) {
    throw;
  } catch (const std::exception &e) {
    thrown = true;
  }
  if (!thrown)
    failf("%s: accepted instead of rejected", what.c_str());
}

// ---------------------------------------------------------------- workload
// Each workload defines these.
extern const char *const kProperty;
void run_case(Ctx &c);
// number of cases per tier; exhaustive prefix handled by the workload itself
uint64_t n_cases(bool thorough);
