#include "common.hpp"
#include <chrono>
#include <fcntl.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define HAS_SAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define HAS_SAN 1
#endif
#ifdef HAS_SAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

const char *const kDT[6] = {"i8", "i16", "i32", "i64", "f32", "f64"};
const char *const kBin[4] = {"+", "-", "*", "/"};
const char *const kCmp[6] = {"<", ">", "<=", ">=", "==", "!="};
Ctx *g_ctx = nullptr;
Tape g_tape;
// relative tolerance of gradients (they are accumulated in f32)
ld g_grad_rel = kGradRelF32;

uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9e3779b97f4a7c15ull + b + 0x1234567);
  r.next();
  return r.next();
}

static std::string vstrf(const char *f, va_list ap) {
  va_list ap2;
  va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, f, ap2);
  va_end(ap2);
  std::string s(n + 1, 0);
  vsnprintf(s.data(), n + 1, f, ap);
  s.resize(n);
  return s;
}
std::string strf(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  auto s = vstrf(f, ap);
  va_end(ap);
  return s;
}
void logf(Ctx &c, const char *f, ...) {
  if (c.log.size() > 60000)
    return;
  va_list ap;
  va_start(ap, f);
  c.log += vstrf(f, ap);
  c.log += '\n';
  va_end(ap);
}
void failf(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  auto s = vstrf(f, ap);
  va_end(ap);
  throw Violation(s);
}

static std::map<std::string, uint64_t> g_counts;
static std::unordered_set<uint64_t> g_distinct;
static std::vector<std::string> g_samples;
static uint64_t g_trace_hash = 0, g_trace_n = 0;
static std::string g_trace_case;
void count(const std::string &k, uint64_t n) { g_counts[k] += n; }
static uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char ch : s)
    h = (h ^ ch) * 1099511628211ull;
  return h;
}
void distinct(const std::string &s) { g_distinct.insert(hash_str(s)); }
void known_finding(const std::string &id) { count("known_finding:" + id); }
void sample(const std::string &s) {
  if (g_samples.size() < 3)
    g_samples.push_back(s);
}
void trace(const std::string &s) {
  g_trace_hash = mix(g_trace_hash, hash_str(s));
  ++g_trace_n;
}

// ------------------------------------------------------------------ shapes
size_t numel_of(const Shape &s) {
  size_t n = 1;
  for (auto x : s)
    n *= x;
  return n;
}
std::string shape_str(const Shape &s) {
  std::string o = "{";
  for (size_t i = 0; i < s.size(); ++i)
    o += (i ? "," : "") + std::to_string(s[i]);
  return o + "}";
}
SizeVec to_sv(const Shape &s) {
  SizeVec v;
  for (auto x : s)
    v.push_back(x);
  return v;
}
SignedVec to_dv(const std::vector<long long> &s) {
  SignedVec v;
  for (auto x : s)
    v.push_back(x);
  return v;
}
Shape from_sv(const SizeVec &s) { return Shape(s.begin(), s.end()); }

Shape gen_shape(Rng &r, size_t maxnumel, unsigned maxrank, bool allow_zero) {
  if (maxnumel >= 600 && maxrank >= 2 && r.chance(1, 4)) { // big ones
    if (r.chance(1, 80)) { // more elements than 16 bits can count
      static const Shape h[] = {{65536}, {65537}, {70000}, {257, 256},
                                {2, 32769}, {32770, 2}, {66, 1000}};
      return h[r.below(7)];
    }
    if (r.chance(1, 3)) { // long in more than one dimension
      static const size_t e[] = {16, 17, 31, 32, 33, 40, 47, 63, 64, 65, 70};
      Shape s{e[r.below(11)], e[r.below(11)]};
      if (maxrank >= 3 && r.chance(1, 3))
        s.insert(s.begin() + r.below(3), 1 + r.below(numel_of(s) > 1500 ? 2 : 8));
      return s;
    }
    static const size_t d[] = {300, 511, 512, 513, 777, 1000, 1023, 1024, 1025,
                               2047, 2048, 2049, 4095, 4096, 4097};
    Shape s{d[r.below(15)]};
    if (r.chance(1, 2) && s[0] < 1200)
      s.insert(s.begin() + r.below(2), 1 + r.below(4));
    return s;
  }
  if (maxnumel >= 64 && r.chance(1, 16)) { // long dimensions
    static const size_t d[] = {8,  9,  13, 15, 16,  17,  31,  32,  33,  63,
                               64, 65, 99, 100, 127, 128, 129, 255, 256, 257};
    Shape s{d[r.below(20)]};
    while (s.size() < std::min(3u, maxrank) && r.chance(1, 2))
      s.insert(s.begin() + r.below(s.size() + 1), 1 + r.below(4));
    if (maxrank >= 1 && numel_of(s) <= maxnumel * 8)
      return s;
  }
  if (maxrank >= 5 && r.chance(1, 24)) { // many dimensions
    Shape s(r.chance(1, 6) ? 10 + r.below(30) : 6 + r.below(4), 1);
    for (int k = 0; k < 6; ++k)
      if (size_t &x = s[r.below(s.size())]; x == 1 && r.chance(1, 2))
        x = 1 + r.below(3);
    if (numel_of(s) <= maxnumel)
      return s;
  }
  for (;;) {
    static const unsigned w[] = {0, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6};
    unsigned rank = std::min(w[r.below(15)], maxrank);
    Shape s;
    for (unsigned i = 0; i < rank; ++i) {
      static const size_t d[] = {1, 1, 2, 2, 2, 3, 3, 3, 4, 5, 6, 7, 11};
      s.push_back(d[r.below(13)]);
      if (allow_zero && r.chance(1, 40))
        s.back() = 0;
    }
    if (numel_of(s) <= maxnumel)
      return s;
  }
}
bool next_index(Shape &i, const Shape &s) {
  for (size_t d = s.size(); d-- > 0;) {
    if (++i[d] < s[d])
      return true;
    i[d] = 0;
  }
  return false;
}
bool bcast(const Shape &a, const Shape &b, Shape &out) {
  size_t n = std::max(a.size(), b.size());
  out.assign(n, 1);
  for (size_t k = 0; k < n; ++k) {
    size_t x = k < a.size() ? a[a.size() - 1 - k] : SIZE_MAX;
    size_t y = k < b.size() ? b[b.size() - 1 - k] : SIZE_MAX;
    size_t o;
    if (x == SIZE_MAX)
      o = y;
    else if (y == SIZE_MAX)
      o = x;
    else if (x == y)
      o = x;
    else if (x == 1 && y != 0)
      o = y;
    else if (y == 1 && x != 0)
      o = x;
    else
      return false;
    out[n - 1 - k] = o;
  }
  return true;
}
Shape gen_bcast_partner(Rng &r, const Shape &s, bool only_into) {
  Shape o = s;
  if (r.chance(1, 2) && !o.empty())
    o.erase(o.begin(), o.begin() + r.below(o.size() + 1));
  for (auto &x : o)
    if (x > 1 && r.chance(1, 3))
      x = 1;
  if (!only_into && r.chance(1, 4) && o.size() == s.size())
    while (o.size() < 6 && r.chance(1, 2))
      o.insert(o.begin(), r.range(1, 3));
  return o;
}
void gen_bcast_pair(Rng &r, Shape &a, Shape &b, size_t maxnumel) {
  for (;;) {
    a = gen_shape(r, maxnumel);
    b = r.chance(1, 3) ? a : gen_bcast_partner(r, a);
    for (size_t k = 0; k < a.size() && k < b.size(); ++k) {
      size_t &x = a[a.size() - 1 - k], &y = b[b.size() - 1 - k];
      if (x > 1 && x == y && r.chance(1, 6))
        x = 1;
    }
    Shape o;
    if (bcast(a, b, o) &&
        numel_of(o) <= (o.size() > 3 ? 16000u : 80000u) &&
        numel_of(o) <= std::max(maxnumel * 8, std::max(numel_of(a), numel_of(b)))) {
      if (r.chance(1, 2))
        std::swap(a, b);
      return;
    }
  }
}
void gen_nobcast_pair(Rng &r, Shape &a, Shape &b) {
  for (;;) {
    a = gen_shape(r, 48);
    b = r.chance(1, 2) ? gen_bcast_partner(r, a) : gen_shape(r, 48);
    for (auto &x : b)
      if (r.chance(1, 4))
        x = r.below(5);
    if (r.chance(1, 8)) { // one bad dimension between tensors without elements
      b = a = gen_shape(r, 16, 3);
      size_t z = r.below(a.size() + 1), d = r.below(a.size() + 1);
      a.insert(a.begin() + z, 0);
      b.insert(b.begin() + z, 0);
      a.insert(a.begin() + d, r.below(4));
      b.insert(b.begin() + d, r.below(4));
      if (r.chance(1, 3)) // and leading dimensions on one side
      {
        Shape &l = r.chance(1, 2) ? a : b;
        l.insert(l.begin(), r.below(3));
      }
    }
    Shape o;
    if (!bcast(a, b, o) && numel_of(b) <= 64)
      return;
  }
}
Shape gen_reshape(Rng &r, size_t n, unsigned maxrank) {
  Shape s;
  if (n == 0) {
    unsigned k = 1 + r.below(3);
    for (unsigned i = 0; i < k; ++i)
      s.push_back(1 + r.below(4));
    s[r.below(k)] = 0;
    return s;
  }
  size_t left = n;
  while (left > 1 && s.size() + 1 < maxrank) {
    std::vector<size_t> d;
    for (size_t k = 2; k <= left; ++k)
      if (left % k == 0)
        d.push_back(k);
    size_t k = r.pick(d);
    s.push_back(k);
    left /= k;
    if (r.chance(1, 4))
      break;
  }
  if (left > 1)
    s.push_back(left);
  while (s.size() < maxrank && r.chance(1, 4))
    s.insert(s.begin() + r.below(s.size() + 1), 1);
  for (size_t i = s.size(); i > 1; --i)
    std::swap(s[i - 1], s[r.below(i)]);
  return s;
}

// ------------------------------------------------------------------ values
static __int128 wrap(__int128 v, int bits) {
  unsigned __int128 m = ((unsigned __int128)1 << bits) - 1;
  unsigned __int128 u = (unsigned __int128)v & m;
  if (u >> (bits - 1))
    return (__int128)u - ((__int128)1 << bits);
  return (__int128)u;
}
ld round_to(types t, ld v) {
  switch (t) {
  case INNC::f32:
    return (float)v;
  case INNC::f64:
    return (double)v;
  default:
    break;
  }
  static const int bits[] = {8, 16, 32, 64};
  return (ld)wrap((__int128)truncl(v), bits[t]);
}
std::vector<ld> gen_vals(Rng &r, types t, size_t n, Prof p) {
  std::vector<ld> v(n);
  switch (p) {
  case P_SMALL:
    for (auto &x : v)
      x = is_f(t) ? (ld)r.range(-64, 64) / 8 : (ld)r.range(-9, 9);
    break;
  case P_DYADIC: // few significant bits, both signs, no zero
    for (auto &x : v) {
      static const ld c[] = {0.25L, 0.5L, 0.75L, 1, 1.25L, 1.5L, 2, 2.5L, 3, 4};
      x = c[r.below(10)] * (r.chance(1, 2) ? 1 : -1);
      if (!is_f(t))
        x = r.range(1, 4) * (r.chance(1, 2) ? 1 : -1);
    }
    break;
  case P_NONZERO:
    for (auto &x : v) {
      x = r.range(1, 12) * (r.chance(1, 2) ? 1 : -1);
      if (is_f(t))
        x /= 4;
    }
    break;
  case P_UNIQUE: {
    for (size_t i = 0; i < n; ++i)
      v[i] = (ld)((long long)i - (long long)n / 2);
    for (size_t i = n; i > 1; --i)
      std::swap(v[i - 1], v[r.below(i)]);
    if (is_f(t))
      for (auto &x : v)
        x += 0.25L;
    for (auto &x : v)
      x = round_to(t, x);
    break;
  }
  case P_WIDE:
    for (auto &x : v) {
      switch (t) {
      case INNC::i8:
        x = r.range(-128, 127);
        break;
      case INNC::i16:
        x = r.range(-32768, 32767);
        break;
      case INNC::i32:
        x = r.chance(1, 2) ? (ld)r.range(-(1ll << 30), 1ll << 30)
                           : (ld)r.range(-30000, 30000);
        break;
      case INNC::i64:
        x = r.chance(1, 2) ? (ld)r.range(-(1ll << 61), 1ll << 61)
                           : (ld)r.range(-2000000000ll, 2000000000ll);
        break;
      case INNC::f32:
        x = (ld)r.range(-(1 << 23), 1 << 23) / 64;
        break;
      default:
        x = (ld)r.range(-(1ll << 44), 1ll << 44) / 64;
        break;
      }
      if (r.chance(1, 12))
        x = r.range(-1, 1);
    }
    break;
  case P_FULL: // all of the type's range and precision
    for (auto &x : v) {
      static const int bits[] = {8, 16, 32, 64};
      if (!is_f(t)) {
        long long w = (long long)r.next();
        if (r.chance(1, 2)) // of any magnitude
          w >>= r.below(63);
        if (r.chance(1, 4)) // next to where float and double round
          w = (1ll << r.range(20, 62)) * (r.chance(1, 2) ? 1 : -1) +
              (r.chance(1, 2) ? 1ll << r.below(40) : 0) + r.range(-1, 1);
        if (r.chance(1, 12))
          w = r.chance(1, 2) ? INT64_MAX : INT64_MIN;
        x = (ld)wrap(w, bits[t]);
        if (r.chance(1, 12))
          x = r.chance(1, 2) ? (ld)((1ull << (bits[t] - 1)) - 1)
                             : -(ld)(1ull << (bits[t] - 1));
        continue;
      }
      bool f = t == INNC::f32;
      ld m = (ld)(long long)(r.next() >> 1) * 0x1p-63L + 1;
      int e = (int)(r.chance(1, 2)   ? r.range(-4, 4)
                    : r.chance(1, 2) ? r.range(-40, 40)
                    : f              ? r.range(-148, 126)
                                     : r.range(-1073, 1022));
      x = ldexpl(m, e) * (r.chance(1, 2) ? 1 : -1);
      if (r.chance(1, 4)) // integers and halves of any magnitude
        x = ldexpl((ld)(long long)(r.next() >> 1), -(int)r.below(63)) / 2;
      if (r.chance(1, 10)) {
        const ld inf = std::numeric_limits<ld>::infinity();
        const ld c[] = {inf, -inf, std::numeric_limits<ld>::quiet_NaN(), -0.0L,
                        0,   1,    f ? (ld)FLT_MAX : (ld)DBL_MAX,
                        f ? (ld)FLT_MIN : (ld)DBL_MIN};
        x = c[r.below(8)];
      }
    }
    break;
  case P_SPECIAL:
    v = gen_vals(r, t, n, P_WIDE);
    if (is_f(t))
      for (auto &x : v)
        if (r.chance(1, 3)) {
          const ld inf = std::numeric_limits<ld>::infinity();
          const ld c[] = {inf, -inf, std::numeric_limits<ld>::quiet_NaN(), -0.0L,
                          0,   1e30L, -1e-30L};
          x = c[r.below(7)];
        }
    break;
  }
  for (auto &x : v)
    x = round_to(t, x);
  return v;
}
std::vector<uint8_t> pack(types t, const std::vector<ld> &v) {
  std::vector<uint8_t> o;
  auto put = [&](auto x) {
    auto p = reinterpret_cast<uint8_t *>(&x);
    o.insert(o.end(), p, p + sizeof x);
  };
  for (auto x : v)
    switch (t) {
    case INNC::i8:
      put((int8_t)x);
      break;
    case INNC::i16:
      put((int16_t)x);
      break;
    case INNC::i32:
      put((int32_t)x);
      break;
    case INNC::i64:
      put((int64_t)x);
      break;
    case INNC::f32:
      put((float)x);
      break;
    default:
      put((double)x);
    }
  return o;
}

// ------------------------------------------------------------------ model
void Tape::grad(int root, std::vector<ld> &g, std::vector<ld> &ag,
                const std::set<int> *blocked) const {
  g.assign(n.size(), 0);
  ag.assign(n.size(), 0);
  g[root] = ag[root] = 1;
  for (int i = root; i >= 0; --i) {
    if (ag[i] == 0)
      continue;
    for (auto &p : n[i].in) {
      if (blocked && blocked->count(p.n))
        continue;
      g[p.n] += g[i] * p.d;
      ag[p.n] += ag[i] * p.ad;
    }
  }
}
int new_id() {
  static int n;
  return ++n;
}
ld MT::maxabs() const {
  ld x = 0;
  for (size_t i = 0; i < n(); ++i)
    if (std::isfinite(val(i)))
      x = std::max(x, fabsl(val(i)));
  return x;
}
MT m_fresh(types t, const Shape &s, const std::vector<ld> &v) {
  MT m;
  m.dt = t;
  m.sz = s;
  m.st = std::make_shared<MStore>();
  m.st->v = v;
  m.ix.resize(v.size());
  for (size_t i = 0; i < v.size(); ++i)
    m.ix[i] = i;
  return m;
}
// result of an operation with its own storage
static MT m_new(types t, const Shape &s, bool req) {
  MT m = m_fresh(t, s, std::vector<ld>(numel_of(s)));
  m.req = req;
  m.leaf = !req;
  if (req)
    m.node.assign(m.n(), -1);
  return m;
}
static void m_track_view(const MT &a, MT &o, const std::vector<size_t> &from) {
  o.req = a.req;
  o.leaf = !a.req;
  o.node.clear();
  if (a.req)
    for (auto k : from)
      o.node.push_back(g_tape.copy(a.node[k]));
}
bool m_slice(const MT &a, const std::vector<Sl> &sl, MT &out) {
  std::vector<std::vector<long long>> sel;
  Shape osz;
  for (size_t d = 0; d < a.sz.size(); ++d) {
    long long n = (long long)a.sz[d];
    Sl s = d < sl.size() ? sl[d] : Sl{};
    std::vector<long long> v;
    if (s.index) {
      long long i = s.i < 0 ? s.i + n : s.i;
      if (i < 0 || i >= n)
        return false;
      v.push_back(i);
    } else {
      // Python's slice.indices()
      __int128 st = s.hs ? s.s : 1;
      __int128 lo = st < 0 ? -1 : 0, hi = st < 0 ? n - 1 : n;
      auto clampi = [&](__int128 x) {
        if (x < 0) {
          x += n;
          if (x < lo)
            x = lo;
        } else if (x > hi)
          x = hi;
        return x;
      };
      __int128 b = s.hb ? clampi(s.b) : (st < 0 ? hi : lo);
      __int128 e = s.he ? clampi(s.e) : (st < 0 ? lo : hi);
      for (__int128 i = b; st > 0 ? i < e : i > e; i += st)
        v.push_back((long long)i);
      osz.push_back(v.size());
    }
    sel.push_back(v);
  }
  out = MT{};
  out.dt = a.dt;
  out.sz = osz;
  out.st = a.st;
  std::vector<size_t> from;
  std::vector<size_t> rowstride(a.sz.size(), 1);
  for (size_t d = a.sz.size(); d-- > 1;)
    rowstride[d - 1] = rowstride[d] * a.sz[d];
  bool empty = false;
  for (auto &v : sel)
    empty |= v.empty();
  if (!empty) {
    Shape i(sel.size(), 0), lim;
    for (auto &v : sel)
      lim.push_back(v.size());
    do {
      size_t k = 0;
      for (size_t d = 0; d < sel.size(); ++d)
        k += rowstride[d] * (size_t)sel[d][i[d]];
      from.push_back(k);
    } while (next_index(i, lim));
  }
  for (auto k : from)
    out.ix.push_back(a.ix[k]);
  m_track_view(a, out, from);
  return true;
}
static std::string num_str(Rng &r, long long x) {
  std::string s = std::to_string(x);
  if (x >= 0 && r.chance(1, 12))
    s = "+" + s;
  else if (x >= 0 && r.chance(1, 12))
    s = "0" + s;
  return s;
}
std::string sl_str(Rng &r, const std::vector<Sl> &sl) {
  auto ws = [&]() -> std::string {
    if (!r.chance(1, 5))
      return "";
    static const char *const k[] = {" ", "  ", "\t", " \t "};
    return k[r.below(4)];
  };
  std::string o;
  for (size_t d = 0; d < sl.size(); ++d) {
    if (d)
      o += ",";
    auto &s = sl[d];
    if (s.index) {
      o += ws() + num_str(r, s.i) + ws();
      continue;
    }
    if (!s.hb && !s.he && !s.hs) {
      static const char *const k[] = {":", "::", ""};
      o += k[r.below(3)];
      continue;
    }
    o += ws();
    if (s.hb)
      o += num_str(r, s.b);
    o += ws() + ":" + ws();
    if (s.he)
      o += num_str(r, s.e);
    if (s.hs)
      o += ws() + ":" + ws() + num_str(r, s.s) + ws();
    else if (r.chance(1, 4))
      o += ":";
  }
  return o;
}
std::vector<Sl> gen_slice(Rng &r, const Shape &s, bool allow_index,
                          bool keep_nonempty) {
  std::vector<Sl> o;
  size_t k = r.chance(1, 3) ? r.below(s.size() + 1) : s.size();
  for (size_t d = 0; d < k; ++d) {
    Sl x;
    long long n = (long long)s[d];
    if (allow_index && n > 0 && r.chance(1, 4)) {
      x.index = true;
      x.i = r.range(-n, n - 1);
      o.push_back(x);
      continue;
    }
    auto bound = [&]() -> long long {
      if (r.chance(1, 30))
        return r.chance(1, 2) ? r.range(1ll << 40, 1ll << 62)
                              : -r.range(1ll << 40, 1ll << 62);
      if (r.chance(1, 40))
        return r.chance(1, 2) ? INT64_MAX : INT64_MIN;
      return r.range(-n - 2, n + 2);
    };
    for (int tries = 0;; ++tries) {
      x = Sl{};
      if ((x.hs = r.chance(2, 3))) {
        static const long long st[] = {1, 2, 3, -1, -2, -3, -1, 2, 4, -5};
        x.s = st[r.below(10)];
        if (r.chance(1, 25))
          x.s = r.chance(1, 2) ? n : -n;
        if (r.chance(1, 40))
          x.s = r.chance(1, 2) ? bound() : n + 1;
        if (x.s == 0)
          x.s = 1;
      }
      if ((x.hb = r.chance(1, 2)))
        x.b = bound();
      if ((x.he = r.chance(1, 2)))
        x.e = bound();
      if (!keep_nonempty || n == 0)
        break;
      MT probe = m_fresh(INNC::i8, {(size_t)n}, std::vector<ld>(n)), q;
      m_slice(probe, {x}, q);
      if (q.n() > 0)
        break;
      if (tries > 20) {
        x = Sl{};
        break;
      }
    }
    o.push_back(x);
  }
  return o;
}
MT m_transpose(const MT &a, size_t d0, size_t d1) {
  MT o;
  o.dt = a.dt;
  o.sz = a.sz;
  o.st = a.st;
  o.st->err = a.err();
  std::swap(o.sz[d0], o.sz[d1]);
  std::vector<size_t> from;
  if (a.n()) {
    Shape i(o.sz.size(), 0);
    do {
      Shape j = i;
      std::swap(j[d0], j[d1]);
      size_t k = 0;
      for (size_t d = 0; d < j.size(); ++d)
        k = k * a.sz[d] + j[d];
      from.push_back(k);
    } while (next_index(i, o.sz));
  }
  for (auto k : from)
    o.ix.push_back(a.ix[k]);
  m_track_view(a, o, from);
  return o;
}
static std::vector<size_t> iota(size_t n) {
  std::vector<size_t> v(n);
  for (size_t i = 0; i < n; ++i)
    v[i] = i;
  return v;
}
MT m_reshape_view(const MT &a, const Shape &s) {
  MT o = a;
  o.id = new_id();
  o.sz = s;
  m_track_view(a, o, iota(a.n()));
  return o;
}
MT m_clone(const MT &a) {
  MT o = m_new(a.dt, a.sz, a.req);
  o.st->err = a.err();
  for (size_t i = 0; i < a.n(); ++i) {
    o.st->v[i] = a.val(i);
    if (a.req)
      o.node[i] = g_tape.copy(a.node[i]);
  }
  return o;
}
MT m_reshape_copy(const MT &a, const Shape &s) {
  MT o = m_clone(a);
  o.sz = s;
  return o;
}
MT m_detach(const MT &a) {
  MT o = a;
  o.id = new_id();
  o.req = false;
  o.leaf = true;
  o.node.clear();
  return o;
}
MT m_cat(const std::vector<const MT *> &v, size_t dim) {
  types t = v[0]->dt;
  bool req = false;
  Shape s = v[0]->sz;
  s[dim] = 0;
  ld sc = 0;
  for (auto m : v) {
    t = wider(t, m->dt);
    req |= m->req;
    s[dim] += m->sz[dim];
    sc = std::max(sc, m->err());
  }
  MT o = m_new(t, s, req);
  o.st->err = sc;
  if (sc > 0 && t == INNC::f32)
    for (auto m : v)
      o.st->err = std::max(o.st->err, sc + 2e-7L * m->maxabs());
  if (!o.n())
    return o;
  Shape i(s.size(), 0);
  size_t k = 0;
  do {
    Shape j = i;
    size_t w = 0;
    while (j[dim] >= v[w]->sz[dim])
      j[dim] -= v[w++]->sz[dim];
    size_t q = 0;
    for (size_t d = 0; d < j.size(); ++d)
      q = q * v[w]->sz[d] + j[d];
    o.st->v[k] = round_to(t, v[w]->val(q));
    if (req)
      o.node[k] = g_tape.copy(v[w]->req ? v[w]->node[q] : -1);
    ++k;
  } while (next_index(i, s));
  return o;
}
bool bin_overflows(Bin op, types lt, ld l, types rt, ld r) {
  if (is_f(lt) || is_f(rt))
    return false;
  __int128 a = (__int128)l, b = (__int128)r, x = 0;
  if (op == B_DIV && b == 0)
    return true;
  x = op == B_ADD ? a + b : op == B_SUB ? a - b : op == B_MUL ? a * b : a / b;
  int bits = lt <= INNC::i32 && rt <= INNC::i32 ? 32 : 64;
  return wrap(x, bits) != x;
}
ld ref_bin(Bin op, types lt, ld l, types rt, ld r, types out) {
  if (!is_f(lt) && !is_f(rt)) {
    __int128 a = (__int128)l, b = (__int128)r;
    __int128 x =
        op == B_ADD ? a + b : op == B_SUB ? a - b : op == B_MUL ? a * b : a / b;
    return round_to(out, (ld)wrap(x, 64));
  }
  if (lt == INNC::f64 || rt == INNC::f64) {
    double a = (double)l, b = (double)r;
    double x =
        op == B_ADD ? a + b : op == B_SUB ? a - b : op == B_MUL ? a * b : a / b;
    return round_to(out, x);
  }
  float a = (float)l, b = (float)r;
  float x =
      op == B_ADD ? a + b : op == B_SUB ? a - b : op == B_MUL ? a * b : a / b;
  return round_to(out, x);
}
MT m_bin(Bin op, const MT &a, const MT &b) {
  Shape s;
  if (!bcast(a.sz, b.sz, s))
    failf("harness error: model shapes do not broadcast");
  MT o = m_new(wider(a.dt, b.dt), s, a.req || b.req);
  if (!o.n())
    return o;
  Shape i(s.size(), 0);
  size_t k = 0;
  auto at = [&](const MT &m) {
    size_t q = 0, off = s.size() - m.sz.size();
    for (size_t d = 0; d < m.sz.size(); ++d)
      q = q * m.sz[d] + (m.sz[d] == 1 ? 0 : i[d + off]);
    return q;
  };
  do {
    size_t x = at(a), y = at(b);
    ld va = a.val(x), vb = b.val(y);
    if (bin_overflows(op, a.dt, va, b.dt, vb))
      throw Discard{};
    ld out = ref_bin(op, a.dt, va, b.dt, vb, o.dt);
    o.st->v[k] = out;
    ld ea = a.err(), eb = b.err(), e = 0;
    if (ea > 0 || eb > 0) {
      switch (op) {
      case B_ADD:
      case B_SUB:
        e = ea + eb;
        break;
      case B_MUL:
        e = fabsl(va) * eb + fabsl(vb) * ea + ea * eb;
        break;
      default:
        if (fabsl(vb) < 4 * eb)
          throw Discard{};
        e = (ea + fabsl(out) * eb) / (fabsl(vb) - eb);
      }
      if (!is_f(o.dt))
        throw Discard{};
      e += fabsl(out) * (o.dt == INNC::f32 ? 1.3e-7L : 2.3e-16L);
      if (std::isfinite(e))
        o.st->err = std::max(o.st->err, e);
    }
    if (o.req) {
      ld da = 1, db = 1, xa = 0, xb = 0; // xa, xb: errors of da, db
      if (op == B_SUB)
        db = -1;
      if (op == B_MUL)
        da = vb, db = va, xa = eb, xb = ea;
      if (op == B_DIV) {
        da = 1 / vb, db = -va / vb / vb;
        xa = 2 * eb / (vb * vb);
        xb = 2 * ea / (vb * vb) + 4 * fabsl(va) * eb / fabsl(vb * vb * vb);
      }
      o.node[k] =
          g_tape.op({{a.req ? a.node[x] : -1, da, fabsl(da) + xa / g_grad_rel},
                     {b.req ? b.node[y] : -1, db, fabsl(db) + xb / g_grad_rel}});
    }
    ++k;
  } while (next_index(i, s));
  return o;
}
MT m_cmp(Cmp op, const MT &a, const MT &b) {
  Shape s;
  if (!bcast(a.sz, b.sz, s))
    failf("harness error: model shapes do not broadcast");
  MT o = m_new(INNC::i8, s, false);
  if (!o.n())
    return o;
  Shape i(s.size(), 0);
  size_t k = 0;
  auto at = [&](const MT &m) {
    size_t q = 0, off = s.size() - m.sz.size();
    for (size_t d = 0; d < m.sz.size(); ++d)
      q = q * m.sz[d] + (m.sz[d] == 1 ? 0 : i[d + off]);
    return q;
  };
  do {
    ld x = a.val(at(a)), y = b.val(at(b));
    // as C++ converts operands of different types
    if (a.dt == INNC::f64 || b.dt == INNC::f64)
      x = (double)x, y = (double)y;
    else if (is_f(a.dt) || is_f(b.dt))
      x = (float)x, y = (float)y;
    if (a.err() + b.err() > 0 && fabsl(x - y) <= a.err() + b.err())
      throw Discard{};
    bool c = op == C_LT   ? x < y
             : op == C_GT ? x > y
             : op == C_LE ? x <= y
             : op == C_GE ? x >= y
             : op == C_EQ ? x == y
                          : x != y;
    o.st->v[k++] = c;
  } while (next_index(i, s));
  return o;
}
MT m_neg(const MT &a) {
  MT o = m_new(a.dt, a.sz, a.req);
  o.st->err = a.err();
  for (size_t i = 0; i < a.n(); ++i) {
    if (bin_overflows(B_SUB, INNC::i8, 0, a.dt, a.val(i)))
      throw Discard{};
    o.st->v[i] = round_to(a.dt, -a.val(i));
    if (o.req)
      o.node[i] = g_tape.op({{a.node[i], -1, 1}});
  }
  return o;
}
MT m_abs(const MT &a) {
  MT o = m_new(a.dt, a.sz, a.req);
  o.st->err = a.err();
  for (size_t i = 0; i < a.n(); ++i) {
    ld v = a.val(i);
    if (bin_overflows(B_SUB, INNC::i8, 0, a.dt, v))
      throw Discard{};
    o.st->v[i] = round_to(a.dt, v < 0 ? -v : v);
    if (a.req && fabsl(v) <= 2 * a.err()) // no derivative at 0
      throw Discard{};
    if (o.req)
      o.node[i] = g_tape.op({{a.node[i], v < 0 ? -1.0L : 1.0L, 1}});
  }
  return o;
}
MT m_sum(const MT &a) {
  types t = is_f(a.dt) ? INNC::f64 : INNC::i64;
  MT o = m_new(t, {}, a.req);
  ld s = 0, as = 0;
  __int128 is = 0;
  int node = a.req ? g_tape.leaf() : -1;
  for (size_t i = 0; i < a.n(); ++i) {
    ld v = a.val(i);
    if (is_f(t))
      s += v;
    else {
      is += (__int128)v;
      if (wrap(is, 64) != is)
        throw Discard{};
    }
    as += fabsl(v);
    if (a.req)
      g_tape.n[node].in.push_back({a.node[i], 1, 1});
  }
  o.st->v[0] = is_f(t) ? round_to(t, s) : (ld)is;
  if (is_f(t))
    o.st->err = a.n() * a.err() + (a.n() > 1 ? a.n() * 1.2e-16L * as : 0);
  if (!std::isfinite(o.st->err))
    o.st->err = 0;
  if (a.req)
    o.node[0] = node;
  return o;
}
MT m_mean(const MT &a) {
  MT o = m_sum(a);
  size_t n = a.n();
  if (n == 0)
    return o;
  ld v = o.st->v[0];
  if (is_f(o.dt)) {
    ld s = 0;
    for (size_t i = 0; i < n; ++i)
      s += a.val(i);
    o.st->v[0] = round_to(o.dt, s / n);
  } else
    o.st->v[0] = (ld)((__int128)v / (__int128)n);
  if (is_f(o.dt))
    o.st->err = o.st->err / n + 2.3e-16L * fabsl(o.st->v[0]);
  if (!std::isfinite(o.st->err))
    o.st->err = 0;
  if (a.req)
    for (auto &p : g_tape.n[o.node[0]].in)
      p.d = p.ad = 1.0L / n;
  return o;
}
MT m_ext(const MT &a, bool max) {
  MT o = m_new(a.dt, {}, a.req);
  size_t k = 0;
  for (size_t i = 1; i < a.n(); ++i)
    if (max ? a.val(i) > a.val(k) : a.val(i) < a.val(k))
      k = i;
  o.st->v[0] = a.val(k);
  o.st->err = a.err();
  if (a.req)
    o.node[0] = g_tape.copy(a.node[k]);
  return o;
}
bool m_ext_unique(const MT &a, bool max) {
  MT d = m_detach(a);
  if (!d.n())
    return false;
  ld e = m_ext(d, max).val(0);
  // values that rounding could make equal do not count as distinct
  size_t k = 0;
  for (size_t i = 0; i < a.n(); ++i)
    k += fabsl(a.val(i) - e) <= 1e-4L * std::max<ld>(1, fabsl(e)) + 2 * a.err();
  return k == 1;
}
MT m_type(const MT &a, types t) {
  if (t == a.dt)
    return a;
  MT o = m_new(t, a.sz, a.req);
  o.st->err = is_f(t) ? a.err() : 0;
  for (size_t i = 0; i < a.n(); ++i) {
    ld v = a.val(i);
    if (!is_f(t) && is_f(a.dt)) { // out of range is undefined
      static const ld lim[] = {127, 32767, 2147483647, 9e18L};
      if (!(fabsl(v) <= lim[t]))
        throw Discard{};
      if (a.err() > 0 && fabsl(v - roundl(v)) <= a.err())
        throw Discard{};
    } else if (a.err() > 0) {
      if (t == INNC::f32)
        o.st->err = std::max(o.st->err, a.err() + fabsl(v) * 1.3e-7L);
    }
    o.st->v[i] = round_to(t, v);
    if (o.req)
      o.node[i] = g_tape.copy(a.node[i]);
  }
  return o;
}
bool m_iadd_defined(const MT &a, const MT &b) {
  if (a.st != b.st || (a.sz == b.sz && a.ix == b.ix))
    return true;
  std::vector<size_t> x = a.ix, y = b.ix, z;
  std::sort(x.begin(), x.end());
  std::sort(y.begin(), y.end());
  std::set_intersection(x.begin(), x.end(), y.begin(), y.end(),
                        std::back_inserter(z));
  return z.empty();
}
bool m_iadd(MT &a, const MT &b) {
  std::vector<ld> res;
  Shape i(a.sz.size(), 0);
  if (!a.n())
    return true;
  size_t k = 0;
  do {
    size_t q = 0, off = a.sz.size() - b.sz.size();
    for (size_t d = 0; d < b.sz.size(); ++d)
      q = q * b.sz[d] + (b.sz[d] == 1 ? 0 : i[d + off]);
    ld x = a.val(k), y = b.val(q);
    if (bin_overflows(B_ADD, a.dt, x, b.dt, y))
      return false;
    if (is_f(b.dt) && !is_f(a.dt)) {
      ld s = b.dt == INNC::f64 ? (ld)((double)x + (double)y)
                               : (ld)((float)x + (float)y);
      static const ld lim[] = {127, 32767, 2147483647, 9e18L};
      if (!(fabsl(s) <= lim[a.dt]))
        return false;
      res.push_back(round_to(a.dt, s));
    } else
      res.push_back(ref_bin(B_ADD, a.dt, x, b.dt, y, a.dt));
    ++k;
  } while (next_index(i, a.sz));
  if (a.err() > 0 || b.err() > 0) {
    if (!is_f(a.dt))
      return false;
    a.st->err += b.err() + (a.maxabs() + b.maxabs()) *
                               (a.dt == INNC::f32 ? 1.3e-7L : 2.3e-16L);
    if (!std::isfinite(a.st->err))
      a.st->err = 0;
  }
  for (k = 0; k < res.size(); ++k)
    a.st->v[a.ix[k]] = res[k];
  return true;
}
bool m_contig(const MT &a) {
  for (size_t i = 1; i < a.n(); ++i)
    if (a.ix[i] != a.ix[i - 1] + 1)
      return false;
  return true;
}

// ------------------------------------------------------------------ pairs
P mk(types t, const Shape &s, const std::vector<ld> &v) {
  auto raw = pack(t, v);
  uint8_t dummy[8];
  return P(Tensor::from_blob(raw.empty() ? dummy : raw.data(), to_sv(s), t),
           m_fresh(t, s, v));
}
P mk(Rng &r, types t, const Shape &s, Prof p) {
  return mk(t, s, gen_vals(r, t, numel_of(s), p));
}
bool siblings(Rng &r, P &a, P &x, P &y, std::string &dx, std::string &dy) {
  size_t n = a.m.sz.size();
  if (!n || r.chance(1, 7)) { // one tensor, or the same without tracking
    auto one = [&](P &o, std::string &d) {
      bool cut = r.chance(1, 3);
      if (cut)
        o.t = a.t.detach();
      else
        o.t = a.t;
      o.m = cut ? m_detach(a.m) : a.m;
      d = cut ? ".detach()" : "";
    };
    one(x, dx);
    one(y, dy);
    return true;
  }
  size_t d = r.below(n);
  long long len = (long long)a.m.sz[d];
  auto view = [&](const Sl &s, P &o, std::string &ds) {
    std::vector<Sl> sl(d + 1);
    sl[d] = s;
    if (!m_slice(a.m, sl, o.m))
      return false;
    ds = sl_str(r, sl);
    o.t = a.t[ds];
    ds = "[\"" + ds + "\"]";
    return true;
  };
  auto range = [&](long long b, long long k, long long st) {
    Sl s;
    long long e = b + k * st;
    if (st < 0) { // k elements, the last one at b
      b = b - (k - 1) * st;
      e = b + k * st;
    }
    s.hb = s.hs = true;
    s.b = b;
    s.s = st;
    s.he = e >= 0; // otherwise to the very beginning
    s.e = e;
    return s;
  };
  int kind = (int)r.below(6);
  if (kind == 0 && n >= 2) { // a square and its transposition
    size_t d0 = r.below(n), d1 = r.below(n - 1);
    d1 += d1 >= d0;
    if (a.m.sz[d0] != a.m.sz[d1])
      return false;
    x.m = a.m;
    x.t = a.t[":"];
    dx = "[\":\"]";
    y.m = m_transpose(a.m, d0, d1);
    y.t = a.t.transpose(d0, d1);
    dy = strf(".transpose(%zu,%zu)", d0, d1);
    MT v;
    if (!m_slice(a.m, std::vector<Sl>(1), v))
      return false;
    x.m = std::move(v);
    return true;
  }
  if (len < 1)
    return false;
  if (kind == 1) { // two rows
    Sl s, q;
    s.index = q.index = true;
    s.i = r.below(len);
    q.i = r.below(len) - (r.chance(1, 2) ? len : 0);
    return view(s, x, dx) && view(q, y, dy);
  }
  // windows
  long long k = 1 + r.below(len), st = 1;
  if (k > 1 && r.chance(1, 3))
    st = 1 + r.below((len - 1) / (k - 1));
  long long room = len - ((k - 1) * st + 1);
  long long p = r.below(room + 1), q = r.below(room + 1);
  return view(range(p, k, r.chance(1, 4) ? -st : st), x, dx) &&
         view(range(q, k, r.chance(1, 3) ? -st : st), y, dy);
}
P mk_layout(Rng &r, types t, const Shape &s, Prof p, Ctx *log) {
  if (r.chance(1, 4))
    return mk(r, t, s, p);
  size_t k = s.size();
  std::vector<size_t> order = iota(k);
  if (r.chance(2, 3))
    for (size_t i = k; i > 1; --i)
      std::swap(order[i - 1], order[r.below(i)]);
  Shape base;
  std::vector<Sl> sl;
  int fancy = (int)r.below(4); // 0: only permuted
  auto extra = [&] {
    while (fancy && base.size() < 7 && r.chance(1, 5)) {
      size_t n = 1 + r.below(3);
      Sl x;
      x.index = true;
      x.i = r.range(-(long long)n, (long long)n - 1);
      base.push_back(n);
      sl.push_back(x);
    }
  };
  for (size_t d : order) {
    extra();
    long long n = (long long)s[d];
    Sl x;
    if (!fancy || r.chance(1, 4)) {
      base.push_back(n);
      sl.push_back(x);
      continue;
    }
    static const long long st[] = {1, 1, 2, 3, -1, -1, -2};
    long long step = st[r.below(7)], as = step < 0 ? -step : step;
    long long pre = r.below(3), post = r.below(3);
    if (n == 0) {
      base.push_back(pre + post);
      x.hb = x.he = true;
      x.b = x.e = pre;
      sl.push_back(x);
      continue;
    }
    long long len = pre + (n - 1) * as + 1 + post;
    base.push_back(len);
    x.hb = x.hs = true;
    x.s = step;
    x.he = true;
    if (step > 0) {
      x.b = pre;
      x.e = pre + (n - 1) * as + 1;
    } else {
      x.b = pre + (n - 1) * as;
      x.e = pre - 1;
      if (x.e < 0)
        x.he = false;
    }
    sl.push_back(x);
  }
  extra();
  if (numel_of(base) > std::max<size_t>(3000, 3 * numel_of(s)))
    return mk(r, t, s, p);
  P b = mk(r, t, base, p);
  MT m;
  if (!m_slice(b.m, sl, m))
    failf("harness error: mk_layout");
  std::string str = sl_str(r, sl);
  Tensor x;
  x = b.t[str];
  if (log)
    logf(*log, "  # layout: %s %s [\"%s\"] order %s", kDT[t],
         shape_str(base).c_str(), str.c_str(), shape_str(order).c_str());
  // undo the permutation with transpositions
  for (size_t d = 0; d < k; ++d) {
    size_t w = d;
    while (order[w] != d)
      ++w;
    if (w != d) {
      x = x.transpose(d, w);
      m = m_transpose(m, d, w);
      std::swap(order[d], order[w]);
    }
  }
  return P(std::move(x), std::move(m));
}
void set_req(P &p) {
  p.t.requires_grad(true);
  p.m.req = true;
  p.m.leaf = true;
  p.m.node.clear();
  for (size_t i = 0; i < p.m.n(); ++i)
    p.m.node.push_back(g_tape.leaf());
}
Tensor real_bin(Bin op, const Tensor &a, const Tensor &b) {
  switch (op) {
  case B_ADD:
    return a + b;
  case B_SUB:
    return a - b;
  case B_MUL:
    return a * b;
  default:
    return a / b;
  }
}
Tensor real_cmp(Cmp op, const Tensor &a, const Tensor &b) {
  switch (op) {
  case C_LT:
    return a < b;
  case C_GT:
    return a > b;
  case C_LE:
    return a <= b;
  case C_GE:
    return a >= b;
  case C_EQ:
    return a == b;
  default:
    return a != b;
  }
}

// ------------------------------------------------------------------ observers
bool parse_tensor(const std::string &str, const Shape &s,
                  std::vector<ld> &out) {
  const char *p = str.c_str();
  std::function<bool(size_t)> rec = [&](size_t d) -> bool {
    if (d == s.size()) {
      char *e;
      out.push_back(strtold(p, &e));
      if (e == p)
        return false;
      p = e;
      return true;
    }
    if (*p++ != '[')
      return false;
    for (size_t i = 0; i < s[d]; ++i) {
      if (i) {
        if (p[0] != ',' || p[1] != ' ')
          return false;
        p += 2;
      }
      if (!rec(d + 1))
        return false;
    }
    return *p++ == ']';
  };
  return rec(0) && *p == 0;
}
static std::string elem_str(types t, ld v) {
  if (!is_f(t))
    return std::to_string((long long)v);
  char b[512];
  snprintf(b, sizeof b, "%f", t == INNC::f32 ? (double)(float)v : (double)v);
  return b;
}
std::string m_render(const MT &m) {
  size_t k = 0;
  std::function<std::string(size_t)> rec = [&](size_t d) -> std::string {
    if (d == m.sz.size())
      return elem_str(m.dt, m.val(k++));
    std::string o = "[";
    for (size_t i = 0; i < m.sz[d]; ++i)
      o += (i ? ", " : "") + rec(d + 1);
    return o + "]";
  };
  return rec(0);
}
std::vector<ld> vals(const Tensor &t) {
  std::vector<ld> v;
  Shape s = from_sv(t.size());
  std::string str = t.to_string();
  if (!parse_tensor(str, s, v))
    failf("to_string() \"%.200s\" does not have the shape %s of the tensor",
          str.c_str(), shape_str(s).c_str());
  return v;
}
bool ld_close(ld got, ld want, types t, ld err) {
  if (!is_f(t))
    return got == want;
  if (std::isnan(want) || std::isnan(got))
    return std::isnan(want) && std::isnan(got);
  if (std::isinf(want) || std::isinf(got))
    return want == got;
  // to_string() shows six decimals; single operations are exact otherwise
  ld rel = t == INNC::f32 ? 1e-6L : 1e-12L;
  if (err == 0)
    rel = t == INNC::f32 ? 2e-8L : 1e-17L;
  return fabsl(got - want) <= 6e-7L + rel * fabsl(want) + 2 * err;
}
// What six decimals do not show: the elements are equal to the expected ones.
static void verify_bits(const Tensor &t, const MT &m, const char *what) {
  if (!is_f(m.dt) || m.err() != 0 || !m.n())
    return;
  std::vector<ld> v;
  bool shown = true; // by six decimals
  for (size_t i = 0; i < m.n(); ++i) {
    v.push_back(m.val(i));
    shown &= fabsl(v[i]) < 1e9L && v[i] * 64 == truncl(v[i] * 64);
  }
  if (shown)
    return;
  auto raw = pack(m.dt, v);
  Tensor eq = t == Tensor::from_blob(raw.data(), to_sv(m.sz), m.dt);
  auto e = vals(eq);
  for (size_t i = 0; i < v.size(); ++i)
    if (e[i] != 1 && !std::isnan(v[i]))
      failf("%s: element %zu of %s %s is not exactly %.20Lg", what, i,
            kDT[m.dt], shape_str(m.sz).c_str(), v[i]);
  count("elements_compared_exactly", v.size());
}
void verify(const Tensor &t, const MT &m, const char *what) {
  Shape s = from_sv(t.size());
  if (s != m.sz)
    failf("%s: shape is %s, expected %s", what, shape_str(s).c_str(),
          shape_str(m.sz).c_str());
  if (t.type() != m.dt)
    failf("%s: type is %s, expected %s", what,
          t.type() < 6 ? kDT[t.type()] : "?", kDT[m.dt]);
  if (t.numel() != m.n())
    failf("%s: numel() is %zu, expected %zu", what, t.numel(), m.n());
  if (t.dim() != m.sz.size())
    failf("%s: dim() is %zu, expected %zu", what, t.dim(), m.sz.size());
  if (t.requires_grad() != m.req)
    failf("%s: requires_grad() is %d, expected %d", what, t.requires_grad(),
          m.req);
  auto v = vals(t);
  for (size_t i = 0; i < v.size(); ++i)
    if (!ld_close(v[i], m.val(i), m.dt, m.err()))
      failf("%s: element %zu of %s %s is %.10Lg, expected %.10Lg", what, i,
            kDT[m.dt], shape_str(m.sz).c_str(), v[i], m.val(i));
  verify_bits(t, m, what);
  count("elements_compared", v.size());
  count("tensors_compared");
}
void same(const Tensor &a, const Tensor &b, const char *what) {
  if (from_sv(a.size()) != from_sv(b.size()))
    failf("%s: shapes differ: %s and %s", what,
          shape_str(from_sv(a.size())).c_str(),
          shape_str(from_sv(b.size())).c_str());
  if (a.type() != b.type())
    failf("%s: types differ", what);
  auto x = vals(a), y = vals(b);
  for (size_t i = 0; i < x.size(); ++i)
    if (!ld_close(x[i], y[i], a.type(), 1e-9L))
      failf("%s: element %zu differs: %.10Lg and %.10Lg", what, i, x[i], y[i]);
  count("elements_compared", x.size());
  count("tensors_compared");
}
void verify_grad(const Tensor &t, const MT &m, const std::vector<ld> &g,
                 const std::vector<ld> &ag, const char *what) {
  Tensor gr = t.grad();
  std::string str = gr.to_string();
  if (str == "[]" && !(m.sz.size() && m.sz[0] == 0))
    failf("%s: there is no gradient", what);
  if (m.sz.size() && m.sz[0] == 0 && str == "[]")
    return;
  if (from_sv(gr.size()) != m.sz)
    failf("%s: gradient has shape %s, tensor %s", what,
          shape_str(from_sv(gr.size())).c_str(), shape_str(m.sz).c_str());
  if (gr.type() != m.dt)
    failf("%s: gradient has another type than the tensor", what);
  bool fine = g_grad_rel < kGradRelF32; // all digits count
  std::vector<ld> v;
  if (fine) {
    v = vals(gr * Tensor(1152921504606846976.));
    for (auto &x : v)
      x *= 0x1p-60L;
  } else
    v = vals(gr);
  for (size_t i = 0; i < v.size(); ++i) {
    int n = m.node[i];
    ld want = n < (int)g.size() ? g[n] : 0, sc = n < (int)ag.size() ? ag[n] : 0;
    ld tol = (fine ? 1e-16L : 1e-6L) + g_grad_rel * sc;
    if (!(fabsl(v[i] - want) <= tol))
      failf("%s: gradient of element %zu of %s is %.10Lg, expected %.10Lg",
            what, i, shape_str(m.sz).c_str(), v[i], want);
  }
  count("gradients_compared", v.size());
}

// ------------------------------------------------------------------ main
static std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\')
      o += '\\', o += ch;
    else if (ch == '\n')
      o += "\\n";
    else if (ch < 32 || ch > 126)
      o += strf("\\u%04x", ch);
    else
      o += ch;
  }
  return o + "\"";
}
static void death() {
  if (!g_ctx)
    return;
  std::string s = strf("\n=== case in flight: %s index %" PRIu64 "\n",
                       kProperty, g_ctx->idx) +
                  g_ctx->log + "=== end of case\n";
  (void)!write(2, s.data(), s.size());
}
int main(int argc, char **argv) {
  uint64_t seed = 1, from = 0, to = UINT64_MAX, step = 1;
  bool thorough = false, do_trace = false;
  const char *out = nullptr, *status = nullptr, *trace_file = nullptr;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return argv[++i]; };
    if (a == "--seed")
      seed = strtoull(val(), nullptr, 10);
    else if (a == "--from")
      from = strtoull(val(), nullptr, 10);
    else if (a == "--to")
      to = strtoull(val(), nullptr, 10);
    else if (a == "--step")
      step = strtoull(val(), nullptr, 10);
    else if (a == "--thorough")
      thorough = true;
    else if (a == "--out")
      out = val();
    else if (a == "--status")
      status = val();
    else if (a == "--trace")
      do_trace = true, trace_file = val();
    else if (a == "--count") {
      printf("%" PRIu64 "\n", n_cases(thorough));
      return 0;
    } else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 3;
    }
  }
  if (to == UINT64_MAX)
    to = n_cases(thorough);
#ifdef HAS_SAN
  __sanitizer_set_death_callback(death);
#endif
  int sfd = status ? open(status, O_CREAT | O_WRONLY | O_TRUNC, 0644) : -1;
  FILE *tf = do_trace ? fopen(trace_file, "w") : nullptr;
  uint64_t n = 0, discarded = 0;
  int rc = 0;
  std::string vio, violog;
  uint64_t vioidx = 0;
  for (uint64_t k = from; k < to; k += step) {
    Ctx c(mix(mix(seed, 77), k));
    c.idx = k;
    c.thorough = thorough;
    g_ctx = &c;
    g_tape.n.clear();
    g_grad_rel = kGradRelF32;
    g_trace_hash = 0;
    g_trace_n = 0;
    if (sfd >= 0) {
      char b[32];
      int l = snprintf(b, sizeof b, "%-20" PRIu64 "\n", k);
      (void)!pwrite(sfd, b, l, 0);
    }
    auto t0 = std::chrono::steady_clock::now();
    struct Slow {
      std::chrono::steady_clock::time_point t0;
      uint64_t k;
      bool on;
      ~Slow() {
        double s = std::chrono::duration<double>(
                       std::chrono::steady_clock::now() - t0)
                       .count();
        if (on && s > 1)
          fprintf(stderr, "slow case %" PRIu64 ": %.1f s\n", k, s);
      }
    } slow{t0, k, getenv("SHOW_SLOW") != nullptr};
    try {
      run_case(c);
      ++n;
      if (c.log.size())
        sample(c.log.substr(0, 700));
    } catch (const Violation &e) {
      vio = e.what();
    } catch (const Discard &) {
      ++discarded;
    } catch (const std::exception &e) {
      vio = std::string("unexpected exception: ") + e.what();
    }
    if (tf)
      fprintf(tf, "%" PRIu64 " %016" PRIx64 " %" PRIu64 "\n", k, g_trace_hash,
              g_trace_n);
    if (!vio.empty()) {
      violog = c.log;
      vioidx = k;
      rc = vio.rfind("harness error", 0) == 0 ? 3 : 1;
      g_ctx = nullptr;
      break;
    }
    g_ctx = nullptr;
  }
  if (tf)
    fclose(tf);
  if (rc)
    fprintf(stderr, "%s: case %" PRIu64 ": %s\n--- what the case did\n%s---\n",
            kProperty, vioidx, vio.c_str(), violog.c_str());
  if (out) {
    FILE *f = fopen(out, "w");
    fprintf(f, "{\"cases\": %" PRIu64 ", \"discarded\": %" PRIu64, n,
            discarded);
    fprintf(f, ", \"violation\": %s, \"index\": %" PRIu64 ", \"log\": %s",
            vio.empty() ? "null" : json_str(vio).c_str(), vioidx,
            json_str(violog).c_str());
    fprintf(f, ", \"counts\": {");
    bool first = true;
    for (auto &p : g_counts) {
      fprintf(f, "%s%s: %" PRIu64, first ? "" : ", ", json_str(p.first).c_str(),
              p.second);
      first = false;
    }
    fprintf(f, "}, \"samples\": [");
    for (size_t i = 0; i < g_samples.size(); ++i)
      fprintf(f, "%s%s", i ? ", " : "", json_str(g_samples[i]).c_str());
    fprintf(f, "], \"distinct\": [");
    first = true;
    for (auto h : g_distinct) {
      fprintf(f, "%s%" PRIu64, first ? "" : ",", h);
      first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
  }
  return rc;
}
