// C04: the generators against an independent reference, under every short sequence of operations
#include "explore.hpp"
#include <triqs/mc_tools/random_generator.hpp>
#include <boost/random.hpp>
#include <optional>
#include <random>
#include <memory>
using triqs::mc_tools::random_generator;

// reference sequences -------------------------------------------------------------------
struct ref_gen {
  virtual double next()  = 0;
  virtual ~ref_gen()     = default;
};
// the Mersenne Twister of M. Matsumoto and T. Nishimura (1998), seeded with the 69069 congruential generator
struct ref_mt98 : ref_gen {
  uint32_t s[624];
  int i = 624;
  ref_mt98(uint32_t seed) {
    s[0] = seed | 1u;
    for (int k = 1; k < 624; ++k) s[k] = 69069u * s[k - 1];
  }
  uint32_t u32() {
    if (i == 624) {
      for (int k = 0; k < 624; ++k) {
        uint32_t y = (s[k] & 0x80000000u) | (s[(k + 1) % 624] & 0x7fffffffu);
        s[k]       = s[(k + 397) % 624] ^ (y >> 1) ^ ((s[(k + 1) % 624] & 1) ? 0x9908b0dfu : 0);
      }
      i = 0;
    }
    uint32_t y = s[i++];
    y ^= y >> 11, y ^= (y << 7) & 0x9d2c5680u, y ^= (y << 15) & 0xefc60000u;
    return y ^ (y >> 18);
  }
  double next() override {
    constexpr double e = 2.220446049250313e-16;
    return e + (double(u32()) / 0xFFFFFFFFu) * (1 - 2 * e);
  }
};
// the standard mt19937, mapped to [0,1[
struct ref_mt : ref_gen {
  std::mt19937 g;
  ref_mt(uint32_t s) : g(s) {}
  double next() override { return double(g()) / 4294967296.0; }
};
template <typename E> struct ref_boost : ref_gen {
  E g;
  ref_boost(uint32_t s) : g(s) {}
  double next() override {
    if constexpr (std::is_floating_point_v<typename E::result_type>)
      return double(g());
    else
      return double(g() - (g.min)()) / (double((g.max)() - (g.min)()) + 1.0);
  }
};
#define GENS X(mt11213b) X(lagged_fibonacci607) X(lagged_fibonacci1279) X(lagged_fibonacci2281) X(lagged_fibonacci3217) X(lagged_fibonacci4423) X(lagged_fibonacci9689) X(lagged_fibonacci19937) X(lagged_fibonacci23209) X(lagged_fibonacci44497) X(ranlux3)
static std::vector<std::string> known = {"", "mt19937"
#define X(n) , #n
GENS
#undef X
};
static std::unique_ptr<ref_gen> make_ref(std::string const &n, uint32_t s) {
  if (n == "") return std::make_unique<ref_mt98>(s);
  if (n == "mt19937") return std::make_unique<ref_mt>(s);
#define X(g) if (n == #g) return std::make_unique<ref_boost<boost::g>>(s);
  GENS
#undef X
  return {};
}
static std::vector<uint32_t> seeds() { return ex::thorough() ? std::vector<uint32_t>{1, 2, 3, 17, 198, 4357, 65536, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0} : std::vector<uint32_t>{1, 2, 4357, 0x7fffffffu, 0xfffffffeu, 0}; }

// the whole sequence over several refills
JOB_SHARDED(sequences, 13) {
  auto &name = known[ex::choose(known.size())];
  auto ss    = seeds();
  auto seed  = ss[ex::choose(ss.size())];
  random_generator r(name, seed), r2(name, seed);
  auto ref = make_ref(name, seed);
  ex::check(r.name() == name, "name", "the name of the generator is ", r.name());
  long n   = ex::tier(25000, 400000);
  double sum = 0;
  for (long i = 0; i < n; ++i) {
    double x = r(), w = ref->next();
    sum += x;
    if (!ex::check(x >= 0 && x < 1, "range", name, " seed ", seed, " number ", i, " is ", x)) return;
    if (!ex::check(x == w, "sequence", name, " seed ", seed, " number ", i, " is ", ex::cat(x), " instead of ", w)) return;
    if (i < 3000) ex::check(r2() == x, "reproducible", name, " seed ", seed, " number ", i);
  }
  ex::step(n);
  ex::state(ex::mix(ex::hash(name), seed));
  ex::outcome(ex::hash(sum));
  ex::sample(name, " seed ", seed, " mean ", sum / n);
}
// the list of names
JOB(names) {
  auto l = triqs::mc_tools::random_generator_names_list();
  std::set<std::string> s(l.begin(), l.end());
  ex::check(s.size() == l.size(), "names", "a name is listed twice");
  for (auto &n : l) {
    bool ok = true;
    try {
      random_generator r(n, 3);
      double x = r();
      ok       = x >= 0 && x < 1;
    } catch (std::exception const &) { ok = false; }
    ex::check(ok, "names", "the listed generator ", n, " does not exist");
    ex::state(ex::hash(n));
  }
  for (auto &n : known) ex::check(n == "" || s.count(n), "names", "the generator ", n, " is not listed");
  auto sep = ex::pick({std::string(" "), std::string(","), std::string("::")});
  std::string j;
  for (size_t i = 0; i < l.size(); ++i) j += (i ? sep : "") + l[i];
  ex::check(triqs::mc_tools::random_generator_names(sep) == j, "names", "random_generator_names");
  for (std::string n : {"mt", "MT19937", "mt19937 ", " ", "mt1993", "ranlux", "none", "lagged_fibonacci60"}) {
    bool thrown = false;
    try {
      random_generator r(n, 3);
    } catch (std::exception const &) { thrown = true; }
    ex::check(thrown, "unknown-name", "the name ", n, " is accepted");
    ex::step();
  }
}
// operations: next, integer and real requests, preview, moves; positioned anywhere relative to a refill
struct obj {
  std::optional<random_generator> g;
  std::unique_ptr<ref_gen> r;
  std::vector<double> ahead;
  long used = 0;
  std::string name;
  double peek() {
    if (ahead.empty()) ahead.push_back(r->next());
    return ahead[0];
  }
  double take() {
    double x = peek();
    ahead.clear();
    ++used;
    return x;
  }
};
static void ops(std::string const &name, int seed, int depth) {
  obj a, b;
  auto set = [&](obj &o, std::string const &n, uint32_t s) {
    o.g.emplace(n, s);
    o.r = make_ref(n, s);
    o.ahead.clear();
    o.used = 0;
    o.name = n;
  };
  set(a, name, seed);
  set(b, "mt19937", 5);
  int start = ex::pick({0, 1, 997, 998, 999, 1000, 1001, 1999});
  for (int i = 0; i < start; ++i) {
    double x = (*a.g)();
    ex::check(x == a.take(), "sequence", name, " number ", i);
  }
  std::string tr = ex::cat(name, " from ", start, ":");
  for (int d = 0; d < depth; ++d) {
    int op = ex::choose(12);
    tr += ex::cat(" ", op);
    ex::step();
    switch (op) {
      case 0: {
        double x = (*a.g)(), w = a.take();
        ex::check(x == w, "sequence", tr, ": ", x, " instead of ", w);
        break;
      }
      case 1: {
        double x = a.g->preview(), w = a.peek();
        ex::check(x == w, "preview", tr, ": ", x, " instead of ", w);
        break;
      }
      case 2: {
        int n = ex::pick({2, 3, 7});
        int k = (*a.g)(n);
        double u = a.take();
        ex::check(k == int(std::floor(n * u)), "integer", tr, ": request in [0,", n, ") gives ", k, " for the number ", u);
        break;
      }
      case 3: {
        long k   = (*a.g)(long(1) << 40);
        double u = a.take();
        ex::check(k == long(std::floor(double(long(1) << 40) * u)) && k >= 0 && k < (1l << 40), "integer", tr, ": a large request gives ", k, " for the number ", u);
        break;
      }
      case 4: {
        unsigned k = (*a.g)(4000000000u);
        double u   = a.take();
        ex::check(k == unsigned(std::floor(4e9 * u)), "integer", tr, ": an unsigned request gives ", k, " for the number ", u);
        break;
      }
      case 5: {
        double x = (*a.g)(7.5), w = 7.5 * a.take();
        ex::check(x == w, "real", tr, ": ", x, " instead of ", w);
        break;
      }
      case 6: {
        double x = (*a.g)(-2.0, 3.0), w = -2.0 + 5.0 * a.take();
        ex::check(std::abs(x - w) <= 1e-15 && x >= -2 && x < 3, "real", tr, ": ", x, " instead of ", w);
        break;
      }
      case 7: { // range of one value
        int k = (*a.g)(1);
        ex::check(k == 0, "integer", tr, ": request in [0,1) gives ", k);
        // whether it uses a number is not specified: find out with the next one
        double x = a.g->preview();
        if (x != a.peek()) {
          a.take();
          ex::check(x == a.peek(), "sequence", tr);
        }
        break;
      }
      case 8: { // move construction
        random_generator tmp(std::move(*a.g));
        a.g.emplace(std::move(tmp));
        ex::check(a.g->name() == a.name, "move", tr, ": the name is ", a.g->name());
        break;
      }
      case 9: // move assignment to the other
        *b.g    = std::move(*a.g);
        b.r     = std::move(a.r);
        b.ahead = a.ahead, b.used = a.used, b.name = a.name;
        set(a, "mt11213b", 9);
        break;
      case 10: { // moved there and back
        auto n = b.name;
        std::swap(*a.g, *b.g);
        std::swap(a.r, b.r);
        std::swap(a.ahead, b.ahead), std::swap(a.used, b.used), std::swap(a.name, b.name);
        break;
      }
      case 11: { // the other one goes on independently
        double x = (*b.g)(), w = b.take();
        ex::check(x == w, "independent", tr, ": ", x, " instead of ", w);
        break;
      }
    }
  }
  for (int i = 0; i < 3; ++i) {
    double x = (*a.g)(), w = a.take();
    ex::check(x == w, "sequence", tr, " then number ", i, ": ", x, " instead of ", w);
    x = (*b.g)(), w = b.take();
    ex::check(x == w, "independent", tr, " then number ", i, ": ", x, " instead of ", w);
  }
  ex::state(ex::hash(tr));
  ex::sample(tr);
}
JOB_SHARDED(operations, 4) {
  int w = ex::choose(4);
  ops(std::vector<std::string>{"mt19937", "", "ranlux3", "lagged_fibonacci607"}[w], 1 + w, w < 2 ? ex::tier(4, 5) : ex::tier(3, 4));
}
// integer requests are in range and flat: every value of the uniform number on a grid including both ends
JOB(integer_range) {
  long n = ex::pick({1l, 2l, 3l, 5l, 10l, 255l, 1000l, 1l << 31, 1l << 53});
  random_generator g("mt19937", 7), t("mt19937", 7);
  std::map<long, long> hist;
  int draws = 20000;
  for (int i = 0; i < draws; ++i) {
    long k = g(n);
    ex::check(k >= 0 && k < n, "integer-range", "request in [0,", n, ") gives ", k);
    if (n <= 10) hist[k]++;
  }
  for (auto &[k, c] : hist) ex::check(std::abs(c - draws / double(n)) < 6 * std::sqrt(draws / double(n)), "flat", "value ", k, " of [0,", n, ") drawn ", c, " times in ", draws);
  ex::check(n > 10 || long(hist.size()) == n, "flat", "only ", hist.size(), " values of [0,", n, ") are drawn");
  ex::step();
  ex::state(n);
}
