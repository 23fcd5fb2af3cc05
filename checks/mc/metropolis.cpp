// C02: proposal, acceptance and sign of every Metropolis step, against the twin of the generator.
#include "mc_common.hpp"
#include <limits>
using cd = std::complex<double>;
namespace {
  struct step_t {
    std::string name, cls; // leaf proposed
    bool accepted;
  };
  template <typename S> struct world {
    mc_tools::random_generator twin{"mt19937", 0}; // always at the same position as the generator of the simulation
    mc_tools::random_generator *rng = nullptr;
    bool draws = false; // moves draw numbers themselves
    std::vector<std::string> calls;
    S sign = 1, ratio = 0, accept_sign = 1;
    double u = 0;
    int kind = 0;
    std::string leaf; // leaf proposed in this step
    bool expect_error = false, pending = false;
    std::map<std::string, std::array<long, 2>> stat;
    std::vector<std::string> expected_leaf_path; // computed from the twin before the step
  };
  template <typename S> world<S> *&WP() {
    static world<S> *w;
    return w;
  }
  // a tree of moves: a leaf or a set
  struct node {
    std::string name;
    double weight;
    std::vector<node> sub; // empty: a leaf
  };
  // the interval of normalised cumulated weights containing u
  int select(std::vector<node> const &v, double u) {
    double tot = 0, acc = 0;
    for (auto &x : v) tot += x.weight;
    for (int i = 0; i < int(v.size()); ++i) {
      acc += v[i].weight / tot;
      if (u < acc) return i;
    }
    int last = -1; // only rounding can bring us here
    for (int i = 0; i < int(v.size()); ++i)
      if (v[i].weight > 0) last = i;
    return last;
  }
  std::vector<std::string> g_path;
  template <typename S> std::vector<S> ratios(double u) {
    double up = std::nextafter(u, 2), inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    if constexpr (std::is_same_v<S, double>)
      return {up, -up, u, -u, 0.0, 1.0, -7.5, inf, -inf, nan};
    else
      return {S{up, 0}, S{0, up}, S{0, -u}, S{-u, 0}, S{0, 0}, S{3, 4}, S{-0.6, 0.8} * (u * 1.0001), S{-0.8, -0.6} * (u * 0.9999), S{0, -1}, S{inf, 0}, S{1, -inf}, S{nan, 1}};
  }
  template <typename S> S phase(S r) {
    if constexpr (std::is_same_v<S, double>)
      return std::isinf(r) ? (r < 0 ? -1 : 1) : (std::abs(r) > 0 ? r / std::abs(r) : 1);
    else
      return std::abs(r) > 0 ? r / std::abs(r) : S{1};
  }
  template <typename S> struct leaf {
    std::string name;
    S attempt() {
      auto &w = *WP<S>();
      w.calls.push_back("attempt " + name);
      // which leaf has to be attempted, from the twin
      std::vector<std::string> path;
      std::vector<node> const *level = w_tree();
      while (true) {
        int i = select(*level, w.twin());
        path.push_back((*level)[i].name);
        if ((*level)[i].sub.empty()) break;
        level = &(*level)[i].sub;
      }
      ex::check(path.back() == name, "selection", "the selected move is ", name, ", the number is in the interval of ", path.back());
      for (auto &p : path) w.stat[p][0]++;
      g_path = path;
      if (w.draws) {
        double a = (*w.rng)(), b = w.twin();
        ex::check(a == b, "numbers-used", "a step does not use one number for the selection and one for the acceptance");
      }
      w.u     = w.twin.preview();
      auto rs = ratios<S>(w.u);
      w.kind  = ex::choose(rs.size());
      w.ratio = rs[w.kind];
      bool inf = std::isinf(std::abs(w.ratio));
      w.expect_error = std::isnan(std::abs(w.ratio)) || (inf && !std::is_same_v<S, double>);
      w.pending      = true;
      ex::log("attempt ", name, " ratio ", w.ratio, " number ", w.u);
      ex::step();
      return w.ratio;
    }
    bool should_accept() {
      auto &w = *WP<S>();
      return w.u < std::min(1.0, std::abs(w.ratio));
    }
    void common(bool acc) {
      auto &w = *WP<S>();
      w.calls.push_back(acc ? "accept" : "reject");
      ex::check(w.pending, "once", "accept or reject called more than once or without an attempt");
      w.pending = false;
      ex::check(name == g_path.back(), "accept-target", "accept or reject called on the move ", name, " but ", g_path.back(), " was attempted");
      ex::check(!w.expect_error, "not-finite", "a ratio ", w.ratio, " was not refused");
      ex::check(acc == should_accept(), "acceptance", "ratio ", w.ratio, " number ", w.u, acc ? " accepted" : " rejected");
      double b = w.twin();
      ex::check(b == w.u, "harness", "");
      if (acc)
        for (auto &p : g_path) w.stat[p][1]++;
    }
    S accept() {
      auto &w = *WP<S>();
      common(true);
      if constexpr (std::is_same_v<S, double>)
        w.accept_sign = ex::flip() ? -1 : 1;
      else
        w.accept_sign = ex::pick({S{1, 0}, S{0, 1}, S{-1, 0}});
      w.sign *= phase(w.ratio) * w.accept_sign;
      ex::log("accept, sign ", w.accept_sign);
      return w.accept_sign;
    }
    void reject() { common(false); }
    static std::vector<node> *&w_tree() {
      static std::vector<node> *t;
      return t;
    }
  };
  template <typename S> struct sign_meas {
    void accumulate(S s) {
      auto &w = *WP<S>();
      ex::check(std::abs(s - w.sign) < 1e-12, "sign", "the sign is ", s, " expected ", w.sign);
    }
    void collect_results(mpi::communicator const &) {}
  };
  template <typename S> mc_tools::move_set<S> make_set(std::vector<node> const &v, mc_tools::random_generator &rng) {
    mc_tools::move_set<S> ms(rng);
    for (auto &n : v) {
      if (n.sub.empty())
        ms.add(leaf<S>{n.name}, n.name, n.weight);
      else
        ms.add(make_set<S>(n.sub, rng), n.name, n.weight);
    }
    return ms;
  }
  std::vector<node> tree(int which, double u, int seed) {
    double e = 1.0 / (1ll << 32);
    switch (which) {
      case 0: return {{"a", 1}};
      case 1: return {{"a", 1}, {"b", 1}};
      case 2: return {{"a", 1}, {"z", 0}, {"b", 3}};
      case 3: return {{"a", 2.5}, {"y", 0}, {"b", 7}, {"z", 0}};
      case 4: return {{"a", u}, {"b", 1 - u}};                 // exactly at the boundary: belongs to b
      case 5: return {{"a", u + e}, {"b", 1 - u - e}};         // just below the boundary
      case 6: return {{"a", u - e}, {"z", 0}, {"b", 1 - u + e}};
      case 7: return {{"s", 2, {{"a", 1}, {"b", 2}}}, {"c", 1}};
      case 8: return {{"s", 1, {{"a", 1}, {"t", 3, {{"b", 1}, {"c", 1}}}}}, {"d", 0.3}, {"e", 0.7}};
      case 9: return {{"a", 1e-3}, {"b", 1e3}, {"c", 1e3}};
      case 10: return {{"a", 0.1}, {"b", 0.2}, {"c", 0.3}, {"d", 0.4}, {"e", 0.5}};
    }
    return {};
  }
  void leaves(std::vector<node> const &v, std::vector<std::string> &o) {
    for (auto &n : v) {
      o.push_back(n.name);
      leaves(n.sub, o);
    }
  }
  template <typename S> void body(int depth) {
    quiet_streams q;
    std::ostringstream err;
    auto *old = std::cerr.rdbuf(err.rdbuf());
    struct restore {
      std::streambuf *o;
      ~restore() { std::cerr.rdbuf(o); }
    } rst{old};
    world<S> w;
    WP<S>() = &w;
    int c    = ex::choose(11 * 2);
    int seed = 5 + 13 * (c / 11);
    mpi::has_env = false;
    w.draws      = c / 11;
    w.twin       = mc_tools::random_generator("mt19937", seed);
    auto t       = tree(c % 11, w.twin.preview(), seed);
    leaf<S>::w_tree() = &t;
    mc_tools::mc_generic<S> mc("mt19937", seed, 0);
    w.rng = &mc.get_rng();
    for (auto &n : t) {
      if (n.sub.empty()) {
        leaf<S> l{n.name};
        if (c % 2) mc.add_move(l, n.name, n.weight);
        else mc.add_move(leaf<S>{n.name}, n.name, n.weight);
      } else
        mc.add_move(make_set<S>(n.sub, mc.get_rng()), n.name, n.weight);
    }
    mc.add_measure(sign_meas<S>{}, "sign");
    S init = 1;
    if constexpr (std::is_same_v<S, double>)
      init = c % 2 ? -1 : 1;
    else
      init = c % 2 ? S{0, 1} : S{1};
    // initial sign given to a warmup; then the accumulation goes on from there
    w.sign   = init;
    int nw = ex::choose(2);
    bool thrown = false, stopped = false;
    long n = 0;
    auto run = [&](bool warm, int cycles) {
      w.stat.clear();
      try {
        if (warm) mc.warmup(cycles, 1, []() { return false; }, init);
        else mc.accumulate(cycles, 1, []() { return false; });
      } catch (std::exception const &e) { thrown = true; }
      if (w.expect_error) {
        ex::check(thrown, "not-finite", "a ratio ", w.ratio, " did not end the run with an error");
        if (!g_path.empty()) ex::check(err.str().find("move " + g_path.back()) != std::string::npos, "error-names-move", "the error does not name the move: ", err.str());
        return false;
      }
      ex::check(!thrown, "unexpected-error", "the run ended with an error: ", err.str());
      return !thrown;
    };
    // w.pending must be false after each completed step
    if (!run(true, nw)) return;
    if (!run(false, depth - nw)) return;
    ex::check(!w.pending, "once", "a step ended without accept or reject");
    mc.collect_results(mpi::communicator{});
    auto rates = mc.get_acceptance_rates();
    std::vector<std::string> all;
    leaves(t, all);
    ex::check(rates.size() == all.size(), "rates-names", "acceptance rates of ", rates.size(), " moves instead of ", all.size());
    for (auto &name : all) {
      auto s      = w.stat[name];
      double want = double(s[1]) / s[0];
      if (!ex::check(rates.count(name), "rates-names", "no acceptance rate for ", name)) continue;
      ex::check(s[0] == 0 ? !std::isfinite(rates[name]) : ex::near(rates[name], want, 1e-14), "rates", "acceptance rate of ", name, " is ", rates[name], ", ", s[1], " of ", s[0], " were accepted");
    }
    uint64_t h = c;
    for (auto &x : w.calls) h = ex::mix(h, ex::hash(x));
    ex::state(ex::mix(h, ex::hash(std::abs(w.sign + S(3)))));
    ex::outcome(h);
    ex::sample("tree ", c, " ", w.calls.size(), " calls");
  }
} // namespace
JOB_SHARDED(real_sign, 22) { body<double>(ex::tier(4, 5)); }
JOB_SHARDED(complex_sign, 22) { body<cd>(ex::tier(3, 4)); }

// the whole interval structure: many generator numbers, every set of weights in a small range
JOB_SHARDED(selection, 3) {
  quiet_streams q;
  int n = 1 + ex::choose(3);
  std::vector<double> w;
  double tot = 0;
  for (int i = 0; i < n; ++i) w.push_back(ex::pick({0.25, 1.0, 3.0, 1.0 / 3, i ? 0.0 : 7.0})), tot += w.back(); // the first weight has to be positive
  if (tot == 0) return;
  int seed = 11 + ex::choose(2);
  mc_tools::random_generator rng("mt19937", seed), twin("mt19937", seed);
  struct l {
    int i, *hit, *n;
    double attempt() { *hit = i, ++*n; return 1; }
    double accept() { return 1; }
    void reject() {}
  };
  int hit = -1, calls = 0;
  mc_tools::move_set<double> ms(rng);
  for (int i = 0; i < n; ++i) ms.add(l{i, &hit, &calls}, "m", w[i]);
  for (int k = 0; k < 1500; ++k) {
    double u = twin(), lo = 0;
    calls    = 0;
    ms.attempt();
    ex::step();
    for (int i = 0; i < hit; ++i) lo += w[i] / tot;
    ex::check(calls == 1, "attempt-once", "a step attempts ", calls, " moves");
    ex::check(w[hit] > 0, "zero-weight", "a move of zero weight was proposed");
    ex::check(u >= lo - 1e-12 && u < lo + w[hit] / tot + 1e-12, "selection", "the number ", u, " selects the move ", hit);
    ms.accept();
  }
  ex::state(ex::hash(w));
}
