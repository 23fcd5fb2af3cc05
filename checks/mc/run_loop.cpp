// C01: the Monte Carlo run loop against a sequential reference of its calls.
#include "mc_common.hpp"
using mc_t = mc_tools::mc_generic<double>;

struct world {
  std::string ev;              // the calls received
  std::vector<double> signs;   // signs seen by measures
  int n_attempt = 0, pattern = 0, stop_calls = 0, stop_at = 0;
  std::map<int, std::array<long, 2>> stat;
};
static world *W;

// deterministic sequences of ratios: the number of the attempt decides
static double ratio_of(int pattern, int n) {
  switch (pattern) {
    case 0: return 2.0;                              // always accepted
    case 1: return 0.0;                              // never accepted (the uniform number is > 0 or equal: not below 0)
    default: return (n % 3 == 0) ? -4.0 : (n % 3 == 1 ? 0.0 : 3.0); // accepted with -, rejected, accepted
  }
}
struct mv {
  int id;
  double last = 0;
  double attempt() {
    W->ev += 'A';
    W->stat[id][0]++;
    last = ratio_of(W->pattern, W->n_attempt++);
    return last;
  }
  double accept() {
    W->ev += '+';
    W->stat[id][1]++;
    return W->pattern == 2 && id == 1 ? -1.0 : 1.0;
  }
  void reject() { W->ev += '-'; }
};
struct meas {
  char name;
  long n = 0;
  void accumulate(double s) {
    W->ev += name;
    W->signs.push_back(s);
    ++n;
  }
  void collect_results(mpi::communicator const &) { W->ev += 'C'; }
  friend void h5_write(h5::group g, std::string const &k, meas const &m) { h5_write(g, k, m.n); }
  friend void h5_read(h5::group g, std::string const &k, meas &m) { h5_read(g, k, m.n); }
};
struct aux {
  void operator()() { W->ev += 'x'; }
};

static std::string sorted(std::string s) {
  std::sort(s.begin(), s.end());
  return s;
}
// split in cycles at every stop-callback call
static void compare(std::string const &got, std::string const &want, char const *key, std::string const &what) {
  // the calls of measures (and of aux) may come in any order among themselves
  auto canon = [](std::string const &s) {
    std::string r, buf;
    char kind = 0;
    auto flush = [&] { r += sorted(buf); buf.clear(); };
    for (char c : s) {
      char k = (c == 'a' || c == 'b') ? 'm' : (c == 'x' ? 'x' : 0);
      if (k != kind || !k) flush();
      kind = k;
      if (k) buf += c; else r += c;
    }
    flush();
    return r;
  };
  ex::check(canon(got) == canon(want), key, what, ": calls ", got, " expected ", want);
}

struct cfg {
  int nmoves, nmeas, naux, pattern;
  bool duty;
};

static void body(bool long_runs) {
  quiet_streams q;
  world w;
  W = &w;
  cfg c;
  int first = ex::choose(2 * (long_runs ? 9 : 5));
  c.nmoves  = 1 + first % 2;
  int reg   = first / 2; // registered measures and auxiliary measures
  c.nmeas   = std::array{2, 0, 1, 2, 0, 1, 0, 1, 2}[reg];
  c.naux    = std::array{1, 0, 0, 2, 1, 1, 2, 2, 0}[reg];
  c.pattern = ex::choose(3);
  c.duty    = ex::flip();
  bool env  = c.nmoves == 1;
  mpi::has_env = env;
  w.pattern = c.pattern;
  mc_t mc("mt19937", 17, 0);
  for (int i = 0; i < c.nmoves; ++i) mc.add_move(mv{i}, "move" + std::to_string(i), 1.0 + i);
  std::vector<mc_tools::measure_set<double>::measure_itr_t> handles;
  for (int i = 0; i < c.nmeas; ++i) handles.push_back(mc.add_measure(meas{char('a' + i)}, std::string("meas") + char('a' + i)));
  for (int i = 0; i < c.naux; ++i) mc.add_measure_aux(std::make_shared<aux>());
  if (c.duty) mc.set_after_cycle_duty([]() { W->ev += 'D'; });
  auto stop = []() {
    W->ev += 'S';
    return ++W->stop_calls == W->stop_at;
  };
  double sign    = 1;
  long cycles    = 0, configs = 0;
  int live_meas  = c.nmeas;
  std::string live = std::string("ab").substr(0, c.nmeas);
  long last_nmeasures = 0;
  int runs = 1 + ex::choose(c.duty ? 1 : 2);
  bool warm_acc = false;
  for (int r = 0; r < runs; ++r) {
    // a change of the measures between runs
    if (r > 0 && live_meas > 0) {
      int what = ex::choose(3);
      if (what == 1) {
        mc.rm_measure(handles[0]);
        live.erase(0, 1), --live_meas;
      } else if (what == 2) {
        mc.clear_measures();
        live.clear(), live_meas = 0;
      }
    }
    if (live_meas > 0) {
      bool thrown = false;
      try {
        mc.add_measure(meas{'z'}, std::string("meas") + live[0]);
      } catch (std::exception const &) { thrown = true; }
      ex::check(thrown, "duplicate-measure", "a second measure of the same name was accepted");
    }
    bool small  = (r > 0 && !long_runs);
    int N       = small ? ex::pick({0, 2, -1}) : ex::pick({0, 1, 2, 3, -1});
    int L       = 1 + (small ? 0 : ex::choose(long_runs ? 3 : 2));
    int nstop   = N == 0 ? 0 : (small ? ex::choose(2) : ex::choose(N < 0 ? 3 : 4));
    w.stop_at   = N < 0 ? nstop + 1 : nstop; // 0: never
    int kind    = ex::choose(small ? 2 : 4); // warmup, accumulate, either with an initial sign, both
    w.stop_calls = 0;
    w.ev.clear();
    w.signs.clear();
    w.stat.clear();
    int n0 = w.n_attempt;
    // ---- reference
    std::string want;
    std::vector<double> wsigns;
    int at = n0;
    // the uniform numbers decide only which move is chosen: follow the real selection through a recording of ids is not
    // needed as the sign returned by accept depends on the move only in pattern 2; recompute it from the events below.
    auto sim = [&](int n, bool meas_on, int &stops, int &cyc) {
      int status = 0;
      cyc        = 0;
      if (n == 0) return 0;
      for (int k = 0; n < 0 || k < n; ++k) {
        for (int l = 0; l < L; ++l) {
          double x = ratio_of(c.pattern, at++);
          want += 'A';
          want += (std::abs(x) > 0 ? '+' : '-');
        }
        if (c.duty) want += 'D';
        if (meas_on) {
          want += std::string(c.naux, 'x');
          want += live;
        }
        want += 'S';
        ++cyc;
        if (++stops == w.stop_at && !(n > 0 && k + 1 >= n)) return 1;
      }
      return status;
    };
    int stops = 0, cyc1 = 0, cyc2 = 0, wstatus, status, measured = 0;
    bool meas_on = (kind == 1);
    if (kind == 0) {
      wstatus = sim(N, false, stops, cyc1);
      status  = mc.warmup(N, L, stop);
      last_nmeasures = 0;
    } else if (kind == 1) {
      wstatus = sim(N, true, stops, cyc1);
      status  = mc.accumulate(N, L, stop);
      last_nmeasures = cyc1;
    } else if (kind == 2) {
      sign    = -1;
      wstatus = sim(N, false, stops, cyc1);
      status  = mc.warmup(N, L, stop, -1.0);
      last_nmeasures = 0;
    } else {
      warm_acc = true;
      int M    = ex::pick({2, 0, 1});
      if (N < 0) M = 1;
      wstatus = sim(N, false, stops, cyc1);
      if (wstatus == 0) {
        wstatus        = sim(M, true, stops, cyc2);
        last_nmeasures = cyc2;
      } else
        last_nmeasures = 0;
      status = mc.warmup_and_accumulate(N, M, L, stop);
    }
    ex::step(w.ev.size());
    ex::log("run ", r, " kind ", kind, " N ", N, " L ", L, " stop_at ", w.stop_at, " -> ", status, " events ", w.ev);
    ex::check(status == wstatus, "status", "returned ", status, " expected ", wstatus, " for N=", N, " stop at callback call ", w.stop_at);
    compare(w.ev, want, "calls", ex::cat("N=", N, " L=", L));
    // signs seen by the measures: recomputed from what the moves returned. The identity of the move matters only in pattern 2 with
    // two moves; then the product over accepted moves is compared through the counters of each move
    if (!(c.pattern == 2 && c.nmoves == 2)) {
      int a = n0;
      size_t is = 0;
      double s = sign;
      for (char ch : w.ev) {
        if (ch == 'A') ++a;
        if (ch == '+') s *= (ratio_of(c.pattern, a - 1) < 0 ? -1 : 1);
        if (ch == 'a' || ch == 'b') ex::check(is < w.signs.size() && w.signs[is++] == s, "sign", "a measure received a wrong sign");
      }
      sign = s;
    } else {
      int a = n0;
      double s = sign;
      for (char ch : w.ev) {
        if (ch == 'A') ++a;
        if (ch == '+') s *= (ratio_of(c.pattern, a - 1) < 0 ? -1 : 1);
      }
      if (w.stat[1][1] % 2) s = -s;
      sign = s;
      if (!w.signs.empty() && wstatus == 0 && kind == 1) ex::check(w.signs.back() == sign, "sign", "the last measure received a wrong sign");
    }
    cycles += cyc1 + cyc2;
    configs += (w.n_attempt - n0);
    ex::check(mc.get_current_cycle_number() == cycles, "cycle-number", "cycle number ", mc.get_current_cycle_number(), " expected ", cycles);
    ex::check(mc.get_config_id() == configs, "config-id", "configuration number ", mc.get_config_id(), " expected ", configs);
    if (status == 0 && N > 0) ex::check(mc.get_percent() == 100 || kind == 3, "percent", "percent done ", mc.get_percent());
    double t1 = mc.get_total_time();
    ex::check(t1 >= 0 && t1 < 60, "time", "total time ", t1);
    if (kind <= 2) { // the clock of a finished run stands still
      double u1 = kind == 1 ? mc.get_accumulation_time() : mc.get_warmup_time();
      double u2 = kind == 1 ? mc.get_accumulation_time() : mc.get_warmup_time();
      for (int i = 0; i < 50 && u1 == u2; ++i) u2 = kind == 1 ? mc.get_accumulation_time() : mc.get_warmup_time();
      ex::check(u1 == u2, "timer-stopped", "the time of a finished run of ", N, " cycles still increases");
    }
    // ---- statistics
    auto stat = w.stat;
    w.ev.clear();
    mc.collect_results(mpi::communicator{});
    ex::check(w.ev == std::string(live_meas, 'C'), "collect", "collect_results reached ", w.ev.size(), " measures of ", live_meas);
    auto rates = mc.get_acceptance_rates();
    if (kind != 3)
      for (int i = 0; i < c.nmoves; ++i) {
        double want_rate = stat[i][1] / double(stat[i][0]), got = rates.at("move" + std::to_string(i));
        ex::check(ex::near(got, want_rate, 1e-14), "acceptance-rate", "move ", i, " rate ", got, " expected ", want_rate);
      }
    // ---- HDF5 record
    if (c.pattern == 2 || reg == 0) {
      h5::file f("c01.h5", 'w');
      h5::group g(f);
      h5_write(g, "mc", mc);
      auto gr = g.open_group("mc");
      ex::check(h5::h5_read<long>(gr, "number_cycle_done") == cycles, "h5-cycles", "number_cycle_done wrong");
      ex::check(h5::h5_read<long>(gr, "number_measure_done") == last_nmeasures, "h5-measures", "number_measure_done ", h5::h5_read<long>(gr, "number_measure_done"), " expected ", last_nmeasures);
      ex::check(h5::h5_read<double>(gr, "sign") == sign, "h5-sign", "sign ", h5::h5_read<double>(gr, "sign"), " expected ", sign);
      mc_t mc2("mt19937", 5, 0);
      for (int i = 0; i < c.nmoves; ++i) mc2.add_move(mv{i}, "move" + std::to_string(i), 1.0 + i);
      for (char ch : live) mc2.add_measure(meas{ch}, std::string("meas") + ch);
      h5_read(g, "mc", mc2);
      h5_write(g, "mc2", mc2);
      auto gr2 = g.open_group("mc2");
      for (auto k : {"number_cycle_done", "number_measure_done", "sign"})
        ex::check(h5::h5_read<double>(gr, k) == h5::h5_read<double>(gr2, k), "h5-roundtrip", k, " changed by an HDF5 round trip");
      for (char ch : live) {
        auto k = std::string("meas") + ch;
        ex::check(h5::h5_read<long>(gr.open_group("measures"), k) == h5::h5_read<long>(gr2.open_group("measures"), k), "h5-measure", "measure state changed");
      }
    }
    ex::state(ex::hash(ex::cat(want, status, sign, cycles, live)));
    ex::outcome(ex::hash(ex::cat(want, status)));
    if (r == 0) ex::sample("N=", N, " L=", L, " stop_at=", w.stop_at, " calls=", want, " status=", status);
  }
}
JOB_SHARDED(run_loop, 16) { body(ex::thorough()); }

// the constructor of a run refuses nothing else: without moves the first attempt is an error
JOB(no_moves) {
  quiet_streams q;
  world w;
  W            = &w;
  mpi::has_env = ex::flip();
  mc_t mc("mt19937", 1, 0);
  bool thrown = false;
  try {
    mc.accumulate(1 + ex::choose(2), 1, []() { return false; });
  } catch (std::exception const &) { thrown = true; }
  ex::step();
  ex::check(thrown, "no-moves", "a run without any move did not fail");
}
// an exception in any callback: the run ends with an exception, in serial runs with or without an MPI environment
JOB(throwing_callbacks) {
  quiet_streams q;
  world w;
  W            = &w;
  mpi::has_env = ex::flip();
  int where = ex::choose(6), when = 1 + ex::choose(3), count = 0;
  struct tm_ {
    int where, when, *count;
    void hit(int w) const {
      if (w == where && ++*count == when) throw std::runtime_error("from the user code");
    }
    double attempt() { hit(0); W->ev += 'A'; return W->n_attempt++ % 2 ? 0 : 2; }
    double accept() { hit(1); W->ev += '+'; return 1; }
    void reject() { hit(2); W->ev += '-'; }
    void accumulate(double) { hit(3); W->ev += 'a'; }
    void collect_results(mpi::communicator const &) {}
    void operator()() { hit(4); W->ev += 'x'; }
  } t{where, when, &count};
  mc_t mc("mt19937", 1, 0);
  mc.add_move(t, "m", 1);
  mc.add_measure(t, "a");
  mc.add_measure_aux(std::make_shared<tm_>(t));
  mc.set_after_cycle_duty([t]() { t.hit(5); W->ev += 'D'; });
  bool thrown = false;
  try {
    mc.accumulate(8, 2, []() { W->ev += 'S'; return false; });
  } catch (std::exception const &) { thrown = true; }
  ex::step(w.ev.size());
  ex::state(ex::hash(w.ev));
  ex::outcome(ex::hash(w.ev));
  ex::log(w.ev);
  ex::check(thrown, "exception-lost", "an exception thrown in callback ", where, " at its call ", when, " did not end the run with an exception");
  // nothing more of that cycle is done after the exception, and no new cycle begins
  auto n = std::count(w.ev.begin(), w.ev.end(), 'S');
  std::string full = "A+A-DxaS", want;
  for (int k = 0; k < 8 * 8; ++k) {
    char ch = full[k % 8];
    static const char kinds[] = {'A', '+', '-', 'a', 'x', 'D'};
    int c = std::count(want.begin(), want.end(), kinds[where]);
    if (ch == kinds[where] && c == when - 1) break;
    want += ch;
  }
  ex::check(w.ev == want || w.ev == want + "S", "exception-calls", "calls ", w.ev, " expected ", want, "[S]");
  // the object can run again
  if (thrown && where != 0) {
    count = 100;
    w.ev.clear();
    w.n_attempt = 0;
    int st = -1;
    try { st = mc.accumulate(1, 2, []() { W->ev += 'S'; return false; }); } catch (...) {}
    ex::check(st == 0 && w.ev == "A+A-DxaS", "run-after-exception", "status ", st, " calls ", w.ev);
  }
}
