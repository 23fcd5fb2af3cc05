// C06: parallel runs on virtual ranks: every interleaving within a bound on the preemptions and the message delays
#include "mc_common.hpp"
using mc_t = mc_tools::mc_generic<double>;
struct rank_world {
  int throw_where = -1, throw_when = 0, count = 0; // throw at the throw_when-th call of the kind throw_where
  int attempts = 0, cycles = 0, measures = 0, accepted = 0;
  int threw = 0;
  long after_throw = 0; // attempts made after having thrown
};
static std::vector<rank_world> *RW;
static int me() { return mpi::communicator{}.rank(); }
static void hit(int where) {
  auto &w = (*RW)[me()];
  ex::step();
  if (where == w.throw_where && ++w.count == w.throw_when) {
    w.threw++;
    throw std::runtime_error("thrown by the user code");
  }
}
struct mv {
  double attempt() {
    auto &w = (*RW)[me()];
    if (w.threw) w.after_throw++;
    hit(0);
    return (w.attempts++ + me()) % (2 + me()) ? 2 : 0;
  }
  double accept() {
    hit(1);
    (*RW)[me()].accepted++;
    return 1;
  }
  void reject() { hit(2); }
};
struct ms {
  long n = 0, *total;
  void accumulate(double) {
    hit(3);
    n += 1 + me();
    (*RW)[me()].measures++;
  }
  void collect_results(mpi::communicator const &c) { *total = mpi::all_reduce(n, c); }
};
struct ax {
  void operator()() { hit(4); }
};
struct result {
  int status = -1;
  bool thrown = false;
  std::map<std::string, double> rates;
  long total = 0;
  int status2 = -1;
  bool endless = false;
};
static std::vector<int> sched_trace;
static int burst;
// the base schedule gives each rank in turn `burst` scheduling points; any other choice is a deviation
static mpi::sim::outcome simulate(int n, std::function<void(int)> f, int delays) {
  sched_trace.clear();
  int used = 0, run = 0;
  burst    = ex::pick({1, 4, 15});
  return mpi::sim::run(
     n, f,
     [&run, n](std::vector<int> const &en, int last) {
       std::vector<int> order;
       auto enabled = [&](int r) { return std::find(en.begin(), en.end(), r) != en.end(); };
       if (last >= 0 && run < burst && enabled(last)) order.push_back(last);
       for (int k = 1; k <= n; ++k) {
         int r = (last + k + n) % n;
         if (enabled(r) && (order.empty() || order[0] != r)) order.push_back(r);
       }
       int r = order[ex::choose(order.size(), true)];
       run   = r == last ? run + 1 : 0;
       sched_trace.push_back(r);
       return int(std::find(en.begin(), en.end(), r) - en.begin());
     },
     [&used, delays](int) -> int {
       if (used >= delays) return 0;
       int d = ex::choose(2, true);
       used += d;
       return d;
     });
}
static void add_all(mc_t &mc, result &r) {
  mc.add_move(mv{}, "move", 1);
  mc.add_move(mv{}, "move2", 2);
  mc.add_measure(ms{0, &r.total}, "m");
  mc.add_measure_aux(std::make_shared<ax>());
  mc.set_after_cycle_duty([]() { hit(5); (*RW)[me()].cycles++; });
}
static void exceptions(int n) {
  quiet_streams q;
  mpi::has_env = true;
  int where = ex::choose(6);
  std::vector<rank_world> rw(n);
  RW = &rw;
  int who            = ex::choose(n);
  rw[who].throw_where = where, rw[who].throw_when = 1 + ex::choose(2);
  int second = ex::choose(2); // a second rank throws as well
  if (second) rw[(who + 1) % n].throw_where = (where + 3) % 6, rw[(who + 1) % n].throw_when = 1;
  int L = 2, kind = ex::choose(3); // accumulation, warmup, both
  bool warm = kind == 1;
  int N0    = (warm && (where == 3 || where == 4)) || kind == 2 ? 2 : ex::pick({-1, 2});
  ex::E().dev_bound = ex::tier(n == 2 ? 3 : 2, n == 2 ? 4 : 3);
  std::vector<result> res(n);
  auto out = simulate(n, [&](int r) {
    mc_t mc("mt19937", 11 + r, 0);
    add_all(mc, res[r]);
    try {
      long calls    = 0; // a run which nobody stops is ended here
      auto cb       = [&]() { return ++calls > 2000 ? (res[r].endless = true) : false; };
      int64_t N     = N0 < 0 ? -1 : N0 + r;
      res[r].status = kind == 0 ? mc.accumulate(N, L, cb) : kind == 1 ? mc.warmup(N, L, cb) : mc.warmup_and_accumulate(1 + r, N, L, cb);
    } catch (mpi::sim::aborted const &) { throw; } catch (std::exception const &) { res[r].thrown = true; }
    // the next run on the same ranks works
    for (auto &w : rw) w.throw_where = -1;
    int cyc = rw[r].cycles;
    res[r].status2 = mc.accumulate(1, 1, []() { return false; });
    if (rw[r].cycles != cyc + 1) res[r].status2 = 99;
  }, ex::tier(2, 3));
  std::string s;
  for (int x : sched_trace) s += char('0' + x);
  std::string what = ex::cat(n, " ranks, rank ", who, " throws from call ", where, kind == 0 ? " in the accumulation" : kind == 1 ? " in the warmup" : " in warmup and accumulation", second ? " and another one too" : "", ", schedule ", s);
  int threw = 0;
  for (auto &w : rw) threw += w.threw;
  if (!ex::check(out.error.empty(), "deadlock", what, ": ", out.error)) return;
  for (int r = 0; r < n; ++r) {
    if (out.exceptions[r]) ex::check(false, "escape", what, ": rank ", r, " ended with an exception after the run");
    ex::check(!res[r].endless, "endless", what, ": rank ", r, " goes on for ever");
    if (threw) ex::check(res[r].thrown, "not-propagated", what, ": rank ", r, " left the run with ", res[r].status, " instead of an exception");
    else ex::check(res[r].status == 0, "no-exception", what, ": rank ", r, " returned ", res[r].status, " without any exception");
    ex::check(rw[r].after_throw <= 1, "goes-on", what, ": rank ", r, " goes on after its own exception"); // one: that of the next run
    ex::check(res[r].status2 == 0, "next-run", what, ": the next run on rank ", r, " returned ", res[r].status2);
  }
  uint64_t h = ex::hash(s);
  for (auto &w : rw) h = ex::mix(h, w.attempts * 100 + w.cycles);
  ex::state(h);
  ex::outcome(ex::mix(threw, rw[0].cycles * 10 + rw[1].cycles));
  ex::sample(what);
}
JOB_SHARDED(exceptions_2_ranks, 6) { exceptions(2); }
JOB_SHARDED(exceptions_3_ranks, 6) { exceptions(3); }

// no exception: every rank does its own cycles; the collected statistics are those of all the ranks together
static void calm(int n) {
  quiet_streams q;
  mpi::has_env = true;
  std::vector<rank_world> rw(n);
  RW = &rw;
  int cfg = ex::choose(6);
  std::vector<int> N(n), stop(n);
  for (int r = 0; r < n; ++r) {
    N[r]    = ex::pick({1, 3, -1});
    stop[r] = N[r] < 0 ? 2 : (cfg + r) % 3;
  }
  int L = 1 + cfg % 2;
  bool rethrow = cfg % 3;
  ex::E().dev_bound = ex::tier(1, 2);
  std::vector<result> res(n);
  auto out = simulate(n, [&](int r) {
    mc_t mc("mt19937", 11 + r, 0, rethrow);
    add_all(mc, res[r]);
    int calls = 0;
    mc.warmup(1, 1, []() { return false; });
    auto &w = rw[r];
    w.attempts = w.cycles = w.measures = w.accepted = 0;
    mpi::communicator world;
    res[r].status = mc.accumulate(N[r], L, [&, r]() { return ++calls == stop[r]; }, world);
    mc.collect_results(world);
    res[r].rates = mc.get_acceptance_rates();
  }, 1);
  std::string what = ex::cat(n, " ranks, L=", L, " cycles");
  for (int r = 0; r < n; ++r) what += ex::cat(" ", N[r], "/stop ", stop[r]);
  if (!ex::check(out.error.empty(), "deadlock", what, ": ", out.error)) return;
  long total = 0, att = 0, acc = 0;
  for (int r = 0; r < n; ++r) {
    int want = (stop[r] && (N[r] < 0 || stop[r] < N[r])) ? stop[r] : N[r];
    ex::check(!out.exceptions[r], "exception", what, ": rank ", r, " ended with an exception");
    ex::check(rw[r].cycles == want && rw[r].attempts == want * L && rw[r].measures == want, "own-cycles", what, ": rank ", r, " made ", rw[r].cycles, " cycles and ", rw[r].attempts, " attempts");
    ex::check(res[r].status == (want == N[r] ? 0 : 1), "status", what, ": rank ", r, " returned ", res[r].status);
    total += long(want) * (1 + r);
    att += rw[r].attempts;
    acc += rw[r].accepted;
  }
  for (int r = 0; r < n; ++r) {
    ex::check(res[r].total == total, "collect", what, ": the measure collected on rank ", r, " is ", res[r].total, " instead of ", total);
    // the two moves together
    ex::check(res[r].rates.size() == 2, "rates", what, ": acceptance rates missing on rank ", r);
    for (auto &[k, v] : res[r].rates) ex::check((std::isnan(v) && std::isnan(res[0].rates[k])) || v == res[0].rates[k], "rates", what, ": rank ", r, " and rank 0 disagree on the acceptance rate of ", k);
  }
  ex::state(ex::hash(what + std::to_string(sched_trace.size())));
  ex::outcome(ex::mix(total, acc));
  ex::sample(what, ": total ", total, " accepted ", acc, " of ", att);
}
JOB_SHARDED(calm_2_ranks, 6) { calm(2); }
JOB_SHARDED(calm_3_ranks, 6) { calm(3); }

// acceptance rates over the ranks
JOB(rates) {
  quiet_streams q;
  mpi::has_env = true;
  int n        = 1 + ex::choose(3);
  std::vector<rank_world> rw(n);
  RW = &rw;
  ex::E().dev_bound = 1;
  int N = 1 + ex::choose(4), L = 1 + ex::choose(3);
  std::vector<result> res(n);
  auto out = simulate(n, [&](int r) {
    mc_t mc("mt19937", 11 + r, 0);
    mc.add_move(mv{}, "move", 1);
    mc.accumulate(N + r, L, []() { return false; });
    mc.collect_results({});
    res[r].rates = mc.get_acceptance_rates();
  }, 0);
  ex::check(out.error.empty(), "deadlock", out.error);
  long att = 0, acc = 0;
  for (auto &w : rw) att += w.attempts, acc += w.accepted;
  for (auto &r : res) ex::check(ex::near(r.rates["move"], double(acc) / att, 1e-14), "rates", n, " ranks: acceptance rate ", r.rates["move"], " instead of ", acc, "/", att);
  ex::state(n * 100 + N * 10 + L);
}
// exception propagation disabled: the whole job is aborted
JOB(abort) {
  quiet_streams q;
  mpi::has_env = ex::flip();
  int n        = 2;
  std::vector<rank_world> rw(n);
  RW = &rw;
  int who = ex::choose(n);
  rw[who].throw_where = ex::choose(6), rw[who].throw_when = 1;
  std::vector<result> res(n);
  ex::E().dev_bound = 1;
  auto out = simulate(n, [&](int r) {
    mc_t mc("mt19937", 11 + r, 0, false);
    add_all(mc, res[r]);
    res[r].status = mc.accumulate(-1, 1, [r]() { mpi::sim::point(); return false; });
  }, 0);
  ex::check(out.aborted, "abort", "an exception with the propagation disabled does not abort the job: ", out.error);
  ex::state(who * 10 + rw[who].throw_where);
}
