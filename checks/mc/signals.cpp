// C03: a signal delivered at every point of a run. Callback points are checked exactly; every function entry and exit of
// the simulation (and of the handler itself) is a delivery point too (-finstrument-functions).
#define EX_NO_MAIN
#include "mc_common.hpp"
#include <csignal>
#define NOI __attribute__((no_instrument_function))
static const int SIGS[6] = {SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1, SIGUSR2};
extern "C" {
static bool inj_active = false, inj_raising = false;
static long inj_point = 0, inj_at = -1, inj_hpoint = 0, inj_hat = -1, inj_hcount = 0;
static int inj_sig = SIGINT, inj_sig2 = SIGTERM, inj_raised = 0;
static void (*on_raise)() = nullptr;
NOI void inj_hook() {
  if (!inj_active) return;
  if (inj_raising) { // inside the handler of the first signal
    if (inj_hpoint++ == inj_hat) {
      inj_active = false;
      ++inj_raised;
      inj_active = true;
      long keep  = inj_hat;
      inj_hat    = -1;
      raise(inj_sig2);
      inj_hat = keep;
    }
    return;
  }
  if (inj_point++ == inj_at) {
    inj_raising = true;
    inj_hpoint  = 0;
    ++inj_raised;
    if (on_raise) on_raise();
    raise(inj_sig);
    inj_hcount  = inj_hpoint;
    inj_raising = false;
  }
}
NOI void __cyg_profile_func_enter(void *, void *) { inj_hook(); }
NOI void __cyg_profile_func_exit(void *, void *) { inj_hook(); }
}

struct world {
  std::string ev;
  int events = 0;
  std::vector<std::pair<int, int>> raises; // (event number, signal)
  int stop_at = 0, stops = 0, pattern = 0, attempts = 0;
  long attempts_after = 0;
  bool raised         = false;
  std::vector<int> delivered;
};
static world *W;
static void event(char c) {
  W->ev += c;
  if (W->raised && c == 'A') W->attempts_after++;
  for (auto &[e, s] : W->raises)
    if (e == W->events) {
      W->ev += '!';
      W->raised = true;
      W->delivered.push_back(s);
      raise(s);
    }
  W->events++;
}
struct mv {
  double attempt() {
    event('A');
    return W->attempts++ % 2 ? 0.0 : 2.0;
  }
  double accept() { event('+'); return 1; }
  void reject() { event('-'); }
};
struct ms {
  void accumulate(double) { event('a'); }
  void collect_results(mpi::communicator const &) {}
};
struct ax {
  void operator()() { event('x'); }
};
struct ref_t {
  std::string ev;
  int status, events = 0;
};
// reference: the run with signals at given events
static ref_t reference(int N, int L, bool measure, bool duty, std::vector<std::pair<int, int>> raises, int stop_at, int ev0, int att0) {
  ref_t r;
  r.events      = ev0;
  bool received = false;
  int attempts = att0, stops = 0;
  auto event = [&](char c) {
    r.ev += c;
    for (auto &[e, s] : raises)
      if (e == r.events) r.ev += '!', received = true;
    r.events++;
  };
  for (int NC = 0;; ++NC) {
    bool interrupted = false;
    for (int k = 0; k < L && !interrupted; ++k) {
      if (received) interrupted = true;
      else {
        event('A');
        event(attempts++ % 2 ? '-' : '+');
      }
    }
    if (!interrupted) {
      if (duty) event('D');
      if (measure) event('x'), event('a');
    }
    event('S');
    bool cb       = ++stops == stop_at;
    bool finished = N >= 0 && NC + 1 >= N && !interrupted;
    if (finished || cb || received) {
      r.status = finished ? 0 : (received ? 2 : 1);
      return r;
    }
  }
}
using mc_t = mc_tools::mc_generic<double>;
static void setup(mc_t &mc, bool duty) {
  mc.add_move(mv{}, "m", 1);
  mc.add_measure(ms{}, "a");
  mc.add_measure_aux(std::make_shared<ax>());
  if (duty) mc.set_after_cycle_duty([]() { event('D'); });
}
static std::string canon(std::string s) { return s; }

// one or two signals at callback points, then a second run
static void callbacks() {
  quiet_streams q;
  world w;
  W = &w;
  int c = ex::choose(16);
  bool measure = c % 2, duty = (c / 2) % 2;
  mpi::has_env = c / 4 % 2;
  bool two_sig_same_event = c / 8;
  int N = ex::pick({1, 2, 3, -1}), L = 1 + ex::choose(ex::tier(2, 3));
  w.stop_at = N < 0 ? 3 : ex::pick({0, 2});
  mc_t mc("mt19937", 3, 0);
  setup(mc, duty);
  auto calm = reference(N, L, measure, duty, {}, w.stop_at, 0, 0);
  int e1    = ex::choose(calm.events), s1 = ex::choose(6);
  w.raises.push_back({e1, SIGS[s1]});
  if (ex::flip()) { // a second signal
    int e2 = two_sig_same_event ? e1 : e1 + ex::choose(std::min(4, calm.events - e1));
    w.raises.push_back({e2, SIGS[(s1 + 1 + 2 * ex::choose(2)) % 6]});
  }
  auto want = reference(N, L, measure, duty, w.raises, w.stop_at, 0, 0);
  // what is in the queue when the stop callback is called
  bool queue_ok = true;
  auto stop     = [&]() {
    event('S');
    if (triqs::signal_handler::received() != !w.delivered.empty()) queue_ok = false;
    if (!w.delivered.empty() && triqs::signal_handler::last() != w.delivered.back()) queue_ok = false;
    return ++w.stops == w.stop_at;
  };
  int st = measure ? mc.accumulate(N, L, stop) : mc.warmup(N, L, stop);
  ex::step(w.events);
  ex::check(w.ev == want.ev, "stop", "N=", N, " L=", L, ": calls ", w.ev, " expected ", want.ev);
  ex::check(st == want.status, "status", "N=", N, " L=", L, " calls ", w.ev, ": returned ", st, " expected ", want.status);
  ex::check(queue_ok, "queue", "the signal queue seen by the stop callback is not what was delivered");
  ex::state(ex::mix(ex::hash(w.ev), N * 100 + L));
  ex::outcome(ex::mix(st, ex::hash(w.ev)));
  ex::sample("N=", N, " L=", L, " ", w.ev, " -> ", st);
  // the next run does not see them
  world w2;
  W = &w2;
  w2.attempts = 0;
  auto want2 = reference(2, 1, true, duty, {}, 0, 0, 0);
  int st2    = mc.accumulate(2, 1, []() { event('S'); return false; });
  ex::check(st2 == 0 && w2.ev == want2.ev, "leak", "a signal of the previous run stops the next one: returned ", st2, " calls ", w2.ev);
}
JOB_SHARDED(signals_at_callbacks, 16) { callbacks(); }

// delivery at any function boundary of the whole run
static void anywhere(bool nested) {
  quiet_streams q;
  int c = ex::choose(8);
  bool measure = c % 2, duty = c / 2 % 2;
  mpi::has_env = c / 4;
  int N = 1 + ex::choose(2), L = nested ? 1 : 1 + ex::choose(2);
  bool raised_before_last_stop = false;
  auto run = [&](long at, int sig, long hat, world &w) {
    W = &w;
    mc_t mc("mt19937", 3, 0);
    setup(mc, duty);
    inj_point = 0, inj_at = at, inj_hat = hat, inj_sig = sig, inj_sig2 = sig == SIGUSR1 ? SIGTERM : SIGUSR1, inj_raised = 0, inj_hcount = 0;
    inj_raising = false;
    on_raise    = []() { W->raised = true; };
    std::vector<int> q;
    bool seen = false, first = true;
    auto stop = [&]() {
      event('S');
      raised_before_last_stop = inj_raised > 0;
      if (inj_raised) {
        inj_active = false;
        // once delivered and until the end of the run it must be there
        q.clear();
        seen = triqs::signal_handler::received();
        if (seen) q.push_back(triqs::signal_handler::last());
        inj_active = true;
      }
      return false;
    };
    // the handlers are installed by start: called before the run so that no signal comes before
    triqs::signal_handler::stop();
    triqs::signal_handler::start();
    inj_active = true;
    int st     = measure ? mc.accumulate(N, L, stop) : mc.warmup(N, L, stop);
    inj_active = false;
    return st;
  };
  triqs::signal_handler::start();
  for (int i = 0; i < 8; ++i) raise(SIGINT); // the list has its capacity from the beginning (reentrant_queue looks at its growth)
  triqs::signal_handler::stop();
  static bool warm = false;
  if (!warm) { // static initialisations
    world wz;
    run(-1, SIGINT, -1, wz);
    run(3, SIGINT, -1, wz);
    warm = true;
  }
  world w0;
  run(-1, SIGINT, -1, w0);
  long P = inj_point;
  ex::count("delivery_points", 1);
  int stride = ex::tier(nested ? 3 : 1, 1);
  long at    = ex::choose(P / stride) * stride;
  int sig    = SIGS[nested ? 3 : ex::choose(ex::tier(2, 6))];
  long hat   = -1;
  if (nested) {
    world w1;
    run(at, sig, -1, w1);
    if (inj_hcount == 0) return;
    hat = ex::choose(inj_hcount);
  }
  world w;
  int st = run(at, sig, hat, w);
  ex::step();
  if (inj_raised != 1 + nested) ex::hard_error(ex::cat("the signal was not raised: ", inj_raised, " at ", at, " of ", P, " ", hat, " of ", inj_hcount));
  int full  = std::count(w0.ev.begin(), w0.ev.end(), 'a');
  int meas  = std::count(w.ev.begin(), w.ev.end(), 'a');
  bool done = w.ev == w0.ev; // every call of the whole run was made
  std::string where = ex::cat("delivery point ", at, " of ", P, hat >= 0 ? ex::cat(", second signal at point ", hat, " of the handler") : "");
  ex::check(w0.ev.substr(0, w.ev.size() - 1) == w.ev.substr(0, w.ev.size() - 1), "stop", where, ": calls ", w.ev, " against ", w0.ev, " without signal");
  ex::check(w.attempts_after <= 1, "stop", where, ": ", w.attempts_after, " attempts after the signal: ", w.ev);
  if (!done) ex::check(st == 2, "status", where, ": calls ", w.ev, " of ", w0.ev, ": returned ", st);
  else ex::check(st == 0 || st == 2, "status", where, ": returned ", st);
  // a cycle is measured only when all its attempts were made
  int att = 0, m = 0;
  for (char ch : w.ev) {
    if (ch == 'A') ++att;
    if (ch == 'a') ex::check(att == ++m * L, "interrupted-measured", where, ": an incomplete cycle is measured: ", w.ev);
  }
  ex::state(ex::mix(ex::hash(w.ev), at));
  ex::outcome(ex::mix(st, ex::hash(w.ev)));
  // not seen by the next run (a signal delivered after the last call of the stop callback may be)
  if (!raised_before_last_stop) triqs::signal_handler::stop();
  world w2;
  W = &w2;
  mc_t mc("mt19937", 3, 0);
  setup(mc, false);
  int st2 = mc.accumulate(2, 1, []() { event('S'); return false; });
  ex::check(st2 == 0, "leak", where, ": the signal stops the next run");
}
JOB_SHARDED(signals_anywhere, 8) { anywhere(false); }
JOB_SHARDED(signals_in_the_handler, 8) { anywhere(true); }

// the queue: every sequence of operations
JOB_SHARDED(queue, 8) {
  quiet_streams q;
  namespace sh = triqs::signal_handler;
  sh::stop();
  sh::start();
  std::vector<int> model;
  int depth = ex::tier(5, 6);
  std::string trace;
  for (int d = 0; d < depth; ++d) {
    int op = ex::choose(8);
    ex::step();
    switch (op) {
      case 0:
      case 1:
      case 2: {
        int s = SIGS[op + (d % 2) * 3];
        raise(s);
        model.push_back(s);
        break;
      }
      case 3: ex::check(sh::received() == !model.empty(), "queue", "received is wrong"); break;
      case 4: {
        bool r = sh::received(true);
        ex::check(r == !model.empty(), "queue", "received(pop) is wrong");
        if (!model.empty()) model.pop_back();
        break;
      }
      case 5:
        if (model.empty()) return;
        sh::pop();
        model.pop_back();
        break;
      case 6:
        sh::stop();
        model.clear();
        sh::start();
        break;
      case 7: sh::start(); break; // already started: nothing happens
    }
    trace += char('0' + op);
    // the whole content, by value
    ex::check(sh::received() == !model.empty(), "queue", "after ", trace, " received is ", sh::received());
    if (!model.empty()) ex::check(sh::last() == model.back(), "queue", "after ", trace, " last is ", sh::last(), " instead of ", model.back());
    if (ex::seen(ex::hash(model), depth - d)) return;
  }
  // unwind: last received first out
  while (!model.empty()) {
    if (!ex::check(sh::received() && sh::last() == model.back(), "queue-order", "after ", trace, " last is ", sh::last(), " instead of ", model.back())) break;
    sh::pop();
    model.pop_back();
  }
  ex::check(!sh::received(), "queue-order", "after ", trace, " too many signals");
  sh::stop();
}
// signals received while another is recorded: none is lost, whatever the growth of the list
#include <sys/wait.h>
// in a process of its own, so that the list starts empty: before signals, then one with a second at a point of its handler.
// returns the number of points of the handler, or -1 (lost), -2 (died)
static long in_process(int before, int sig2, long hat, std::string &got_) {
  int fd[2];
  if (pipe(fd)) return 0;
  auto pid = fork();
  if (pid == 0) {
    signal(SIGABRT, SIG_DFL), signal(SIGSEGV, SIG_DFL);
    close(fd[0]);
    namespace sh = triqs::signal_handler;
    sh::stop();
    sh::start();
    std::vector<int> all, got;
    for (int i = 0; i < before; ++i) raise(SIGS[i % 6]), all.push_back(SIGS[i % 6]);
    inj_sig = SIGINT, inj_sig2 = sig2, inj_hat = hat, inj_at = 0, inj_point = 0, inj_raised = 0, inj_raising = false, on_raise = nullptr;
    inj_active = true;
    inj_hook();
    inj_active = false;
    all.push_back(SIGINT);
    if (hat >= 0) all.push_back(sig2);
    for (int i = 0; i < 100 && sh::received(); ++i) {
      got.push_back(sh::last());
      sh::pop();
    }
    std::reverse(got.begin(), got.end());
    std::string txt;
    for (int g : got) txt += std::to_string(g) + " ";
    std::sort(all.begin(), all.end());
    std::sort(got.begin(), got.end());
    long r = all == got ? inj_hcount : -1;
    if (write(fd[1], &r, sizeof r) < 0 || write(fd[1], txt.data(), txt.size()) < 0) _exit(1);
    _exit(0);
  }
  close(fd[1]);
  long r = -2;
  char buf[1024];
  if (read(fd[0], &r, sizeof r) != sizeof r) r = -2;
  ssize_t n = read(fd[0], buf, sizeof buf);
  if (n > 0) got_.assign(buf, n);
  close(fd[0]);
  int st;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st)) return -2;
  return r;
}
JOB_SHARDED(reentrant_queue, 7) {
  quiet_streams q;
  int before = ex::pick({0, 1, 2, 3, 4, 7, 8});
  std::string got;
  long H = in_process(before, SIGTERM, -1, got);
  if (!ex::check(H >= 0, "lost-signal", before + 1, " signals delivered in sequence: ", H == -2 ? "the process died" : "recorded: ", got)) return;
  if (H == 0) return;
  int sig2 = SIGS[1 + ex::choose(ex::tier(1, 5))];
  long hat = ex::choose(H);
  long r   = in_process(before, sig2, hat, got);
  ex::step();
  ex::state(ex::mix(before, hat));
  ex::check(r >= 0, "lost-signal", "signal ", sig2, " delivered at point ", hat, " of the handler of another one, after ", before, " signals: ", r == -2 ? "the process died" : "recorded: ", got);
}
NOI int main(int argc, char **argv) { return ex::main_(argc, argv); }
