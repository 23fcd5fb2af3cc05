// C19: scope guards, timers, verbosity streams, clock callbacks, on a controlled clock
#include "explore.hpp"
#include <chrono>
#include <iomanip>
#include <optional>
#include <thread>
#include <triqs/utility/callbacks.hpp>
#include <triqs/utility/report_stream.hpp>
#include <triqs/utility/scope_guard.hpp>
#include <triqs/utility/timer.hpp>
using namespace triqs::utility;

// ------------------------------------------------------------ the clock of the process is the one of the exploration
static int64_t now_ns = 0;
static const int64_t epoch = 1700000000ll * 1000000000ll;
namespace std::chrono {
  inline namespace _V2 {
    system_clock::time_point system_clock::now() noexcept { return time_point(duration(epoch + now_ns)); }
    steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(5000000000ll + now_ns)); }
  }
}
extern "C" time_t time(time_t *p) {
  time_t t = (epoch + now_ns) / 1000000000ll;
  if (p) *p = t;
  return t;
}

// ------------------------------------------------------------ guards
struct action { // copies and moves are free, only calls count
  std::vector<int> *log = nullptr;
  int id                = -1;
  void operator()() { log->push_back(id); }
};
struct model_guard {
  bool exists = false, active = false;
  int id = -1;
};
using guard = scope_guard<action>;
using fguard = scope_guard<std::function<void()>>;
template <typename G> static void guard_body(int depth, int form) {
  std::vector<int> log, want;
  std::string tr;
  int next = 0;
  auto make = [&](int id) -> G {
    if constexpr (std::is_same_v<G, guard>) {
      if (form == 0) return make_scope_guard(action{&log, id});
      if (form == 1) return exec_at_scope_exit(action{&log, id});
      return G(action{&log, id});
    } else {
      std::function<void()> f = [&log, id] { log.push_back(id); };
      if (form == 0) return make_scope_guard(f);
      if (form == 1) return exec_at_scope_exit(f);
      return G(f);
    }
  };
  auto run = [&](model_guard &m) {
    if (m.exists && m.active) want.push_back(m.id);
    m = {};
  };
  bool thrown = false;
  try {
    std::optional<G> g[2];
    model_guard m[2];
    // at the end of the scope: g[1] is destroyed first
    struct at_end {
      std::function<void()> f;
      ~at_end() { f(); }
    };
    at_end end{[&] {
      for (int k : {1, 0}) {
        g[k].reset();
        run(m[k]);
      }
    }};
    for (int d = 0; d < depth; ++d) {
      int op = ex::choose(6), k = ex::choose(2);
      tr += ex::cat(" ", op, k);
      ex::step();
      if (op == 0) {
        g[k].reset();
        run(m[k]);
        g[k].emplace(make(next));
        m[k] = {true, true, next++};
      } else if (op == 1) {
        g[k].reset();
        run(m[k]);
      } else if (op == 2) {
        if (!m[k].exists) return;
        g[k]->dismiss();
        m[k].active = false;
      } else if (op == 3) { // move construction
        if (!m[1 - k].exists) return;
        g[k].reset();
        run(m[k]);
        g[k].emplace(std::move(*g[1 - k]));
        m[k]            = m[1 - k];
        m[1 - k].active = false;
      } else if (op == 4) { // move assignment: both actions still run exactly once
        if (!m[0].exists || !m[1].exists) return;
        *g[k] = std::move(*g[1 - k]);
        std::swap(m[0], m[1]);
        // which guard runs which action is not specified: make both run now
        auto a = m[0], b = m[1];
        size_t n = log.size();
        g[0].reset();
        g[1].reset();
        std::vector<int> got(log.begin() + n, log.end()), w;
        for (auto &x : {a, b})
          if (x.active) w.push_back(x.id);
        std::sort(got.begin(), got.end());
        std::sort(w.begin(), w.end());
        ex::check(got == w, "guard-assign", "after", tr, ": ", got.size(), " actions run instead of ", w.size());
        want.insert(want.end(), log.begin() + n, log.end());
        m[0] = m[1] = {};
      } else {
        tr += " throw";
        throw 17;
      }
      for (int i : {0, 1})
        if (m[i].exists) ex::check(g[i]->active() == m[i].active, "guard-active", "active() after", tr);
      ex::check(log == want, "guard-once", "after", tr, ": the actions run are not those of the guards left");
    }
  } catch (int) { thrown = true; }
  ex::check(log == want, "guard-once", "after", tr, thrown ? " (left by an exception)" : "", ": ", log.size(), " actions were run instead of ", want.size());
  ex::state(ex::hash(tr));
}
JOB_SHARDED(scope_guards, 6) {
  int form = ex::choose(6);
  if (form < 3) guard_body<guard>(ex::tier(4, 5), form);
  else guard_body<fguard>(ex::tier(4, 5), form - 3);
}
// the macro, on every way out of a scope
JOB(scope_exit) {
  int way = ex::choose(7), inner = ex::choose(3);
  std::vector<int> log;
  int value = 0;
  auto f = [&]() -> int {
    SCOPE_EXIT { log.push_back(1); };
    SCOPE_EXIT {
      log.push_back(2);
      value = 5;
    };
    for (int i = 0; i < 3; ++i) {
      SCOPE_EXIT { log.push_back(10 + i); };
      if (inner == 1 && i == 1) continue;
      if (inner == 2 && i == 1) break;
      log.push_back(20 + i);
    }
    if (way == 1) return 1;
    if (way == 2) throw 3;
    {
      SCOPE_EXIT { log.push_back(3); };
      if (way == 3) return 2;
      if (way == 4) throw std::runtime_error("x");
      if (way == 5) goto out;
    }
    log.push_back(4);
  out:
    if (way == 6) {
      try {
        SCOPE_EXIT { log.push_back(6); };
        throw 1;
      } catch (int) { log.push_back(7); }
    }
    return 3;
  };
  try {
    f();
  } catch (int) { log.push_back(100); } catch (std::exception const &) { log.push_back(101); }
  std::vector<int> w;
  for (int i = 0; i < 3; ++i) {
    if (!(inner && i == 1)) w.push_back(20 + i);
    w.push_back(10 + i);
    if (inner == 2 && i == 1) break;
  }
  if (way == 0 || way >= 3) w.push_back(3);
  if (way == 0 || way == 6) w.push_back(4);
  if (way == 6) w.push_back(6), w.push_back(7);
  w.push_back(2), w.push_back(1);
  if (way == 2) w.push_back(100);
  if (way == 4) w.push_back(101);
  ex::step();
  ex::state(way * 3 + inner);
  ex::check(log == w && value == 5, "scope-exit", "leaving by way ", way, ", inner loop ", inner, ": the actions are not run once in reverse order");
}
// ------------------------------------------------------------ timers
JOB_SHARDED(timers, 5) {
  int depth = ex::tier(7, 9);
  timer t[2];
  int64_t total[2] = {0, 0}, since[2] = {0, 0};
  bool running[2]  = {false, false};
  double last[2]   = {0, 0};
  now_ns           = 0;
  std::string tr;
  auto look = [&](int k) {
    double want = 1e-9 * (total[k] + (running[k] ? now_ns - since[k] : 0)), r = double(t[k]);
    ex::check(std::abs(r - want) < 1e-12 + 1e-12 * want, "timer-sum", "after", tr, " the timer reads ", r, " instead of ", want);
    ex::check(r >= last[k] * (1 - 1e-15), "timer-decreases", "after", tr, " the timer went from ", last[k], " to ", r);
    ex::check(t[k].is_running() == running[k], "timer-running", "after", tr, " is_running() is ", t[k].is_running());
    last[k] = r;
  };
  static const int64_t dt[] = {1, 250000000, 3000000017ll};
  for (int d = 0; d < depth; ++d) {
    int op = ex::choose(5);
    tr += ex::cat(" ", op);
    ex::step();
    if (op == 0) {
      t[0].start();
      if (!running[0]) running[0] = true, since[0] = now_ns;
    } else if (op == 1) {
      t[0].stop();
      if (running[0]) total[0] += now_ns - since[0], running[0] = false;
    } else if (op == 2) now_ns += dt[d % 3];
    else if (op == 3) { // a second, independent timer
      if (running[1]) {
        t[1].stop();
        total[1] += now_ns - since[1], running[1] = false;
      } else {
        t[1].start();
        running[1] = true, since[1] = now_ns;
      }
    } else { // copies read the same and go on independently
      timer c = t[0];
      ex::check(double(c) == double(t[0]) && c.is_running() == running[0], "timer-copy", "a copy of a timer reads differently");
      if (running[0]) c.stop();
      else c.start();
      now_ns += dt[(d + 1) % 3];
    }
    look(0), look(1);
    uint64_t h = 0;
    for (int k : {0, 1}) h = ex::mix(ex::mix(ex::mix(h, total[k]), running[k]), running[k] ? now_ns - since[k] : 0);
    if (ex::seen(ex::mix(h, d % 3), depth - d)) return;
  }
}
// ------------------------------------------------------------ verbosity streams
JOB_SHARDED(streams, 8) {
  std::ostringstream out, want;
  int verb = ex::choose(8) - 2;
  report_stream r = verb == 1 && ex::flip() ? report_stream(&out) : report_stream(&out, verb);
  std::string tr  = ex::cat("verbosity ", verb);
  int depth       = ex::tier(2, 3);
  for (int d = 0; d < depth; ++d) {
    int how = ex::choose(3), lev = how ? ex::choose(6) - 1 : 1, lev2 = how == 2 ? ex::choose(5) - 1 : 1, what = ex::choose(6);
    // r(l) is a stream of verbosity v-l+1
    int v = verb - lev + 1 - lev2 + 1;
    bool on = v > 0;
    tr += ex::cat(" level ", lev, "/", lev2, " item ", what);
    ex::step();
    auto put = [&](auto &&s) {
      switch (what) {
        case 0: s << "text" << d; break;
        case 1: s << 3.25 << "," << d << std::endl; break;
        case 2: s << 'c' << std::string("str") << true; break;
        case 3: s << std::endl << "x"; break;
        case 4: s << std::setw(7) << 42 << std::flush; break;
        case 5: s << std::vector<int>{1, 2}.size() << -7l << 2.5f << "\n"; break;
      }
    };
    auto plain = [&](auto &&s) {
      switch (what) {
        case 0: s << "text" << d; break;
        case 1: s << 3.25 << "," << d << "\n"; break;
        case 2: s << 'c' << std::string("str") << true; break;
        case 3: s << "\n" << "x"; break;
        case 4: s << "     42"; break;
        case 5: s << 2 << -7 << 2.5f << "\n"; break;
      }
    };
    if (how == 0) put(r);
    else if (how == 1) {
      if (ex::flip()) {
        auto q = r(lev);
        put(q);
      } else
        put(r(lev));
    } else
      put(r(lev)(lev2));
    if (on) plain(want);
    ex::check(out.str() == want.str(), on ? "stream-missing" : "stream-printed", tr, ": the output is '", out.str(), "' instead of '", want.str(), "'");
  }
  ex::state(ex::hash(tr));
}
// ------------------------------------------------------------ callbacks
JOB_SHARDED(callbacks, 7) {
  int limit = ex::pick({-5, -1, 0, 1, 2, 60, 2000000000});
  now_ns    = ex::choose(2) * 123456789ll;
  int64_t t0 = now_ns;
  auto f = clock_callback(limit);
  std::optional<std::function<bool()>> g;
  int64_t t1 = 0;
  int limit2 = 0, depth = ex::tier(5, 7);
  std::string tr = ex::cat("limit ", limit);
  for (int d = 0; d < depth; ++d) {
    int op = ex::choose(5);
    tr += ex::cat(" ", op);
    ex::step();
    if (op == 0) now_ns += 1;
    if (op == 1) now_ns += 999999999ll;
    if (op == 2) {
      if (now_ns - t0 < limit * 1000000000ll) now_ns = t0 + limit * 1000000000ll - 1;
    }
    if (op == 3) now_ns += 2000000000ll * 1000000000ll;
    if (op == 4) {
      limit2 = ex::pick({0, 1, 3});
      g      = clock_callback(limit2);
      t1     = now_ns;
    }
    auto test = [&](std::function<bool()> const &h, int lim, int64_t start, std::string const &name) {
      bool r = h();
      int64_t el = now_ns - start, L = lim * 1000000000ll;
      if (lim <= 0) ex::check(!r, "callback-nonpositive", tr, ": ", name, " is true with a limit of ", lim);
      else if (el < L) ex::check(!r, "callback-early", tr, ": ", name, " is true after ", el, " ns");
      else if (el > L) ex::check(r, "callback-late", tr, ": ", name, " is false after ", el, " ns");
    };
    test(f, limit, t0, "the callback");
    auto copy = f;
    test(copy, limit, t0, "a copy");
    if (g) test(*g, limit2, t1, "the second callback");
    if (now_ns > 4000000000ll * 1000000000ll) break;
  }
  ex::state(ex::hash(tr));
}
