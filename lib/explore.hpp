// Exhaustive bounded exploration of real code: a stateless depth-first enumeration of every
// sequence of choices a harness body makes, with optional state matching and deviation bounds.
//
//   JOB(name) { ... int op = ex::choose(4); ... ex::check(cond, "key", "message"); ... }
//
// Every execution is replayable from its choice sequence (--replay job path).
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace ex {

  struct prune_t {};

  struct violation_t {
    std::string key, msg;
    std::vector<int> path;
    std::vector<std::string> log;
  };

  struct job_t {
    std::string name;
    int shards;
    bool thorough_only;
    std::function<void()> body;
  };

  struct engine_t {
    // choice sequence
    std::vector<int> path, width, cost;
    size_t pos = 0, prefix = 0;
    int shard = 0, nshards = 1;
    int dev_bound = 1 << 30, dev_used = 0;
    // mode
    bool thorough = false, logging = false;
    std::vector<std::string> log;
    // stats
    uint64_t executions = 0, transitions = 0, evaluations = 0, traces = 0, pruned = 0;
    std::unordered_map<uint64_t, int> states;
    std::unordered_set<uint64_t> outcomes;
    std::vector<std::string> samples;
    std::map<std::string, violation_t> violations;
    std::map<std::string, uint64_t> counters;
    std::set<std::string> exec_keys;
    uint64_t max_executions = 0; // 0: no cap
    bool capped             = false;
    double max_seconds      = 0;
    std::string out_file, job;
    volatile uint64_t heartbeat = 0;
  };
  inline engine_t &E() {
    static engine_t *e = new engine_t;
    return *e;
  }
  inline std::vector<job_t> &jobs() {
    static auto *j = new std::vector<job_t>;
    return *j;
  }
  struct reg {
    reg(std::string n, int shards, bool thorough_only, std::function<void()> b) { jobs().push_back({n, shards, thorough_only, b}); }
  };
#define JOB_X(name, shards, th)                                                                                                                      \
  static void job_body_##name();                                                                                                                     \
  static ex::reg job_reg_##name(#name, shards, th, job_body_##name);                                                                                 \
  static void job_body_##name()
#define JOB(name) JOB_X(name, 1, false)
#define JOB_SHARDED(name, n) JOB_X(name, n, false)
#define JOB_THOROUGH(name, n) JOB_X(name, n, true)

  inline bool thorough() { return E().thorough; }
  /// pick a bound depending on the tier
  template <typename T> T tier(T quick, T thorough_) { return E().thorough ? thorough_ : quick; }

  inline void hard_error(std::string const &m) {
    fprintf(stderr, "HARNESS-ERROR: %s (job %s)\n", m.c_str(), E().job.c_str());
    fflush(stderr);
    _exit(3);
  }

  /// nondeterministic choice in [0,n[, enumerated exhaustively. dev: alternatives other than 0 cost one deviation.
  inline int choose(int n, bool dev = false) {
    auto &e = E();
    if (n <= 0) hard_error("choose with no alternative");
    ++e.heartbeat;
    if (e.pos < e.path.size()) {
      if (e.pos < e.width.size() && e.width[e.pos] != n) hard_error("divergence while replaying a prefix: " + std::to_string(e.width[e.pos]) + " != " + std::to_string(n));
      if (e.path[e.pos] >= n) hard_error("replayed choice out of range");
      if (e.pos >= e.width.size()) { e.width.push_back(n), e.cost.push_back(dev); }
    } else {
      int first = (e.pos == 0 ? e.shard : 0);
      if (e.pos == 0 && e.nshards > 1 && first >= n) {
        e.path.push_back(n - 1), e.width.push_back(n), e.cost.push_back(dev);
        ++e.pos;
        throw prune_t{}; // this shard has nothing to do
      }
      e.path.push_back(first);
      e.width.push_back(n);
      e.cost.push_back(dev);
    }
    int r = e.path[e.pos++];
    if (dev && r > 0) e.dev_used++;
    return r;
  }
  inline bool flip() { return choose(2); }
  template <typename T> T const &pick(std::vector<T> const &v) { return v[choose(int(v.size()))]; }
  template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + choose(int(v.size()))); }

  /// have we left the replayed prefix?
  inline bool fresh() { return E().pos >= E().prefix; }

  inline uint64_t mix(uint64_t h, uint64_t x) {
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
  }
  inline uint64_t hash(std::string const &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return mix(h, s.size());
  }
  inline uint64_t hash(double x) {
    if (x == 0) x = 0;
    uint64_t u;
    memcpy(&u, &x, 8);
    return mix(77, u);
  }
  inline uint64_t hash(long x) { return mix(13, uint64_t(x)); }
  inline uint64_t hash(int x) { return mix(13, uint64_t(int64_t(x))); }
  template <typename T> uint64_t hash(std::vector<T> const &v) {
    uint64_t h = v.size();
    for (auto const &x : v) h = mix(h, hash(x));
    return h;
  }

  /// record a visited state. Returns true iff the state (with at least this remaining depth) was already expanded by another path:
  /// the body should then return (state matching).
  inline bool seen(uint64_t h, int remaining = 0) {
    auto &e  = E();
    auto it  = e.states.find(h);
    bool rep = (it != e.states.end());
    if (!fresh()) {
      if (!rep) e.states.emplace(h, remaining);
      return false;
    }
    if (!rep) {
      e.states.emplace(h, remaining);
      return false;
    }
    if (it->second >= remaining) {
      e.pruned++;
      return !e.logging;
    }
    it->second = remaining;
    return false;
  }
  inline void state(uint64_t h) { E().states.emplace(h, 0); }
  inline void step(uint64_t n = 1) { E().transitions += n; ++E().heartbeat; }
  inline void outcome(uint64_t h) { E().outcomes.insert(h); }
  inline void count(std::string const &k, uint64_t n = 1) { E().counters[k] += n; }
  inline void trace() { E().traces++; }
  inline bool logging() { return E().logging; }
  template <typename... A> std::string cat(A const &...a) {
    std::ostringstream s;
    s.precision(17);
    ((s << a), ...);
    return s.str();
  }
  template <typename... A> void log(A const &...a) {
    if (E().logging) E().log.push_back(cat(a...));
  }
  template <typename... A> void sample(A const &...a) {
    if (E().samples.size() < 3) E().samples.push_back(cat(a...));
  }

  inline void fail(std::string const &key, std::string const &msg) {
    auto &e = E();
    e.exec_keys.insert(key);
    if (e.logging) e.log.push_back("VIOLATED " + key + ": " + msg);
    auto it = e.violations.find(key);
    if (it == e.violations.end()) {
      if (e.violations.size() < 40) e.violations[key] = {key, msg, {e.path.begin(), e.path.begin() + e.pos}, {}};
    } else if (e.pos < it->second.path.size() && !e.logging) {
      it->second = {key, msg, {e.path.begin(), e.path.begin() + e.pos}, {}};
    }
  }
  template <typename... A> bool check(bool cond, std::string_view key, A const &...a) {
    E().evaluations++;
    if (!cond) fail(std::string(key), cat(a...));
    return cond;
  }
  inline bool failed() { return !E().exec_keys.empty(); }

  inline std::string jstr(std::string const &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') {
        r += '\\';
        r += c;
      } else if (c < 32 || c > 126) {
        char b[8];
        snprintf(b, 8, "\\u%04x", c);
        r += b;
      } else
        r += c;
    }
    return r + "\"";
  }

  inline void write_out(bool finished) {
    auto &e = E();
    std::ostringstream s;
    s << "{\"job\":" << jstr(e.job) << ",\"finished\":" << (finished ? "true" : "false") << ",\"capped\":" << (e.capped ? "true" : "false")
      << ",\"executions\":" << e.executions << ",\"states\":" << e.states.size() << ",\"transitions\":" << e.transitions
      << ",\"evaluations\":" << e.evaluations << ",\"traces\":" << e.traces << ",\"pruned\":" << e.pruned << ",\"outcomes\":" << e.outcomes.size();
    s << ",\"counters\":{";
    bool f = true;
    for (auto &[k, v] : e.counters) s << (f ? "" : ",") << jstr(k) << ":" << v, f = false;
    s << "},\"samples\":[";
    f = true;
    for (auto &x : e.samples) s << (f ? "" : ",") << jstr(x), f = false;
    s << "],\"violations\":[";
    f = true;
    for (auto &[k, v] : e.violations) {
      s << (f ? "" : ",") << "{\"key\":" << jstr(k) << ",\"msg\":" << jstr(v.msg) << ",\"path\":[";
      for (size_t i = 0; i < v.path.size(); ++i) s << (i ? "," : "") << v.path[i];
      s << "],\"log\":[";
      for (size_t i = 0; i < v.log.size(); ++i) s << (i ? "," : "") << jstr(v.log[i]);
      s << "]}";
      f = false;
    }
    s << "]}\n";
    if (e.out_file.empty())
      std::cout << s.str();
    else {
      std::ofstream o(e.out_file);
      o << s.str();
    }
  }

  inline void crash_handler(int sig) {
    auto &e = E();
    signal(sig, SIG_DFL);
    if (sig == SIGPROF) {
      static uint64_t last = ~0ull;
      if (e.heartbeat != last) {
        last = e.heartbeat;
        signal(SIGPROF, crash_handler);
        return;
      }
    }
    std::string key = sig == SIGPROF ? "hang" : "crash";
    e.violations[key + ":" + e.job] = {key + ":" + e.job, sig == SIGPROF ? "no progress: the code under test does not return" : std::string("the code under test died with signal ") + strsignal(sig),
                         {e.path.begin(), e.path.begin() + std::min(e.pos, e.path.size())}, e.log};
    write_out(false);
    _exit(0);
  }
  inline void install_handlers() {
    static char stk[1 << 17];
    stack_t ss{};
    ss.ss_sp   = stk;
    ss.ss_size = sizeof(stk);
    sigaltstack(&ss, nullptr);
    struct sigaction a {};
    a.sa_handler = crash_handler;
    a.sa_flags   = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &a, nullptr);
    sigaction(SIGPROF, &a, nullptr);
    itimerval it{{30, 0}, {30, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
  }

  inline void run_once(job_t const &j) {
    auto &e = E();
    e.pos = 0;
    e.dev_used = 0;
    e.exec_keys.clear();
    e.log.clear();
    ++e.heartbeat;
    try {
      j.body();
    } catch (prune_t const &) {
    } catch (std::exception const &x) {
      fail("uncaught-exception:" + j.name, std::string("an exception escaped: ") + x.what());
    } catch (...) { fail("uncaught-exception:" + j.name, "an exception of unknown type escaped"); }
    e.executions++;
    e.traces++;
  }

  inline bool backtrack() {
    auto &e = E();
    e.path.resize(std::min(e.path.size(), e.pos));
    e.width.resize(e.path.size());
    e.cost.resize(e.path.size());
    // number of deviations up to (excluded) i
    while (!e.path.empty()) {
      size_t i   = e.path.size() - 1;
      int stepsz = (i == 0 ? e.nshards : 1);
      int next   = e.path[i] + stepsz;
      bool ok    = next < e.width[i];
      if (ok && e.cost[i]) {
        int used = 0;
        for (size_t k = 0; k < i; ++k) used += (e.cost[k] && e.path[k] > 0);
        if (used + 1 > e.dev_bound) ok = false;
      }
      if (ok) {
        e.path[i] = next;
        e.prefix  = e.path.size();
        return true;
      }
      e.path.pop_back();
      e.width.pop_back();
      e.cost.pop_back();
    }
    return false;
  }

  inline void dfs(job_t const &j) {
    auto &e = E();
    e.path.clear();
    e.width.clear();
    e.cost.clear();
    e.prefix   = 0;
    auto start = time(nullptr);
    while (true) {
      run_once(j);
      if (e.max_seconds > 0 && difftime(time(nullptr), start) > e.max_seconds) {
        e.capped = true;
        break;
      }
      if (!backtrack()) break;
    }
    // replay every violation once with logging before reporting it
    auto found = e.violations;
    auto execs = e.executions, tr = e.traces, st = e.transitions, ev = e.evaluations;
    for (auto &[k, v] : found) {
      e.path = v.path;
      e.width.clear();
      e.cost.clear();
      e.prefix  = 1u << 30;
      e.logging = true;
      auto nshards_saved = e.nshards;
      auto shard_saved = e.shard;
      e.nshards = 1, e.shard = 0;
      run_once(j);
      e.nshards = nshards_saved;
      e.shard = shard_saved;
      e.logging = false;
      if (!e.exec_keys.count(k)) hard_error("violation " + k + " did not reproduce on replay: uncontrolled nondeterminism");
      v.log = e.log;
    }
    e.executions = execs, e.traces = tr, e.transitions = st, e.evaluations = ev;
    e.violations = found;
  }

  inline int main_(int argc, char **argv) {
    auto &e = E();
    std::string job, out;
    std::vector<int> replay;
    bool do_replay = false;
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      if (a == "--list") {
        for (auto &j : jobs()) std::cout << j.name << " " << j.shards << " " << j.thorough_only << "\n";
        return 0;
      } else if (a == "--thorough")
        e.thorough = true;
      else if (a == "--job")
        job = argv[++i];
      else if (a == "--shard") {
        e.shard   = atoi(argv[++i]);
        e.nshards = atoi(argv[++i]);
      } else if (a == "--out")
        e.out_file = argv[++i];
      else if (a == "--max-seconds")
        e.max_seconds = atof(argv[++i]);
      else if (a == "--replay") {
        do_replay = true;
        for (++i; i < argc; ++i) replay.push_back(atoi(argv[i]));
      }
    }
    for (auto &j : jobs())
      if (j.name == job) {
        e.job = job;
        install_handlers();
        if (do_replay) {
          e.path    = replay;
          e.logging = true;
          e.prefix  = 1u << 30;
          run_once(j);
          for (auto &l : e.log) std::cout << l << "\n";
          std::cout << (e.exec_keys.empty() ? "HELD" : "VIOLATED") << "\n";
          return e.exec_keys.empty() ? 0 : 1;
        }
        dfs(j);
        write_out(true);
        fflush(nullptr);
        _exit(0);
      }
    hard_error("unknown job " + job);
    return 3;
  }
  inline bool near(double a, double b, double tol = 1e-9) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::abs(a - b) <= tol * (1 + std::max(std::abs(a), std::abs(b)));
  }
  inline bool near(std::complex<double> a, std::complex<double> b, double tol = 1e-9) {
    return std::abs(a - b) <= tol * (1 + std::max(std::abs(a), std::abs(b)));
  }
} // namespace ex

#ifndef EX_NO_MAIN
int main(int argc, char **argv) { return ex::main_(argc, argv); }
#endif
