// Stand-in for the TRIQS mpi library. Ranks are fibers of one process, run by a cooperative scheduler whose
// choices a harness controls: every communication call is a scheduling point, collectives are matched per
// communicator and a mismatch or a deadlock is reported. Outside a virtual run there is one rank.
#pragma once
#include <algorithm>
#include <array>
#include <complex>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>
#include <any>
#include <ucontext.h>
#include <cxxabi.h>

using MPI_Op = int;
using MPI_Comm = int;
using MPI_Datatype = int;
inline constexpr MPI_Op MPI_SUM = 1, MPI_MAX = 2, MPI_MIN = 3, MPI_PROD = 4;
inline constexpr MPI_Comm MPI_COMM_WORLD = 0, MPI_COMM_NULL = -1;
inline constexpr int MPI_UNDEFINED = -32766;

namespace mpi {

  namespace sim {

    struct aborted : std::exception { // thrown in a rank when the virtual run is torn down
      const char *what() const noexcept override { return "virtual MPI run torn down"; }
    };

    struct fiber {
      ucontext_t ctx;
      std::vector<char> stack;
      bool done = false, started = false;
      std::function<bool()> ready; // empty: runnable
      std::string waiting_for;
      // saved C++ exception globals of this fiber
      void *caught = nullptr;
      unsigned int uncaught = 0;
      std::exception_ptr error;
    };
    struct collective {
      std::string what;
      int arrived = 0, left = 0;
      std::vector<std::any> in;
    };
    struct world {
      int size = 1, current = 0;
      bool running = false, tearing_down = false;
      std::vector<std::unique_ptr<fiber>> fibers;
      ucontext_t main_ctx;
      std::function<int(std::vector<int> const &, int)> scheduler; // picks an index in the list of enabled ranks
      std::function<int(int)> nondet;                             // environment nondeterminism (message delays)
      std::map<std::pair<int, long>, collective> colls;            // (communicator, sequence number)
      std::map<std::pair<int, int>, long> seq;                     // (rank, communicator) -> next sequence number
      std::string error;                                           // deadlock or mismatch
      long steps = 0;
      std::map<std::tuple<int, long, int>, int> comm_ids;          // communicators made by split: (parent, split number, color) -> id
      bool aborted_by_user = false;
      int abort_code = 0;
      long switches = 0;
      std::vector<std::shared_ptr<void>> monitors;
      std::map<std::pair<int,int>, int> monitor_seq;
    };
    inline world &W() {
      static world w;
      return w;
    }

    struct eh_globals {
      void *caught;
      unsigned int uncaught;
    };
    inline void switch_to_main(bool nothrow = false) {
      auto &w  = W();
      auto &f  = *w.fibers[w.current];
      auto *g  = reinterpret_cast<eh_globals *>(abi::__cxa_get_globals());
      f.caught = g->caught, f.uncaught = g->uncaught;
      swapcontext(&f.ctx, &w.main_ctx);
      g->caught = f.caught, g->uncaught = f.uncaught;
      if (w.tearing_down && !nothrow && !std::uncaught_exceptions()) throw aborted{};
    }
    /// scheduling point
    inline void point() {
      auto &w = W();
      if (!w.running) return;
      w.steps++;
      switch_to_main();
    }
    inline void wait(std::function<bool()> ready, std::string const &what, bool nothrow = false) {
      auto &w = W();
      if (!w.running) {
        if (!ready()) throw std::runtime_error("mpi stand-in: would wait forever");
        return;
      }
      auto &f       = *w.fibers[w.current];
      f.ready       = ready;
      f.waiting_for = what;
      w.steps++;
      switch_to_main(nothrow);
      f.ready = nullptr;
      f.waiting_for.clear();
    }
    inline std::function<void(int)> &body() {
      static std::function<void(int)> b;
      return b;
    }
    inline void trampoline() {
      auto &w = W();
      int r   = w.current;
      try {
        body()(r);
      } catch (aborted const &) {
      } catch (...) { w.fibers[r]->error = std::current_exception(); }
      w.fibers[r]->done = true;
      auto *g           = reinterpret_cast<eh_globals *>(abi::__cxa_get_globals());
      g->caught         = nullptr;
      g->uncaught       = 0;
      swapcontext(&w.fibers[r]->ctx, &w.main_ctx);
    }

    struct outcome {
      std::string error; // empty: all ranks returned
      std::vector<std::exception_ptr> exceptions;
      bool aborted = false;
      long steps   = 0;
    };

    /// Run f(rank) on n virtual ranks. scheduler(enabled, current) returns a position in enabled.
    inline outcome run(int n, std::function<void(int)> f, std::function<int(std::vector<int> const &, int)> scheduler = {},
                       std::function<int(int)> nondet = {}) {
      auto &w        = W();
      w              = world{};
      w.size         = n;
      w.running      = true;
      w.scheduler    = scheduler;
      w.nondet       = nondet;
      body()         = f;
      auto *g        = reinterpret_cast<eh_globals *>(abi::__cxa_get_globals());
      auto saved     = *g;
      static std::vector<std::vector<char>> stacks;
      while (int(stacks.size()) < n) stacks.emplace_back(1 << 22);
      for (int r = 0; r < n; ++r) {
        w.fibers.push_back(std::make_unique<fiber>());
        auto &fb = *w.fibers.back();
        getcontext(&fb.ctx);
        fb.ctx.uc_stack.ss_sp   = stacks[r].data();
        fb.ctx.uc_stack.ss_size = stacks[r].size();
        fb.ctx.uc_link          = &w.main_ctx;
        makecontext(&fb.ctx, trampoline, 0);
      }
      auto resume = [&](int r) {
        w.current = r;
        g->caught = nullptr, g->uncaught = 0;
        swapcontext(&w.main_ctx, &w.fibers[r]->ctx);
      };
      int last = -1;
      while (true) {
        std::vector<int> enabled;
        bool all_done = true;
        // canonical order: the running rank first if still enabled
        auto en = [&](int r) { return !w.fibers[r]->done && (!w.fibers[r]->ready || w.fibers[r]->ready()); };
        for (int r = 0; r < n; ++r) all_done = all_done && w.fibers[r]->done;
        if (all_done || w.aborted_by_user || !w.error.empty()) break;
        if (last >= 0 && en(last)) enabled.push_back(last);
        for (int r = 0; r < n; ++r)
          if (r != last && en(r)) enabled.push_back(r);
        if (enabled.empty()) {
          w.error = "deadlock:";
          for (int r = 0; r < n; ++r)
            w.error += " rank " + std::to_string(r) + (w.fibers[r]->done ? " has finished;" : " waits in " + w.fibers[r]->waiting_for + ";");
          break;
        }
        if (w.steps > 2000000) {
          w.error = "livelock";
          break;
        }
        int k = (w.scheduler && enabled.size() > 1) ? w.scheduler(enabled, last) : 0;
        last  = enabled[k];
        w.switches++;
        resume(last);
      }
      // tear down the ranks that are still alive
      w.tearing_down = true;
      for (int it = 0; it < 100; ++it)
        for (int r = 0; r < n; ++r)
          if (!w.fibers[r]->done) {
            w.fibers[r]->ready = nullptr;
            resume(r);
          }
      outcome o;
      o.error   = w.error;
      o.aborted = w.aborted_by_user;
      o.steps   = w.steps;
      for (auto &fb : w.fibers) o.exceptions.push_back(fb->error);
      *g = saved;
      w  = world{};
      return o;
    }
    template <typename T> std::string type_tag() { return typeid(T).name(); }
  } // namespace sim

  inline bool has_env = false;
  inline bool is_initialized() { return has_env; }
  struct environment {
    environment(int, char **) {}
    environment() {}
  };

  class communicator {
    int id_ = 0;
    std::shared_ptr<std::vector<int>> grp_; // the world ranks of the group; none: the world
    int pos(int world_rank) const {
      if (!grp_) return world_rank;
      return int(std::find(grp_->begin(), grp_->end(), world_rank) - grp_->begin());
    }

    public:
    communicator() = default;
    communicator(MPI_Comm c) : id_(c) {}
    [[nodiscard]] MPI_Comm get() const noexcept { return id_; }
    [[nodiscard]] int rank() const { return sim::W().running ? pos(sim::W().current) : 0; }
    [[nodiscard]] int size() const { return sim::W().running ? (grp_ ? int(grp_->size()) : sim::W().size) : 1; }
    [[nodiscard]] communicator duplicate() const { return *this; }
    /// members with the same color form a group, ranked by key, then by their rank here
    [[nodiscard]] inline communicator split(int color, int key = 0) const;
    void abort(int code) const {
      auto &w           = sim::W();
      w.aborted_by_user = true;
      w.abort_code      = code;
      if (w.running)
        sim::point();
      else
        throw std::runtime_error("MPI_Abort");
    }
    inline void barrier() const;
    int id() const { return id_; }
  };

  namespace sim {
    // each rank contributes `x`; returns the contributions of all ranks, once all have arrived
    inline std::vector<std::any> exchange(communicator const &c, std::string const &what, std::any x) {
      auto &w = W();
      if (!w.running) return {x};
      int r = w.current;
      point();
      long s    = w.seq[{r, c.id()}]++;
      auto key  = std::make_pair(c.id(), s);
      auto &col = w.colls[key];
      if (col.arrived == 0) {
        col.what = what;
        col.in.resize(c.size());
      } else if (col.what != what) {
        w.error = "mismatched collective calls: rank " + std::to_string(r) + " calls " + what + " while another rank called " + col.what;
        point();
      }
      col.in[c.rank()] = std::move(x);
      col.arrived++;
      int n = c.size();
      wait([&w, key, n]() { return w.colls[key].arrived == n; }, "collective " + what);
      auto res = w.colls[key].in;
      if (++w.colls[key].left == n) w.colls.erase(key);
      return res;
    }
  } // namespace sim
  inline communicator communicator::split(int color, int key) const {
    if (!sim::W().running) {
      communicator c;
      if (color == MPI_UNDEFINED) c.id_ = MPI_COMM_NULL;
      return c;
    }
    auto &w  = sim::W();
    long num = w.seq[{w.current, id_}];
    auto all = sim::exchange(*this, "split", std::array<int, 3>{color, key, w.current});
    std::vector<std::array<int, 3>> v; // (key, rank here, world rank)
    for (size_t i = 0; i < all.size(); ++i) {
      auto a = std::any_cast<std::array<int, 3>>(all[i]);
      if (a[0] == color) v.push_back({a[1], int(i), a[2]});
    }
    std::sort(v.begin(), v.end());
    communicator c;
    if (color == MPI_UNDEFINED) {
      c.id_ = MPI_COMM_NULL;
      return c;
    }
    auto [it, fresh] = w.comm_ids.emplace(std::make_tuple(id_, num, color), 1000 + int(w.comm_ids.size()));
    c.id_            = it->second;
    c.grp_           = std::make_shared<std::vector<int>>();
    for (auto &x : v) c.grp_->push_back(x[2]);
    return c;
  }
  inline void communicator::barrier() const { sim::exchange(*this, "barrier", 0); }

  namespace tag {
    struct reduce {};
    struct scatter {};
    struct gather {};
  } // namespace tag
  template <typename Tag, typename T> struct lazy {
    T rhs;
    communicator c;
    int root;
    bool all;
    MPI_Op op;
  };

  inline std::pair<long, long> chunk_pair(long begin, long end, int size, int rank) {
    long n = end - begin, d = n / size, m = n % size;
    return {begin + (rank < m ? rank * (d + 1) : m * (d + 1) + (rank - m) * d), begin + (rank < m ? (rank + 1) * (d + 1) : m * (d + 1) + (rank - m + 1) * d)};
  }
  inline std::pair<long, long> slice_range(long beg, long end, int size, int rank) {
    auto [a, b] = chunk_pair(beg, end + 1, size, rank);
    return {a, b - 1};
  }
  inline long chunk_length(long end, int size, int rank) {
    auto [a, b] = chunk_pair(0, end, size, rank);
    return b - a;
  }
  template <typename T> auto chunk(T &&range, communicator c = {}) {
    long n      = std::distance(std::cbegin(range), std::cend(range));
    auto [a, b] = chunk_pair(0, n, c.size(), c.rank());
    std::vector<std::decay_t<decltype(*std::cbegin(range))>> v;
    long i = 0;
    for (auto const &x : range) {
      if (i >= a && i < b) v.push_back(x);
      ++i;
    }
    return v;
  }

  template <typename T> constexpr bool is_basic = std::is_arithmetic_v<T> || std::is_same_v<T, std::complex<double>> || std::is_same_v<T, std::complex<float>>;
  template <typename T> concept Basic = is_basic<T>;

  namespace sim {
    template <typename T> T combine(T const &a, T const &b, MPI_Op op) {
      if constexpr (std::is_arithmetic_v<T>) {
        if (op == MPI_MAX) return std::max(a, b);
        if (op == MPI_MIN) return std::min(a, b);
      }
      if (op == MPI_PROD) return T(a * b);
      return T(a + b);
    }
  } // namespace sim

  // ---- basic types
  template <Basic T> T mpi_reduce(T a, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    auto v = sim::exchange(c, std::string(all ? "all_reduce " : "reduce ") + sim::type_tag<T>() + " root " + std::to_string(root) + " op " + std::to_string(op), a);
    if (!all && c.rank() != root) return T{};
    T r = std::any_cast<T>(v[0]);
    for (size_t i = 1; i < v.size(); ++i) r = sim::combine(r, std::any_cast<T>(v[i]), op);
    return r;
  }
  template <Basic T> void mpi_reduce_in_place(T &a, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    auto r = mpi_reduce(a, c, root, all, op);
    if (all || c.rank() == root) a = r;
  }
  template <Basic T> void mpi_broadcast(T &a, communicator c = {}, int root = 0) {
    auto v = sim::exchange(c, "broadcast " + sim::type_tag<T>() + " root " + std::to_string(root), a);
    if (sim::W().running) a = std::any_cast<T>(v[root]);
  }
  inline void mpi_broadcast(std::string &a, communicator c = {}, int root = 0) {
    auto v = sim::exchange(c, "broadcast string root " + std::to_string(root), a);
    if (sim::W().running) a = std::any_cast<std::string>(v[root]);
  }
  // raw buffers: used by the stand-ins of the array library
  template <typename T> std::vector<std::vector<T>> exchange_vec(communicator c, std::string const &what, std::vector<T> const &x) {
    auto v = sim::exchange(c, what, x);
    std::vector<std::vector<T>> r;
    for (auto &y : v) r.push_back(std::any_cast<std::vector<T>>(y));
    return r;
  }

  // ---- std::vector
  template <typename T> void mpi_broadcast(std::vector<T> &v, communicator c = {}, int root = 0);
  template <typename T> struct regular_of {
    using type = T;
  };
  template <typename T> requires requires { typename T::regular_type; } struct regular_of<T> {
    using type = typename T::regular_type;
  };
  template <typename T> struct regular_of<std::vector<T>> {
    using type = std::vector<typename regular_of<T>::type>;
  };
  template <typename T> std::vector<typename regular_of<T>::type> mpi_reduce(std::vector<T> const &a, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM);
  template <typename T> void mpi_reduce_in_place(std::vector<T> &a, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM);
  template <typename T> std::vector<T> mpi_gather(std::vector<T> const &a, communicator c = {}, int root = 0, bool all = false);
  template <typename T> std::vector<T> mpi_scatter(std::vector<T> const &a, communicator c = {}, int root = 0);

  // ---- generic entry points (ADL dispatch)
  template <typename T> [[gnu::always_inline]] inline void broadcast(T &&x, communicator c = {}, int root = 0) { mpi_broadcast(x, c, root); }
  template <typename T> [[gnu::always_inline]] inline decltype(auto) reduce(T &&x, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    return mpi_reduce(std::forward<T>(x), c, root, all, op);
  }
  template <typename T> [[gnu::always_inline]] inline void reduce_in_place(T &&x, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    mpi_reduce_in_place(x, c, root, all, op);
  }
  template <typename T> [[gnu::always_inline]] inline decltype(auto) all_reduce(T &&x, communicator c = {}, MPI_Op op = MPI_SUM) {
    return reduce(std::forward<T>(x), c, 0, true, op);
  }
  template <typename T> [[gnu::always_inline]] inline void all_reduce_in_place(T &&x, communicator c = {}, MPI_Op op = MPI_SUM) {
    reduce_in_place(std::forward<T>(x), c, 0, true, op);
  }
  template <typename T> [[gnu::always_inline]] inline decltype(auto) scatter(T &&x, communicator c = {}, int root = 0, bool all = false) {
    if constexpr (requires { mpi_scatter(std::forward<T>(x), c, root); })
      return mpi_scatter(std::forward<T>(x), c, root);
    else
      return mpi_scatter(std::forward<T>(x), c, root, all);
  }
  template <typename T> [[gnu::always_inline]] inline decltype(auto) gather(T &&x, communicator c = {}, int root = 0, bool all = false) {
    if constexpr (requires { mpi_gather(std::forward<T>(x), c, root, all); })
      return mpi_gather(std::forward<T>(x), c, root, all);
    else
      return mpi_gather(std::forward<T>(x), c, root);
  }
  template <typename T> [[gnu::always_inline]] inline decltype(auto) all_gather(T &&x, communicator c = {}) { return gather(std::forward<T>(x), c, 0, true); }

  template <typename T> void mpi_broadcast(std::vector<T> &v, communicator c, int root) {
    size_t s = v.size();
    mpi_broadcast(s, c, root);
    if (c.rank() != root) v.resize(s);
    if constexpr (is_basic<T>) {
      auto all = exchange_vec(c, "broadcast vector root " + std::to_string(root), v);
      if (sim::W().running) v = all[root];
    } else
      for (auto &x : v) broadcast(x, c, root);
  }
  template <typename T> std::vector<typename regular_of<T>::type> mpi_reduce(std::vector<T> const &a, communicator c, int root, bool all, MPI_Op op) {
    std::vector<typename regular_of<T>::type> r;
    if constexpr (is_basic<T>) {
      auto v = exchange_vec(c, std::string(all ? "all_reduce" : "reduce") + " vector root " + std::to_string(root), a);
      for (auto &x : v)
        if (x.size() != v[0].size()) throw std::runtime_error("mpi stand-in: reduce of vectors of different sizes");
      r.resize(a.size());
      if (!all && c.rank() != root) return r;
      r = v[0];
      for (size_t k = 1; k < v.size(); ++k)
        for (size_t i = 0; i < r.size(); ++i) r[i] = sim::combine(r[i], v[k][i], op);
    } else {
      r.reserve(a.size());
      for (auto const &x : a) r.push_back(typename regular_of<T>::type(reduce(x, c, root, all, op)));
    }
    return r;
  }
  template <typename T> void mpi_reduce_in_place(std::vector<T> &a, communicator c, int root, bool all, MPI_Op op) {
    if constexpr (is_basic<T>) {
      auto r = mpi_reduce(a, c, root, all, op);
      if (all || c.rank() == root) a = r;
    } else
      for (auto &x : a) reduce_in_place(x, c, root, all, op);
  }
  template <typename T> std::vector<T> mpi_gather(std::vector<T> const &a, communicator c, int root, bool all) {
    static_assert(is_basic<T>);
    auto v = exchange_vec(c, std::string(all ? "all_gather" : "gather") + " vector root " + std::to_string(root), a);
    std::vector<T> r;
    if (all || c.rank() == root)
      for (auto &x : v) r.insert(r.end(), x.begin(), x.end());
    return r;
  }
  template <typename T> std::vector<T> mpi_scatter(std::vector<T> const &a, communicator c, int root) {
    auto v      = exchange_vec(c, "scatter vector root " + std::to_string(root), a);
    auto &x     = sim::W().running ? v[root] : v[0];
    auto [i, j] = chunk_pair(0, long(x.size()), c.size(), c.rank());
    return {x.begin() + i, x.begin() + j};
  }
  // pairs
  template <typename A, typename B> void mpi_broadcast(std::pair<A, B> &p, communicator c = {}, int root = 0) {
    broadcast(p.first, c, root);
    broadcast(p.second, c, root);
  }
  // arrays
  template <typename T, size_t N> void mpi_broadcast(std::array<T, N> &p, communicator c = {}, int root = 0) {
    for (auto &x : p) broadcast(x, c, root);
  }
} // namespace mpi
