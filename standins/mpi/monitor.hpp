// Stand-in for mpi::monitor: an emergency requested on one rank becomes visible on the others after an
// arbitrary delay (the harness decides), at the latest when all ranks have finalized.
#pragma once
#include "mpi.hpp"
namespace mpi {
  class monitor {
    struct shared {
      bool requested = false;
      int finalized = 0, created = 0;
      std::vector<char> knows;
    };
    communicator com;
    std::shared_ptr<shared> s;
    bool finalized = false;
    int me = 0;

    public:
    monitor(communicator c) : com(c) {
      auto &w = sim::W();
      me      = c.rank();
      if (!w.running) {
        s = std::make_shared<shared>();
        s->knows.resize(1);
        return;
      }
      sim::point();
      int k = w.monitor_seq[{me, c.id()}]++;
      while (int(w.monitors.size()) <= k) {
        auto n = std::make_shared<shared>();
        n->knows.resize(w.size);
        w.monitors.push_back(n);
      }
      s = std::static_pointer_cast<shared>(w.monitors[k]);
      s->created++;
    }
    monitor(monitor const &)            = delete;
    monitor &operator=(monitor const &) = delete;
    ~monitor() { finalize_communications(true); }
    void request_emergency_stop() {
      if (finalized) throw std::runtime_error("mpi::monitor used after finalization");
      s->requested = true;
      s->knows[me] = true;
      sim::point();
    }
    bool emergency_occured() {
      auto &w = sim::W();
      if (w.running && !finalized) sim::point();
      if (s->knows[me]) return true;
      if (!s->requested) return false;
      if (w.running && !finalized && w.nondet && w.nondet(2)) return false; // the message is still on its way
      s->knows[me] = true;
      return true;
    }
    void finalize_communications(bool nothrow = false) {
      if (finalized) return;
      auto &w = sim::W();
      s->finalized++;
      if (w.running && !w.tearing_down) {
        auto sp = s;
        int n   = w.size;
        sim::wait([sp, n]() { return sp->finalized == n; }, "monitor::finalize_communications", nothrow);
      }
      finalized = true;
      if (s->requested) s->knows[me] = true;
    }
  };
} // namespace mpi
