// C05: every sequence of operations on up to three buffered functions
#include "explore.hpp"
#include <triqs/utility/buffered_function.hpp>
#include <optional>
#include <string>
using triqs::utility::buffered_function;
static long value_of(long i) { return i * i + 3 * i + 7; }
template <typename R> R conv(long v) {
  if constexpr (std::is_same_v<R, std::string>) return std::to_string(v);
  else return R(v);
}
template <typename R> struct counter { // a stateful function
  long i = 0;
  R operator()() { return conv<R>(value_of(i++)); }
};
struct model {
  bool empty = true; // default constructed
  bool moved = false; // nothing is known of it
  long pos = 0;      // next index
};
template <typename R> static void body(int depth) {
  using B = buffered_function<R>;
  int c   = ex::choose(6);
  const int nobj = c / 3 == 0 ? 2 : 3;
  depth -= nobj - 2;
  std::array<std::optional<B>, 3> b;
  std::array<model, 3> m;
  const int size0 = ex::pick({1, 2, 3, 4, 7});
  auto size_of    = [&](int k) { return k == 0 ? size0 : (size0 % 3) + 1; };
  std::string tr;
  for (int k = 0; k < nobj; ++k) b[k].emplace();
  if (c % 3 == 0) b[0].emplace(counter<R>{}, size0), m[0].empty = false;
  if (c % 3 == 1) b[0] = B(counter<R>{}), m[0].empty = false; // default size
  auto hash_state = [&] {
    uint64_t h = c * 16 + size0;
    for (int k = 0; k < nobj; ++k) h = ex::mix(h, (m[k].pos << 2) + m[k].empty * 2 + m[k].moved);
    return h;
  };
  for (int d = 0; d < depth; ++d) {
    int op = ex::choose(7), k = ex::choose(nobj), l = op >= 3 && op < 6 ? ex::choose(nobj) : 0;
    tr += ex::cat(" ", op, k, op >= 3 && op < 6 ? std::to_string(l) : "");
    ex::step();
    auto use = [&](bool preview) {
      if (m[k].moved) return;
      bool thrown = false;
      R got{};
      try {
        got = preview ? b[k]->preview() : (*b[k])();
      } catch (std::exception const &) { thrown = true; }
      ex::check(thrown == m[k].empty, "default-constructed", "after", tr, ": ", thrown ? "an exception" : "no exception");
      if (!m[k].empty && !thrown) {
        ex::check(got == conv<R>(value_of(m[k].pos)), "sequence", "buffer size ", size_of(k), " after", tr, ": the value is ", got, " instead of ", value_of(m[k].pos), " (number ", m[k].pos, ")");
        if (!preview) ++m[k].pos;
      }
    };
    switch (op) {
      case 0: use(false); break;
      case 1: use(true); break;
      case 2: // a few calls in a row
        for (int i = 0; i < size_of(k); ++i) use(false);
        break;
      case 3: // copy assignment
        if (m[l].moved) return;
        *b[k] = *b[l];
        m[k]  = m[l];
        break;
      case 4: // move assignment
        if (k == l || m[l].moved) return;
        *b[k]      = std::move(*b[l]);
        m[k]       = m[l];
        m[l].moved = true;
        break;
      case 5: { // copy or move construction, the source destroyed
        if (k == l || m[l].moved) return;
        if (d % 2) {
          b[k].emplace(*b[l]);
        } else {
          b[k].emplace(std::move(*b[l]));
          b[l].emplace();
          m[k] = m[l];
          m[l] = {};
          break;
        }
        m[k] = m[l];
        break;
      }
      case 6: // a new one
        b[k].emplace(counter<R>{}, size_of(k));
        m[k] = {false, false, 0};
        break;
    }
    if (ex::seen(hash_state(), depth - d)) {
      // the state of the implementation is checked before cutting
      for (int k2 = 0; k2 < nobj; ++k2) k = k2, use(true), use(false), use(false);
      return;
    }
  }
  for (int k = 0; k < nobj; ++k)
    if (!m[k].moved && !m[k].empty) {
      for (int i = 0; i < 9; ++i) {
        auto p = b[k]->preview();
        auto v = (*b[k])();
        ex::check(p == v, "preview", "after", tr, ": preview is ", p, " but the next value ", v);
        ex::check(v == conv<R>(value_of(m[k].pos)), "sequence", "after", tr, ": the value is ", v, " instead of ", value_of(m[k].pos));
        ++m[k].pos;
      }
    }
  ex::outcome(hash_state());
  ex::sample("objects ", nobj, " size ", size0, " ops", tr);
}
JOB_SHARDED(doubles, 6) { body<double>(ex::tier(6, 7)); }
JOB_SHARDED(strings, 6) { body<std::string>(ex::tier(5, 6)); }
// long sequences with every buffer size
JOB(long_sequences) {
  int size  = 1 + ex::choose(1030);
  int extra = ex::choose(3);
  buffered_function<long> b = size <= 1025 ? buffered_function<long>(counter<long>{}, size) : buffered_function<long>(counter<long>{});
  for (long i = 0; i < 2 * std::max(size, 1000) + extra; ++i) {
    if (i % (extra + 2) == 0) ex::check(b.preview() == value_of(i), "preview", "size ", size, " number ", i);
    ex::check(b() == value_of(i), "sequence", "size ", size, " number ", i);
  }
  ex::step();
  ex::state(size * 4 + extra);
}
