// C12 (operators acting on states), C13 (Hilbert spaces and states) against bit strings with explicit fermionic signs
#include "explore.hpp"
#include <triqs/hilbert_space/state.hpp>
#include <triqs/hilbert_space/imperative_operator.hpp>
using namespace triqs::operators;
using namespace triqs::hilbert_space;
using cplx = std::complex<double>;
using vec  = std::map<uint64_t, cplx>; // the reference: non-zero amplitudes by Fock state

struct ladder_t {
  int m;
  bool d;
};
// a ladder operator on a basis state: C_m moves past the occupied orbitals below m
static bool act(ladder_t o, uint64_t &f, double &sg) {
  uint64_t b = uint64_t(1) << o.m;
  if (bool(f & b) == o.d) return false;
  if (__builtin_popcountll(f & (b - 1)) % 2) sg = -sg;
  f ^= b;
  return true;
}
static vec act(std::vector<ladder_t> const &w, cplx x, vec const &v) {
  vec r;
  for (auto [f, a] : v) {
    double sg  = 1;
    uint64_t g = f;
    bool ok    = true;
    for (int i = int(w.size()) - 1; ok && i >= 0; --i) ok = act(w[i], g, sg);
    if (ok) r[g] += sg * x * a;
  }
  return r;
}
static vec add(vec a, cplx x, vec const &b) {
  for (auto [f, y] : b) a[f] += x * y;
  for (auto it = a.begin(); it != a.end();) it = it->second == 0.0 ? a.erase(it) : std::next(it);
  return a;
}
static vec scaled(vec a, cplx x) { return add({}, x, a); }
template <typename S> S scal(int i) {
  if constexpr (std::is_same_v<S, double>) return std::array{2.0, -0.5, 1.0, -4.0}[i];
  else return std::array<cplx, 4>{2.0, {0, -0.5}, 1.0, {1, -1}}[i];
}
static std::string text(std::vector<ladder_t> const &w) {
  std::string s;
  for (auto o : w) s += (o.d ? "c+" : "c") + std::to_string(o.m) + " ";
  return s;
}
static std::string text(vec const &v) {
  std::ostringstream s;
  for (auto [f, a] : v) s << a << "|" << f << "> ";
  return s.str();
}
// the index of orbital m: mixed integers and strings, in an order that differs from that of the orbitals when perm is set
static fundamental_operator_set::indices_t IDX(int m, int n, bool perm) {
  long k = perm ? (m * 37 + 11) % 64 : m;
  if (perm && m % 3 == 1) return {std::string("up"), k};
  if (perm && m % 3 == 2) return {std::string("dn"), k};
  return {std::string("o"), k};
}
static fundamental_operator_set FOPS(int n, bool perm) {
  std::vector<fundamental_operator_set::indices_t> v;
  for (int m = 0; m < n; ++m) v.push_back(IDX(m, n, perm));
  return fundamental_operator_set(v);
}
template <typename S> many_body_operator_generic<S> word(std::vector<ladder_t> const &w, fundamental_operator_set const &fops) {
  auto rev = fundamental_operator_set::data_t(fops);
  many_body_operator_generic<S> r{S(1)};
  for (auto o : w) r = r * many_body_operator_generic<S>::make_canonical(o.d, rev.at(o.m));
  return r;
}
template <typename St> vec contents(St const &s) {
  vec r;
  auto const &hs = s.get_hilbert();
  int calls      = 0;
  foreach (s, [&](int i, typename St::value_type a) {
    ++calls;
    if (i < 0 || i >= hs.size()) return ex::fail("iteration-range", ex::cat("iteration at index ", i, " of ", hs.size()));
    auto f = hs.get_fock_state(i);
    if (a != typename St::value_type(0)) {
      ex::check(r.count(f) == 0, "iteration-unique", "iteration visits the Fock state ", f, " twice");
      r[f] = a;
    }
  })
    ;
  return r;
}
template <typename St, typename H> St build(H const &hs, vec const &v) {
  St s(hs);
  for (auto [f, a] : v)
    if constexpr (std::is_same_v<typename St::value_type, double>) s(hs.get_state_index(f)) = a.real();
    else s(hs.get_state_index(f)) = a;
  return s;
}
template <typename S, bool M> using full_t = state<triqs::hilbert_space::hilbert_space, S, M>;
template <typename S, bool M> using sub_t  = state<sub_hilbert_space, S, M>;

// ---- C12
template <typename S, bool M> void on_full(fundamental_operator_set const &fops, many_body_operator_generic<S> const &op, std::string const &name, vec const &v, vec const &want) {
  triqs::hilbert_space::hilbert_space hs(fops);
  imperative_operator<triqs::hilbert_space::hilbert_space, S> io(op, fops);
  auto st  = build<full_t<S, M>>(hs, v);
  auto got = contents(io(st));
  ex::step();
  ex::check(got == want, "apply-full", name, "on ", text(v), "gives ", text(got), "instead of ", text(want));
  ex::check(contents(st) == scaled(v, 1), "apply-const", name, "changed the state it acted on");
  ex::check(io.is_empty() == op.is_zero(), "empty", name, "is_empty");
}
// a subspace made of the states of v and another one made of the states of w; a third one in between so that the map is not trivial
template <typename S, bool M> void on_sub(fundamental_operator_set const &fops, many_body_operator_generic<S> const &op, std::string const &name, vec const &v, vec const &want, int order) {
  // one space for both
  {
    sub_hilbert_space sp(0);
    std::set<uint64_t> fs;
    for (auto &x : v) fs.insert(x.first);
    for (auto &x : want) fs.insert(x.first);
    std::vector<uint64_t> l(fs.begin(), fs.end());
    if (order) std::reverse(l.begin(), l.end());
    for (auto f : l) sp.add_fock_state(f);
    imperative_operator<sub_hilbert_space, S> io(op, fops);
    auto got = contents(io(build<sub_t<S, M>>(sp, v)));
    ex::step();
    ex::check(got == want, "apply-sub", name, "on ", text(v), "in a subspace gives ", text(got), "instead of ", text(want));
  }
  {
    std::vector<sub_hilbert_space> sp{{0}, {1}, {2}};
    for (auto &x : v) sp[2].add_fock_state(x.first);
    std::vector<uint64_t> l;
    for (auto &x : want) l.push_back(x.first);
    if (order) std::reverse(l.begin(), l.end());
    for (auto f : l) sp[1].add_fock_state(f);
    std::vector<int> map = {0, 0, want.empty() ? -1 : 1};
    imperative_operator<sub_hilbert_space, S, true> io(op, fops, map, &sp);
    auto r = io(build<sub_t<S, M>>(sp[2], v));
    if (want.empty()) return;
    auto got = contents(r);
    ex::step();
    ex::check(&r.get_hilbert() == &sp[1], "apply-map-space", name, "with a connection map: the result is in the wrong subspace");
    ex::check(got == want, "apply-map", name, "on ", text(v), "with a connection map gives ", text(got), "instead of ", text(want));
  }
}
template <typename S> std::vector<std::vector<ladder_t>> words(std::vector<int> const &orb, int len) {
  std::vector<std::vector<ladder_t>> r{{}}, last{{}};
  for (int k = 0; k < len; ++k) {
    std::vector<std::vector<ladder_t>> nx;
    for (auto &w : last)
      for (int m : orb)
        for (bool d : {false, true}) {
          auto x = w;
          x.push_back({m, d});
          nx.push_back(x);
        }
    r.insert(r.end(), nx.begin(), nx.end());
    last = nx;
  }
  return r;
}
template <typename S> void small_case(int N) {
  bool perm  = ex::flip();
  auto fops  = FOPS(N, perm);
  auto rev   = fundamental_operator_set::data_t(fops);
  std::vector<int> orb;
  for (int m = 0; m < N; ++m) orb.push_back(m);
  static auto W  = words<S>({0, 1, 2}, 4);
  static auto W4 = words<S>({0, 1, 2, 3}, 3);
  auto const &ws = N == 3 ? W : W4;
  auto const &w  = ws[ex::choose(int(ws.size()))];
  S x            = scal<S>(int(w.size()) % 4);
  auto op        = x * word<S>(w, fops);
  // every basis state, then a superposition
  for (uint64_t f = 0; f < (1u << N); ++f) {
    vec v{{f, 1.0}}, want = scaled(act(w, cplx(x), v), 1);
    on_full<S, true>(fops, op, text(w), v, want);
    on_full<S, false>(fops, op, text(w), v, want);
    on_sub<S, true>(fops, op, text(w), v, want, f & 1);
    on_sub<S, false>(fops, op, text(w), v, want, f & 1);
  }
  vec v;
  for (uint64_t f = 0; f < (1u << N); ++f)
    if (f % 3 != 1) v[f] = cplx(scal<S>(f % 4)) * double(f + 1);
  vec want = scaled(act(w, cplx(x), v), 1);
  on_full<S, true>(fops, op, text(w), v, want);
  on_full<S, false>(fops, op, text(w), v, want);
  on_sub<S, true>(fops, op, text(w), v, want, 1);
  on_sub<S, false>(fops, op, text(w), v, want, 0);
  ex::outcome(ex::hash(text(want)));
}
JOB_SHARDED(apply_real3, 2) { small_case<double>(3); }
JOB_SHARDED(apply_cplx4, 2) { small_case<cplx>(4); }
// sums of monomials, with cancellations, acting on superpositions
template <typename S> void sums() {
  static auto W = words<S>({0, 1, 2}, ex::tier(2, 3));
  auto const &a = W[ex::choose(int(W.size()))];
  auto fops     = FOPS(3, ex::flip());
  auto const &b = W[ex::choose(int(W.size()))];
  S x = scal<S>(0), y = scal<S>(1 + ex::choose(2));
  auto op = x * word<S>(a, fops) + y * word<S>(b, fops) * word<S>({{1, true}, {1, false}}, fops);
  vec v;
  for (uint64_t f = 0; f < 8; ++f) v[f] = double(1 << f);
  auto b2 = b;
  b2.push_back({1, true}), b2.push_back({1, false});
  vec want = add(act(a, cplx(x), v), cplx(y), act(b2, 1, v));
  on_full<S, true>(fops, op, text(a) + "+ " + text(b2), v, want);
  on_full<S, false>(fops, op, text(a) + "+ " + text(b2), v, want);
  on_sub<S, true>(fops, op, text(a) + "+ " + text(b2), v, want, 0);
}
JOB_SHARDED(sums_real, 4) { sums<double>(); }
JOB_SHARDED(sums_cplx, 4) { sums<cplx>(); }
// many orbitals: every position of one or two (thorough: three) ladder operators against several backgrounds
template <typename S> void wide(int nmax) {
  int m0    = ex::choose(64);
  int N     = ex::pick({64, 17, 33});
  bool perm = ex::flip();
  if (m0 >= N) return;
  static std::map<std::pair<int, bool>, fundamental_operator_set> cache;
  if (!cache.count({N, perm})) cache[{N, perm}] = FOPS(N, perm);
  auto const &fops = cache[{N, perm}];
  uint64_t bg      = ex::pick<uint64_t>({0, ~uint64_t(0), 0x5555555555555555ull, 0xcccccccccccccccdull, 0x00ff00ff00ff00ffull, 0xfffe7fff80010001ull});
  if (N < 64) bg &= (uint64_t(1) << N) - 1;
  int len = 1 + ex::choose(nmax);
  std::vector<ladder_t> w;
  static const std::vector<int> pos = {0, 1, 7, 8, 15, 16, 17, 23, 24, 31, 32, 33, 40, 47, 48, 55, 62, 63};
  for (int k = 0; k < len; ++k) {
    int m = k == 0 ? m0 : ex::pick(pos);
    if (m >= N) return;
    w.push_back({m, ex::flip()});
  }
  // a background on which the word does not vanish: the first operator to act on each orbital decides
  std::set<int> done;
  for (int k = int(w.size()) - 1; k >= 0; --k)
    if (done.insert(w[k].m).second) {
      uint64_t b = uint64_t(1) << w[k].m;
      bg         = w[k].d ? bg & ~b : bg | b;
    }
  vec v{{bg, 2.0}, {bg ^ 1, 0.5}};
  auto op  = word<S>(w, fops);
  vec want = act(w, 1, v);
  on_sub<S, true>(fops, op, text(w), v, want, 0);
  on_sub<S, false>(fops, op, text(w), v, want, 1);
}
JOB_SHARDED(wide_real, 8) { wide<double>(2); }
JOB_THOROUGH(wide_triple, 64) { wide<cplx>(3); }
// quartic terms with orbitals at every four of a set of positions
JOB_SHARDED(wide_quartic, 4) {
  static const std::vector<int> pos = {0, 3, 9, 15, 16, 17, 30, 31, 32, 33, 46, 62, 63};
  static const fundamental_operator_set fops = FOPS(64, true);
  std::vector<ladder_t> w;
  for (int k = 0; k < 4; ++k) w.push_back({ex::pick(pos), k < 2});
  for (uint64_t bg : {uint64_t(0), ~uint64_t(0), uint64_t(0x5555555555555555ull), uint64_t(0x8000c0017ffe0001ull)}) {
    for (auto o : w) bg &= ~(uint64_t(1) << o.m);
    for (int k = 2; k < 4; ++k) bg |= uint64_t(1) << w[k].m;
    vec v{{bg, 1.0}};
    auto op  = word<double>(w, fops);
    vec want = act(w, 1, v);
    if (op.is_zero()) {
      ex::check(want.empty(), "zero-word", text(w), "vanishes as an operator only");
      continue;
    }
    on_sub<double, false>(fops, op, text(w), v, want, 0);
  }
}
// coefficients that are functions: evaluated at the arguments of the call
struct line {
  double a = 0, b = 0;
  line() = default;
  line(double x) : a(x) {}
  line(double x, double y) : a(x), b(y) {}
  line &operator+=(line const &o) { return a += o.a, b += o.b, *this; }
  line &operator-=(line const &o) { return a -= o.a, b -= o.b, *this; }
  line &operator*=(line const &o) { return *this = {a * o.a, a * o.b + b * o.a}; }
  friend line operator*(line x, line const &y) { return x *= y; }
  friend line operator-(line x) { return {-x.a, -x.b}; }
  friend bool is_zero(line const &x) { return x.a == 0 && x.b == 0; }
  bool operator==(line const &) const = default;
  double operator()(double t) const { return a + b * t; }
  double operator()(double t, double u) const { return a + b * t + u; }
};
JOB(functions) {
  static auto W = words<line>({0, 1, 2}, 2);
  auto fops     = FOPS(3, false);
  auto const &a = W[ex::choose(int(W.size()))], &b = W[ex::choose(int(W.size()))];
  double t = ex::pick({0.0, 1.0, -2.0});
  bool two = ex::flip();
  auto op  = line(2, 1) * word<line>(a, fops) + line(0, -1) * word<line>(b, fops);
  triqs::hilbert_space::hilbert_space hs(fops);
  imperative_operator<triqs::hilbert_space::hilbert_space, line> io(op, fops);
  vec v;
  for (uint64_t f = 0; f < 8; ++f) v[f] = double(1 << f);
  // coefficients of the monomials of the operator, evaluated at the arguments
  vec w;
  auto idx = fundamental_operator_set::data_t(fops);
  for (auto const &term : op) {
    std::vector<ladder_t> l;
    for (auto const &c : term.monomial) l.push_back({fops[c.indices], c.dagger});
    double x = term.coef.a + term.coef.b * t + (two ? 3 : 0);
    w        = add(w, x, act(l, 1, v));
  }
  auto st  = build<full_t<double, true>>(hs, v);
  auto su  = build<full_t<cplx, false>>(hs, v);
  auto got = contents(two ? io(st, t, 3.0) : io(st, t)), got2 = contents(two ? io(su, t, 3.0) : io(su, t));
  ex::check(got == w && got2 == w, "functions", "with coefficients that are functions, at ", t, ": ", text(got), "instead of ", text(w));
}
// update: a callable sees every coefficient by reference and the result acts with the new ones
JOB(update) {
  static auto W = words<double>({0, 1, 2}, 2);
  auto fops     = FOPS(3, false);
  auto const &a = W[ex::choose(int(W.size()))], &b = W[ex::choose(int(W.size()))];
  auto op       = 2.0 * word<double>(a, fops) + 4.0 * word<double>(b, fops);
  triqs::hilbert_space::hilbert_space hs(fops);
  imperative_operator<triqs::hilbert_space::hilbert_space, double> io(op, fops);
  std::multiset<double> seen, want;
  io.update([&](double &x) { seen.insert(x), x *= 8; });
  int n = 0;
  for (auto const &t : op) want.insert(t.coef), ++n;
  ex::check(std::distance(seen.begin(), seen.end()) == n, "update", "update visits ", seen.size(), " coefficients of ", n);
  ex::check(seen == want, "update-values", "update sees other coefficients than those of the operator");
  vec v;
  for (uint64_t f = 0; f < 8; ++f) v[f] = double(1 << f);
  vec w    = add(act(a, 16, v), 1, act(b, 32, v));
  auto got = contents(io(build<full_t<double, false>>(hs, v)));
  ex::check(got == w, "update-apply", "after update: ", text(got), "instead of ", text(w));
}

// ---- C13
JOB(full_spaces) {
  int n = ex::choose(ex::tier(15, 21));
  auto fops = FOPS(n, n % 2);
  triqs::hilbert_space::hilbert_space hs(fops), dummy, other(FOPS(n + 1, false));
  int d = 1 << n;
  ex::check(hs.size() == d, "full-size", "space of ", n, " orbitals has dimension ", hs.size());
  ex::check(dummy.size() == 0 && !dummy.has_state(0), "dummy", "the dummy space is not empty");
  for (int i = 0; i < d; ++i) {
    bool ok = hs.get_fock_state(i) == uint64_t(i) && hs.get_state_index(i) == i && hs.has_state(i);
    if (!ok) ex::fail("full-index", ex::cat("index ", i, " of the space of ", n, " orbitals"));
  }
  for (uint64_t f : {uint64_t(d), uint64_t(d) + 1, uint64_t(1) << 32, ~uint64_t(0), uint64_t(1) << 31}) {
    ex::check(!hs.has_state(f), "full-has", "the state ", f, " is reported in the space of ", n, " orbitals");
    bool thrown = false;
    try {
      hs.get_state_index(f);
    } catch (triqs::runtime_error const &) { thrown = true; }
    ex::check(thrown, "full-outside", "no error for the index of the state ", f);
  }
  for (int i : {d, d + 1, 2 * d}) {
    bool thrown = false;
    try {
      hs.get_fock_state(i);
    } catch (triqs::runtime_error const &) { thrown = true; }
    ex::check(thrown, "full-outside-index", "no error for the state at index ", i);
  }
  ex::check(hs == triqs::hilbert_space::hilbert_space(FOPS(n, !(n % 2))) && !(hs != hs) && hs != other && !(hs == other), "full-equality", "equality of spaces of ", n, " orbitals");
  std::string fn = ex::cat("/dev/shm/states_", getpid(), ".h5");
  {
    h5::file f(fn, 'w');
    h5_write(h5::group(f), "s", hs);
    triqs::hilbert_space::hilbert_space r = ex::flip() ? other : dummy;
    h5_read(h5::group(f), "s", r);
    ex::check(r == hs && r.size() == d, "full-h5", "a space of ", n, " orbitals is read as ", r.size());
  }
  unlink(fn.c_str());
}
JOB(fock_of_indices) {
  int N = ex::pick({3, 30, 31, 32, 33, 40, 64});
  auto fops = FOPS(N, ex::flip());
  auto rev  = fundamental_operator_set::data_t(fops);
  static const std::vector<int> pos = {0, 1, 2, 15, 29, 30, 31, 32, 33, 39, 62, 63};
  std::set<fundamental_operator_set::indices_t> s;
  uint64_t want = 0;
  for (int k = ex::choose(4); k > 0; --k) {
    int m = ex::pick(pos);
    if (m >= N) return;
    s.insert(rev.at(m)), want |= uint64_t(1) << m;
  }
  triqs::hilbert_space::hilbert_space hs(FOPS(3, false));
  auto f = hs.get_fock_state(fops, s);
  ex::check(f == want, "fock-indices", "creation operators on ", s.size(), " of ", N, " orbitals give the state ", f, " instead of ", want);
}
JOB(sub_spaces) {
  static const std::vector<uint64_t> A = {0, 5, 1, uint64_t(1) << 63, ~uint64_t(0), uint64_t(1) << 32, 7};
  int idx = ex::pick({-1, 0, 3});
  std::vector<uint64_t> l;
  sub_hilbert_space sp(idx);
  for (int k = ex::choose(5); k > 0; --k) {
    auto f = ex::pick(A);
    if (std::find(l.begin(), l.end(), f) != l.end()) return;
    l.push_back(f);
    sp.add_fock_state(f);
  }
  auto same = [&](sub_hilbert_space const &s, char const *what) {
    bool ok = s.size() == int(l.size()) && s.get_index() == idx && s.get_all_fock_states() == l;
    for (int i = 0; ok && i < int(l.size()); ++i) ok = s.get_fock_state(i) == l[i] && s.get_state_index(l[i]) == i;
    ex::check(ok, "sub-index", what, ": a subspace of ", l.size(), " states does not map index and state one to one");
    for (auto f : A) {
      bool in = std::find(l.begin(), l.end(), f) != l.end();
      ex::check(s.has_state(f) == in, "sub-has", what, ": has_state(", f, ")");
      if (in) continue;
      bool thrown = false;
      try {
        s.get_state_index(f);
      } catch (triqs::runtime_error const &) { thrown = true; }
      ex::check(thrown, "sub-outside", what, ": no error for the index of a state outside");
    }
  };
  same(sp, "built");
  auto cp = sp;
  same(cp, "copy");
  ex::check(cp == sp && !(cp != sp), "sub-equality", "a copy differs");
  auto more = sp;
  more.add_fock_state(42);
  ex::check(more != sp && !(more == sp), "sub-inequality", "a larger subspace compares equal");
  cp.set_index(17);
  ex::check(cp != sp && cp.get_index() == 17, "sub-inequality", "subspaces of different index compare equal");
  std::string fn = ex::cat("/dev/shm/states_", getpid(), ".h5");
  {
    h5::file f(fn, 'w');
    h5_write(h5::group(f), "s", sp);
    for (int k = 0; k < 2; ++k) {
      sub_hilbert_space r = k ? more : sub_hilbert_space{};
      h5_read(h5::group(f), "s", r);
      ex::check(r == sp, "sub-h5", "a subspace of ", l.size(), " states changed in the archive");
      same(r, "read");
      r.add_fock_state(43);
      ex::check(r.get_state_index(43) == int(l.size()), "sub-h5-add", "adding a state to a subspace read from an archive");
    }
  }
  unlink(fn.c_str());
  cp = more, same(cp = sp, "assigned");
}
template <typename St, typename H> void programs(H const &hs, std::vector<uint64_t> const &F) {
  using S    = typename St::value_type;
  int D      = F.size();
  vec a{{F[0], 1.0}, {F[1], cplx(scal<S>(1))}}, b{{F[1], cplx(scal<S>(3))}};
  St s = build<St>(hs, a), t = build<St>(hs, b);
  a = scaled(a, 1);
  std::ostringstream trail;
  auto clean = [&] { a = scaled(a, 1), b = scaled(b, 1); };
  for (int k = ex::choose(ex::tier(3, 4)); k >= 0; --k) {
    int op = ex::choose(12);
    trail << op << " ";
    ex::step();
    switch (op) {
      case 0: s += t, a = add(a, 1, b); break;
      case 1: s -= t, a = add(a, -1, b); break;
      case 2: s += s, a = scaled(a, 2); break;
      case 3: s -= St(s), a.clear(); break;
      case 4: s *= scal<S>(3), a = scaled(a, cplx(scal<S>(3))); break;
      case 5: s /= scal<S>(3), a = scaled(a, 1.0 / cplx(scal<S>(3))); break;
      case 6: {
        int i = ex::choose(D);
        s(i) += scal<S>(0), a[F[i]] += cplx(scal<S>(0));
        break;
      }
      case 7: {
        int i = ex::choose(D);
        s(i) = S(0), a.erase(F[i]);
        break;
      }
      case 8: {
        St u = s * scal<S>(1) + t - s / scal<S>(0);
        vec c = add(scaled(a, cplx(scal<S>(1)) - 1.0 / cplx(scal<S>(0))), 1, b);
        s = u, a = c;
        break;
      }
      case 9: std::swap(s, t), std::swap(a, b); break;
      case 10: {
        St u(std::move(t));
        t = make_zero_state(u);
        ex::check(contents(t).empty() && &t.get_hilbert() == &hs, "zero-state", "make_zero_state after ", trail.str());
        t = u + u;
        b = scaled(b, 2);
        break;
      }
      case 11: {
        St u(hs, 2);
        t -= u;
        b = add(b, -1, {{F[2], 1.0}});
        break;
      }
    }
    clean();
  }
  vec x = contents(s), y = contents(t);
  ex::check(x == a, "algebra", "after operations ", trail.str(), ": ", text(x), "instead of ", text(a));
  ex::check(y == b, "algebra-other", "after operations ", trail.str(), ": ", text(y), "instead of ", text(b));
  ex::state(ex::hash(text(a) + text(b)));
  St const &cs = s;
  for (int i = 0; i < D; ++i) {
    auto it = a.find(F[i]);
    ex::check(cplx(cs(i)) == (it == a.end() ? cplx(0) : it->second), "access", "after operations ", trail.str(), ": amplitude ", i, " is ", cplx(cs(i)));
  }
  cplx d = 0;
  for (auto [f, z] : a)
    if (b.count(f)) d += std::conj(z) * b[f];
  ex::check(cplx(dot_product(s, t)) == d, "dot", "after operations ", trail.str(), ": scalar product ", cplx(dot_product(s, t)), " instead of ", d);
  ex::check(s.size() == D && &s.get_hilbert() == &hs, "space", "after operations ", trail.str(), ": the space of the state changed");
  // printing: the set of printed terms
  std::ostringstream o;
  o << s;
  std::multiset<std::string> terms, expect;
  std::string p = o.str();
  for (size_t i; (i = p.find("-0)")) != std::string::npos && (p[i - 1] == ',');) p.erase(i, 1); // negative zeros
  for (size_t i; (i = p.find("(-0,")) != std::string::npos;) p.erase(i + 1, 1);
  for (auto [f, z] : a) {
    std::ostringstream q;
    if constexpr (std::is_same_v<S, double>) q << "(" << z.real() << ")|" << f << ">";
    else q << "(" << (z + cplx(0)) << ")|" << f << ">";
    expect.insert(q.str());
  }
  for (size_t i = 0, j; (j = p.find(" +", i)) != std::string::npos; i = j + 2) {
    size_t e = p.find(" +", j + 2);
    terms.insert(p.substr(j + 2, e == std::string::npos ? e : e - j - 2));
  }
  ex::check(a.empty() ? p == "0" : terms == expect, "print", "after operations ", trail.str(), ": printed as ", p);
  // projections on a subspace with some common states, on one with the same, on a smaller and a larger full space
  sub_hilbert_space sp(0), empty(1);
  sp.add_fock_state(99), sp.add_fock_state(F[2]), sp.add_fock_state(F[0]);
  auto keep = [&](auto const &h) {
    vec r;
    for (auto [f, z] : a)
      if (h.has_state(f)) r[f] = z;
    return r;
  };
  auto P = [&]<typename T>(T *, auto const &h, char const *what) {
    auto r = project<T>(s, h);
    auto g = contents(r);
    ex::check(&r.get_hilbert() == &h && g == keep(h), "project", "after operations ", trail.str(), ": projection to ", what, " gives ", text(g));
  };
  triqs::hilbert_space::hilbert_space small(FOPS(1, false)), large(FOPS(5, false));
  P((sub_t<S, true> *)nullptr, sp, "a subspace (map)");
  P((sub_t<S, false> *)nullptr, sp, "a subspace (array)");
  P((sub_t<S, true> *)nullptr, empty, "an empty subspace");
  P((sub_t<S, false> *)nullptr, empty, "an empty subspace (array)");
  P((full_t<S, true> *)nullptr, small, "a smaller space (map)");
  P((full_t<S, false> *)nullptr, small, "a smaller space (array)");
  P((full_t<S, true> *)nullptr, large, "a larger space (map)");
  P((full_t<S, false> *)nullptr, large, "a larger space (array)");
}
template <typename S, bool M> void prog(bool full) {
  static triqs::hilbert_space::hilbert_space hs(FOPS(2, false));
  static sub_hilbert_space sp = [] {
    sub_hilbert_space s(3);
    for (uint64_t f : {6, 1, 0, 4}) s.add_fock_state(f);
    return s;
  }();
  if (full) programs<full_t<S, M>>(hs, {0, 1, 2, 3});
  else programs<sub_t<S, M>>(sp, {6, 1, 0, 4});
}
JOB_SHARDED(state_map_real, 2) { prog<double, true>(ex::flip()); }
JOB_SHARDED(state_map_cplx, 2) { prog<cplx, true>(ex::flip()); }
JOB_SHARDED(state_vec_real, 2) { prog<double, false>(ex::flip()); }
JOB_SHARDED(state_vec_cplx, 2) { prog<cplx, false>(ex::flip()); }
