// C14: automatic partition of a space, every small operator, against closures computed directly
#include "explore.hpp"
#include <functional>
#include <triqs/hilbert_space/space_partition.hpp>
using triqs::hilbert_space::space_partition;
struct st_t {
  using value_type = double;
  std::vector<double> a;
  int size() const { return a.size(); }
  double &operator()(int i) { return a[i]; }
};
template <typename L> void foreach (st_t const &s, L l) {
  for (int i = 0; i < s.size(); ++i) l(i, s.a[i]); // zeros too, as states in a vector do
}
static st_t make_zero_state(st_t const &s) { return {std::vector<double>(s.size(), 0.0)}; }
struct op_t {
  std::vector<std::vector<double>> m; // m[f][i]
  st_t operator()(st_t const &s) const {
    st_t r = make_zero_state(s);
    for (int f = 0; f < int(m.size()); ++f)
      for (int i = 0; i < s.size(); ++i) r.a[f] += m[f][i] * s.a[i];
    return r;
  }
  bool is_empty() const { return m.empty(); }
};
using SP = space_partition<st_t, op_t>;
static op_t zero(int n) { return {std::vector<std::vector<double>>(n, std::vector<double>(n, 0.0))}; }
static op_t T(op_t o) {
  op_t r = o;
  for (int i = 0; i < int(o.m.size()); ++i)
    for (int j = 0; j < int(o.m.size()); ++j) r.m[i][j] = o.m[j][i];
  return r;
}
// labels by smallest state of each class
using part_t = std::vector<int>;
static part_t canon(part_t p) {
  std::map<int, int> first;
  for (int i = 0; i < int(p.size()); ++i) first.emplace(p[i], i);
  for (auto &x : p) x = first[x];
  return p;
}
static bool nz(double x) { return std::abs(x) > 1e-13; }
static void join(part_t &p, int i, int j) {
  int a = p[i], b = p[j];
  for (auto &x : p)
    if (x == b) x = a;
}
static part_t connect(int n, std::vector<op_t> const &ops) {
  part_t p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  for (auto const &o : ops)
    for (int i = 0; i < n; ++i)
      for (int f = 0; f < n; ++f)
        if (nz(o.m[f][i])) join(p, i, f);
  return canon(p);
}
// coarsen p until each operator maps every class into at most one class
static part_t close1(part_t p, std::vector<op_t> const &ops) {
  int n = p.size();
  for (bool again = true; again;) {
    again = false;
    for (auto const &o : ops) {
      std::map<int, int> to;
      for (int i = 0; i < n; ++i)
        for (int f = 0; f < n; ++f)
          if (nz(o.m[f][i])) {
            auto [it, isnew] = to.emplace(p[i], p[f]);
            if (!isnew && it->second != p[f]) {
              join(p, it->second, f), again = true;
              goto next;
            }
          }
    next:;
    }
  }
  return canon(p);
}
static std::string txt(part_t const &p) {
  std::string s;
  for (auto x : p) s += ex::cat(x, " ");
  return s;
}
static std::string txt(op_t const &o) {
  std::string s;
  for (int f = 0; f < int(o.m.size()); ++f)
    for (int i = 0; i < int(o.m.size()); ++i)
      if (o.m[f][i] != 0) s += ex::cat("<", f, "|", i, ">=", o.m[f][i], " ");
  return s;
}
static part_t read(SP &sp, int n) {
  part_t p(n, -1), seen(n, 0);
  int calls = 0;
  foreach (sp, [&](int s, int b) {
    ++calls;
    if (s >= 0 && s < n) p[s] = b, seen[s]++;
    ex::check(b >= 0 && b < int(sp.n_subspaces()), "index-range", "subspace index ", b, " of ", sp.n_subspaces());
  })
    ;
  bool all = calls == n;
  for (auto x : seen) all &= x == 1;
  ex::check(all, "cover", "foreach does not visit every state exactly once");
  for (int i = 0; i < n; ++i) ex::check(int(sp.lookup_basis_state(i)) == p[i], "lookup", "lookup of state ", i, " disagrees with foreach");
  std::set<int> used(p.begin(), p.end());
  ex::check(used.size() == sp.n_subspaces(), "cover", sp.n_subspaces(), " subspaces, ", used.size(), " of them populated");
  return p;
}
static void same_elements(SP::matrix_element_map_t const &e, op_t const *o, int n, std::string const &key, std::string const &what) {
  std::map<std::pair<unsigned, unsigned>, double> r;
  if (o)
    for (int i = 0; i < n; ++i)
      for (int f = 0; f < n; ++f)
        if (nz(o->m[f][i])) r[{unsigned(i), unsigned(f)}] = o->m[f][i];
  ex::check(r == std::map<std::pair<unsigned, unsigned>, double>(e.begin(), e.end()), key, what, ": ", e.size(), " recorded matrix elements, ", r.size(), " expected or different values");
}
static void mappings(SP &sp, part_t const &p, op_t const &o, int n) {
  for (bool diag : {false, true}) {
    auto m = sp.find_mappings(o, diag);
    SP::block_mapping_t r;
    for (int i = 0; i < n; ++i)
      for (int f = 0; f < n; ++f)
        if (nz(o.m[f][i]) && (!diag || p[i] == p[f])) r.insert({unsigned(p[i]), unsigned(p[f])});
    ex::check(m == r, "mapping", "find_mappings", diag ? " (diagonal)" : "", " of ", txt(o), ": ", m.size(), " connections, ", r.size(), " expected, partition ", txt(p));
  }
  ex::step();
}
static st_t proto(int n) {
  st_t s{std::vector<double>(n, 0.0)};
  for (int i = 0; i < n; ++i) s.a[i] = 1 + i; // must not matter
  return s;
}
// every graph of connections on n states
static void phase1(int n) {
  op_t H = zero(n);
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j)
      if (ex::flip()) H.m[i][j] = H.m[j][i] = (i == j ? 2.0 : 0.5 + i - 0.25 * j);
  bool store = ex::flip();
  SP sp(proto(n), H, store);
  auto p   = read(sp, n);
  auto ref = connect(n, {H});
  ex::check(canon(p) == ref, "partition", "partition ", txt(canon(p)), "instead of ", txt(ref), "for ", txt(H));
  same_elements(sp.get_matrix_elements(), store ? &H : nullptr, n, "elements", "Hamiltonian");
  mappings(sp, p, H, n);
  SP copy = sp;
  ex::check(read(copy, n) == p, "copy", "a copied partition differs");
  ex::state(ex::hash(std::vector<int>(ref)));
}
JOB_SHARDED(graphs, 2) { phase1(1 + ex::choose(ex::tier(4, 5))); }
// an operator with one-way connections and values below the tolerance, additional hybridization
JOB_SHARDED(directed, 4) {
  int n  = 2 + ex::choose(2);
  op_t H = zero(n), Y = zero(n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      int k = n == 2 ? ex::choose(4) : ex::choose(2);
      H.m[i][j] = k == 0 ? 0 : k == 1 ? 1.5 : k == 2 ? 1e-15 : -2;
    }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (i != j || n == 2)
        if (ex::flip()) Y.m[i][j] = -0.5 - i;
  bool store = ex::flip();
  SP sp(proto(n), H, store, Y);
  auto p   = read(sp, n);
  auto ref = connect(n, {H, Y});
  ex::check(canon(p) == ref, "partition-hyb", "partition ", txt(canon(p)), "instead of ", txt(ref), "for ", txt(H), " and ", txt(Y));
  same_elements(sp.get_matrix_elements(), store ? &H : nullptr, n, "elements-hyb", "Hamiltonian with hybridization");
  mappings(sp, p, Y, n);
}
// Jordan-Wigner matrices on k orbitals
static op_t jw(int k, int o, bool dag) {
  int n  = 1 << k;
  op_t r = zero(n);
  for (int s = 0; s < n; ++s)
    if (!(s >> o & 1)) {
      int sign = __builtin_popcount(s & ((1 << o) - 1)) % 2 ? -1 : 1;
      (dag ? r.m[s | 1 << o][s] : r.m[s][s | 1 << o]) = sign;
    }
  return r;
}
static op_t mul(op_t const &a, op_t const &b) {
  int n  = a.m.size();
  op_t r = zero(n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (a.m[i][j] != 0)
        for (int k = 0; k < n; ++k) r.m[i][k] += a.m[i][j] * b.m[j][k];
  return r;
}
static void add(op_t &a, op_t const &b, double x) {
  for (int i = 0; i < int(a.m.size()); ++i)
    for (int j = 0; j < int(a.m.size()); ++j) a.m[i][j] += x * b.m[i][j];
}
static void merge_all(op_t const &H, int n, std::vector<std::pair<op_t, op_t>> const &pairs, std::string const &what) {
  SP sp(proto(n), H, false);
  part_t p0 = read(sp, n);
  ex::check(canon(p0) == connect(n, {H}), "partition", "partition of ", what);
  bool store = ex::flip();
  std::vector<op_t> done;
  for (auto const &[cd, c] : pairs) {
    auto [ecd, ec] = sp.merge_subspaces(cd, c, store);
    same_elements(ecd, store ? &cd : nullptr, n, "elements-merge", "creation operator");
    same_elements(ec, store ? &c : nullptr, n, "elements-merge", "annihilation operator");
    done.push_back(cd), done.push_back(c);
    auto p = read(sp, n);
    for (auto const &o : done) {
      std::map<int, std::set<int>> to;
      for (auto [a, b] : sp.find_mappings(o)) to[a].insert(b);
      for (auto const &[a, b] : to)
        ex::check(b.size() <= 1, done.size() == 2 ? "one-to-one" : "one-to-one-several", "after merging ", done.size() / 2, " pairs subspace ", a, " is mapped into ", b.size(), " subspaces; ", what, " partition ", txt(canon(p)));
      mappings(sp, p, o, n);
    }
    auto ref = close1(canon(p0), done);
    // not coarser than needed: every class of the result lies in one class of the smallest closed partition
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < i; ++j)
        ex::check(!(p[i] == p[j] && ref[i] != ref[j]), "too-coarse", "states ", j, " and ", i, " are merged without need; ", what);
    ex::state(ex::hash(std::vector<int>(canon(p))));
  }
}
// fermions: hopping, correlated and pair terms on k orbitals, pairs merged one after the other
static void fermions(int k, std::vector<std::array<int, 5>> const &terms) {
  int n  = 1 << k;
  op_t H = zero(n);
  std::string what;
  double v = 1;
  for (auto t : terms) {
    v += 0.37;
    if (!ex::flip()) continue;
    op_t m;
    if (t[0] == 0) m = mul(jw(k, t[1], true), jw(k, t[2], false));
    if (t[0] == 1) m = mul(mul(mul(jw(k, t[1], true), jw(k, t[2], true)), jw(k, t[3], false)), jw(k, t[4], false));
    if (t[0] == 2) m = mul(jw(k, t[1], true), jw(k, t[2], true));                                        // pairing
    if (t[0] == 3) m = mul(mul(mul(jw(k, t[3], true), jw(k, t[3], false)), jw(k, t[1], true)), jw(k, t[2], false)); // correlated hopping
    if (t[0] == 4) {                                                                                      // projected hopping
      m = mul(jw(k, t[1], true), jw(k, t[2], false));
      add(m, mul(mul(jw(k, t[3], true), jw(k, t[3], false)), m), -1);
    }
    add(H, m, v), add(H, T(m), v);
    what += ex::cat("term", t[0], "(", t[1], t[2], t[3], t[4], ") ");
  }
  std::vector<std::pair<op_t, op_t>> pairs;
  for (int o = 0; o < k; ++o) pairs.emplace_back(jw(k, o, true), jw(k, o, false));
  if (ex::flip()) std::reverse(pairs.begin(), pairs.end());
  merge_all(H, n, pairs, what);
}
JOB_SHARDED(fermions3, 2) {
  fermions(3, {{0, 0, 1}, {0, 0, 2}, {0, 1, 2}, {2, 0, 1}, {2, 0, 2}, {2, 1, 2}, {3, 0, 1, 2}, {4, 0, 2, 1}, {4, 1, 2, 0}});
}
JOB_SHARDED(fermions4, 8) {
  if (ex::flip()) fermions(4, {{0, 0, 1}, {0, 2, 3}, {1, 0, 1, 2, 3}, {1, 0, 2, 3, 1}, {1, 0, 3, 1, 2}, {3, 0, 2, 3}, {4, 1, 2, 0}, {4, 0, 3, 1}});
  else fermions(4, {{2, 0, 1}, {2, 2, 3}, {4, 0, 1, 2}, {4, 1, 2, 3}, {4, 0, 2, 3}, {4, 1, 3, 0}, {3, 0, 3, 1}, {1, 0, 3, 1, 2}});
}
// general pairs: any one-way connections (up to a bound) with its transposed
JOB_SHARDED(pairs, 8) {
  int n  = ex::tier(4, 5);
  op_t H = zero(n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      if (ex::choose(2, true)) H.m[i][j] = H.m[j][i] = 1 + i;
  std::vector<std::pair<op_t, op_t>> pairs;
  op_t cd = zero(n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      if (ex::flip()) cd.m[i][j] = 1 + i + 10 * j;
  pairs.emplace_back(cd, T(cd));
  merge_all(H, n, pairs, ex::cat("H ", txt(H), " Cd ", txt(cd)));
}
