// C33: symmetrising a Green's function over a group
#include "gf_common.hpp"
#include <triqs/gfs/gf_sym_grp.hpp>
#include <set>
using nda::operation;
template <> prod<imfreq, imfreq> mesh_of<prod<imfreq, imfreq>>(int k) { return {imfreq{2.0, Fermion, 2}, imfreq{2.0, Boson, 1 + k}}; }
template <> prod<brzone, imfreq> mesh_of<prod<brzone, imfreq>>(int k) { return {mesh_of<brzone>(k), imfreq{2.0, Fermion, 1}}; }
template <> cyclat mesh_of<cyclat>(int k) { return cyclat{square(), 2 + k}; }
static std::string str(long i) { return std::to_string(i); }
static std::string str(std::array<long, 3> const &a) { return ex::cat("(", a[0], ",", a[1], ",", a[2], ")"); }
template <typename A, typename B> std::string str(std::tuple<A, B> const &t) { return str(std::get<0>(t)) + str(std::get<1>(t)); }

// maps of the index of a mesh: name, map (a bijection of the mesh)
template <typename M> std::vector<std::function<typename M::index_t(typename M::index_t)>> mesh_maps(M const &m) {
  using I = typename M::index_t;
  std::vector<std::function<I(I)>> r = {[](I i) { return i; }};
  if constexpr (std::is_same_v<M, imfreq>) {
    bool f = m.statistic() == Fermion;
    r.push_back([f](I i) { return f ? -i - 1 : -i; });
  } else if constexpr (std::is_same_v<M, brzone> || std::is_same_v<M, cyclat>) {
    r.push_back([m](I i) { return m.index_modulo(I{-i[0], -i[1], -i[2]}); });
    r.push_back([m](I i) { return m.index_modulo(I{i[1], i[0], i[2]}); });
    r.push_back([m](I i) { return m.index_modulo(I{-i[1], i[0], i[2]}); }); // a quarter turn
    r.push_back([m](I i) { return m.index_modulo(I{i[0] + 1, i[1], i[2]}); }); // a translation
  } else if constexpr (triqs::mesh::is_product<M>) {
    auto a = mesh_maps(std::get<0>(m));
    auto b = mesh_maps(std::get<1>(m));
    for (size_t i = 1; i < a.size(); ++i) r.push_back([f = a[i]](I x) { return I{f(std::get<0>(x)), std::get<1>(x)}; });
    for (size_t i = 1; i < b.size(); ++i) r.push_back([f = b[i]](I x) { return I{std::get<0>(x), f(std::get<1>(x))}; });
    r.push_back([f = a[1], g = b[1]](I x) { return I{f(std::get<0>(x)), g(std::get<1>(x))}; });
  } else { // other linear meshes: mirror
    long n = m.size();
    r.push_back([n](I i) { return I(n - 1 - i); });
  }
  return r;
}
// the components of a function in memory order
template <typename G> struct Space {
  using MI = typename G::mesh_t::index_t;
  static constexpr size_t TR = G::target_rank;
  using TI = std::array<long, TR>;
  std::vector<std::pair<MI, TI>> all;
  std::map<std::pair<MI, TI>, int> pos;
  Space(G const &g) {
    std::vector<TI> t = {{}};
    auto sh = g.target_shape();
    for (size_t d = 0; d < TR; ++d) {
      std::vector<TI> n;
      for (auto x : t)
        for (long i = 0; i < sh[d]; ++i) { x[d] = i; n.push_back(x); }
      t = n;
    }
    for (auto mp : g.mesh()) {
      MI i = mp.index();
      for (auto const &x : t) pos[{i, x}] = int(all.size()), all.push_back({i, x});
    }
  }
};
// orbits with the operation relating each member to the first one; false: the relations contradict each other
struct Orbits {
  std::vector<int> cls;
  std::vector<operation> op;
  int n = 0;
  bool consistent = true;
};
static Orbits orbits(int size, std::vector<std::vector<std::pair<int, operation>>> const &maps) {
  Orbits o;
  o.cls.assign(size, -1), o.op.assign(size, {});
  // relations both ways
  std::vector<std::vector<std::pair<int, operation>>> adj(size);
  for (auto &m : maps)
    for (int i = 0; i < size; ++i) adj[i].push_back(m[i]), adj[m[i].first].push_back({i, m[i].second});
  for (int i = 0; i < size; ++i) {
    if (o.cls[i] >= 0) continue;
    std::vector<int> todo = {i};
    o.cls[i] = o.n++;
    while (!todo.empty()) {
      int j = todo.back();
      todo.pop_back();
      for (auto [k, p] : adj[j]) {
        operation q{bool(p.sgn != o.op[j].sgn), bool(p.cc != o.op[j].cc)};
        if (o.cls[k] < 0) o.cls[k] = o.cls[i], o.op[k] = q, todo.push_back(k);
        else if (o.op[k].sgn != q.sgn || o.op[k].cc != q.cc) o.consistent = false;
      }
    }
  }
  return o;
}
template <typename G> std::vector<typename G::scalar_t> flat(G const &g) {
  nda::array<typename G::scalar_t, G::data_rank> a(g.data());
  return {a.data(), a.data() + a.size()};
}
template <typename T> static T apply_op(operation o, T x) {
  if constexpr (!std::is_same_v<T, double>) {
    if (o.cc) x = std::conj(x);
  }
  return o.sgn ? -x : x;
}
template <typename M, typename T> void group(int mesh, int size, int ngen) {
  using G  = gf<M, T>;
  using S  = typename G::scalar_t;
  using Sp = Space<G>;
  using MI = typename Sp::MI;
  using TI = typename Sp::TI;
  auto m = mesh_of<M>(mesh);
  std::array<long, G::target_rank> shape;
  shape.fill(size);
  G g{m, shape};
  fill(g, 1);
  Sp sp(g);
  auto mm = mesh_maps(m);
  // maps of the target
  std::vector<std::function<TI(TI)>> tm = {[](TI t) { return t; }};
  if constexpr (G::target_rank >= 2) {
    tm.push_back([](TI t) { std::swap(t[0], t[1]); return t; });
    tm.push_back([size](TI t) { for (auto &x : t) x = (x + 1) % size; return t; }); // a cyclic change of the orbitals
    tm.push_back([size](TI t) { t[0] = size - 1 - t[0]; return t; });
  } else if constexpr (G::target_rank == 1)
    tm.push_back([size](TI t) { t[0] = size - 1 - t[0]; return t; });
  using R = std::conditional_t<G::target_rank == 0, std::function<std::tuple<MI, operation>(MI const &)>, std::function<std::tuple<MI, TI, operation>(MI const &, TI const &)>>;
  std::vector<R> syms;
  std::vector<std::vector<std::pair<int, operation>>> table;
  std::string what = ex::cat("mesh ", mesh, " target ", size, ", generators");
  for (int k = 0; k < ngen; ++k) {
    int a = ex::choose(int(mm.size())), b = ex::choose(int(tm.size())), c = ex::choose(4);
    if (!a && !b) continue;
    operation op{bool(c & 1), bool(c & 2)};
    auto f = mm[a];
    auto h = tm[b];
    what += ex::cat(" ", a, "/", b, "/", c);
    if constexpr (G::target_rank == 0) syms.push_back([=](MI const &i) { return std::tuple<MI, operation>{f(i), op}; });
    else syms.push_back([=](MI const &i, TI const &t) { return std::tuple<MI, TI, operation>{f(i), h(t), op}; });
    table.emplace_back();
    for (auto &[i, t] : sp.all) table.back().push_back({sp.pos.at({f(i), h(t)}), op});
  }
  auto o = orbits(int(sp.all.size()), table);
  if (!o.consistent) { ex::count("contradictory generators"); return; }
  ex::count("groups");
  auto grp = triqs::gfs::sym_grp<R, G>{g, syms};
  ex::check(grp.num_classes() == o.n, "classes", what, ": ", grp.num_classes(), " classes instead of ", o.n);
  { // a partition
    std::set<std::array<long, G::data_rank>> seen;
    for (auto const &cl : grp.get_data_sym_grp().get_sym_classes())
      for (auto const &x : cl) ex::check(seen.insert(x.first).second, "partition", what, ": a component is in two classes");
    ex::check(seen.size() == sp.all.size(), "partition", what, ": ", seen.size(), " of ", sp.all.size(), " components");
  }
  // projection: generic values, one component perturbed, invariant values
  for (int data = 0; data < 3; ++data) {
    G x = g;
    if (data) {
      auto v = flat(x);
      std::vector<S> rep(o.n);
      for (size_t i = v.size(); i-- > 0;) rep[o.cls[i]] = apply_op(o.op[i], v[i]);
      size_t i = 0;
      for (auto &z : x.data()) z = apply_op(o.op[i], rep[o.cls[i]]), ++i;
      if (data == 1) { // one violation, at each place in turn
        long p = ex::choose(int(std::min<size_t>(sp.all.size(), 24)));
        i = 0;
        for (auto &z : x.data())
          if (long(i++) == p) z += 0.5;
      }
    }
    auto v = flat(x);
    std::vector<S> mean(o.n, S{0});
    std::vector<int> cnt(o.n, 0);
    for (size_t i = 0; i < v.size(); ++i) mean[o.cls[i]] += apply_op(o.op[i], v[i]), cnt[o.cls[i]]++;
    double worst = 0;
    std::vector<S> want(v.size());
    for (size_t i = 0; i < v.size(); ++i) want[i] = apply_op(o.op[i], mean[o.cls[i]] / double(cnt[o.cls[i]])), worst = std::max(worst, std::abs(want[i] - v[i]));
    auto [d, mi, ti] = grp.symmetrize(x);
    auto got = flat(x);
    ex::step();
    for (size_t i = 0; i < v.size(); ++i) ex::check(std::abs(got[i] - want[i]) < 1e-12 * (1 + std::abs(want[i])), "projection", what, ", data ", data, ": component ", i, " ", got[i], " instead of ", want[i]);
    ex::check(std::abs(d - worst) < 1e-12 * (1 + worst), "violation", what, ", data ", data, ": ", d, " instead of ", worst);
    if (worst > 1e-10) {
      auto it = sp.pos.find({mi, ti});
      ex::check(it != sp.pos.end() && std::abs(std::abs(want[it->second] - v[it->second]) - worst) < 1e-12 * (1 + worst), "violation-index", what, ", data ", data, ": not at the reported component");
    }
    ex::check(x.mesh() == m, "mesh", what);
    auto [d2, mi2, ti2] = grp.symmetrize(x); // twice: nothing left
    auto again = flat(x);
    ex::check(d2 < 1e-12 * (1 + 10), "idempotent", what, ": ", d2);
    for (size_t i = 0; i < v.size(); ++i) ex::check(std::abs(again[i] - want[i]) < 1e-12 * (1 + std::abs(want[i])), "idempotent", what);
  }
  // from the representatives
  for (bool par : {false, true}) {
    std::map<int, int> calls;
    int total = 0;
    auto val = [&](int p) {
      if constexpr (std::is_same_v<S, double>) return S(1 + p);
      else return S(1 + p, 2 - 3 * p);
    };
    G y{m, shape};
    auto record = [&](MI const &i, TI const &t) {
      auto it = sp.pos.find({i, t});
      ex::check(it != sp.pos.end(), "init-argument", what, ": not a component of the function");
      int p = it->second;
      calls[o.cls[p]] = p, total++;
      return val(p);
    };
    if constexpr (G::target_rank == 0) grp.init(y, [&](MI const &i) -> S { return record(i, TI{}); }, par);
    else grp.init(y, [&](MI const &i, TI const &t) -> S { return record(i, t); }, par);
    ex::check(total == o.n && int(calls.size()) == o.n, "init-calls", what, ": ", total, " calls for ", o.n, " classes");
    auto got = flat(y);
    for (size_t i = 0; i < got.size(); ++i) {
      int p = calls[o.cls[i]];
      operation rel{bool(o.op[i].sgn != o.op[p].sgn), bool(o.op[i].cc != o.op[p].cc)};
      ex::check(std::abs(got[i] - apply_op(rel, val(p))) < 1e-12 * (1 + std::abs(got[i])), "init", what, ": component ", i);
    }
    ex::step();
  }
  ex::check(flat(g) == flat([&] { G z{m, shape}; fill(z, 1); return z; }()), "constructor-changed", what);
}
JOB(scalar_frequency) { group<imfreq, scalar_valued>(ex::choose(3), 1, 1 + ex::choose(2)); }
JOB(scalar_time) { group<imtime, scalar_real_valued>(ex::choose(3), 1, 1); }
JOB_SHARDED(matrix_frequency, 3) { group<imfreq, matrix_valued>(ex::choose(3), 1 + ex::choose(3), 1 + ex::choose(2)); }
JOB(scalar_momentum) { group<brzone, scalar_valued>(ex::choose(2), 1, 1 + ex::choose(2)); }
JOB(scalar_lattice) { group<cyclat, scalar_valued>(ex::choose(2), 1, 1 + ex::choose(2)); }
JOB_SHARDED(matrix_momentum, 2) { group<brzone, matrix_valued>(ex::choose(2), 1 + ex::choose(2), 1 + (ex::thorough() ? ex::choose(2) : 0)); }
JOB(scalar_product) { group<prod<imfreq, imfreq>, scalar_valued>(ex::choose(2), 1, 1 + ex::choose(ex::tier(2, 3))); }
JOB_SHARDED(matrix_product, 2) { group<prod<imfreq, imfreq>, matrix_valued>(ex::choose(2), 2, 1 + ex::choose(ex::tier(1, 2))); }
JOB_SHARDED(momentum_product, 2) { group<prod<brzone, imfreq>, matrix_valued>(ex::choose(2), 1 + ex::choose(2), 1); }
JOB(tensor_frequency) { group<imfreq, tensor_valued<4>>(ex::choose(2), 2, 1 + ex::choose(ex::tier(1, 2))); }
JOB(tensor3_frequency) { group<imfreq, tensor_valued<3>>(0, 2, 1 + ex::choose(2)); }
JOB(outside) { // images outside of the mesh: a frequency and its opposite on a mesh of positive frequencies
  int n = 1 + ex::choose(4);
  long length = ex::choose(3);
  auto stat = ex::flip() ? Fermion : Boson;
  using G = gf<imfreq, scalar_valued>;
  using R = std::function<std::tuple<long, operation>(long const &)>;
  G g{imfreq{2.0, stat, n, imfreq::option::positive_frequencies_only}};
  fill(g, 1);
  auto v = flat(g);
  bool f = stat == Fermion;
  triqs::gfs::sym_grp<R, G> grp{g, {[f](long const &i) { return std::tuple<long, operation>{f ? -i - 1 : -i, operation{false, true}}; }}, length};
  ex::check(grp.num_classes() == g.mesh().size(), "outside", n, " frequencies: ", grp.num_classes(), " classes");
  auto [d, i, t] = grp.symmetrize(g);
  ex::check(d == 0 && flat(g) == v, "outside", "changed");
  ex::step();
}
JOB(through_outside) { // the image of the image is in the mesh again: used if the length of paths allows it
  int n = 2 + ex::choose(4), shift = 1 + ex::choose(n - 1);
  long length = ex::choose(4);
  using G = gf<imfreq, scalar_valued>;
  using R = std::function<std::tuple<long, operation>(long const &)>;
  G g{imfreq{2.0, Fermion, n, imfreq::option::positive_frequencies_only}};
  fill(g, 1);
  auto v = flat(g);
  triqs::gfs::sym_grp<R, G> grp{g, {[=](long const &i) { return std::tuple<long, operation>{i >= 0 ? -i - 1 : (-i - 1 + shift) % n, operation{i < 0, false}}; }}, length};
  int want = length ? std::gcd(n, shift) : n;
  if (length && (n / want) % 2) return; // x = -x
  ex::check(grp.num_classes() == want, "outside", n, " frequencies, shift ", shift, ", length ", length, ": ", grp.num_classes(), " classes");
  auto [d, i, t] = grp.symmetrize(g);
  if (!length) ex::check(d == 0 && flat(g) == v, "outside", "changed");
  else {
    auto w = flat(g);
    double worst = 0;
    for (int k = 0; k < n; ++k) ex::check(std::abs(w[(k + shift) % n] + w[k]) < 1e-12, "outside", "not invariant"), worst = std::max(worst, std::abs(w[k] - v[k]));
    ex::check(std::abs(worst - d) < 1e-12 && std::abs(std::abs(w[i] - v[i]) - d) < 1e-12, "outside", "violation ", d, " instead of ", worst);
  }
  ex::step();
}
