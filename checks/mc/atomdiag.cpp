// C15: exact diagonalization against dense Jordan-Wigner matrices and direct trace formulas
#include "explore.hpp"
#include <triqs/gfs.hpp>
#include <triqs/atom_diag/atom_diag.hpp>
#include <triqs/atom_diag/functions.hpp>
#include <triqs/atom_diag/gf.hpp>
#include <eigen3/Eigen/Dense>
#include <unistd.h>
using namespace triqs::operators;
using namespace triqs::atom_diag;
using triqs::hilbert_space::fundamental_operator_set;
using triqs::hilbert_space::gf_struct_t;
using cplx = std::complex<double>;
using CM = Eigen::MatrixXcd;
using word = std::vector<std::pair<bool, int>>; // dagger, mode
static constexpr int NM = 4, D = 1 << NM;
static const cplx I1(0, 1);
struct mode_index { const char *b; long i; };
static const mode_index MODE[NM] = {{"dn", 0}, {"dn", 1}, {"up", 0}, {"up", 1}};
static fundamental_operator_set const &fset() {
  static fundamental_operator_set f = [] {
    fundamental_operator_set f;
    for (auto m : MODE) f.insert(m.b, m.i);
    return f;
  }();
  return f;
}
static int lin(int m) { return fset()[{std::string(MODE[m].b), MODE[m].i}]; }
static CM dense(word const &w) {
  CM r = CM::Zero(D, D);
  for (int s = 0; s < D; ++s) {
    int t = s;
    double sg = 1;
    bool zero = false;
    for (auto it = w.rbegin(); it != w.rend() && !zero; ++it) {
      int k = lin(it->second);
      if (bool(t >> k & 1) == it->first) zero = true;
      if (__builtin_popcount(t & ((1 << k) - 1)) % 2) sg = -sg;
      t ^= 1 << k;
    }
    if (!zero) r(t, s) += sg;
  }
  return r;
}
struct term { const char *name; std::vector<std::pair<cplx, word>> words; bool real = true, conserving = true, sz = true; };
static word hc(word w) {
  std::reverse(w.begin(), w.end());
  for (auto &[d, m] : w) d = !d;
  return w;
}
static word W(std::initializer_list<int> l) { // +k: c^+_{k-1}, -k: c_{k-1}
  word w;
  for (int x : l) w.push_back({x > 0, std::abs(x) - 1});
  return w;
}
static term herm(const char *name, cplx x, word w, bool cons = true, bool sz = true) { return {name, {{x, w}, {std::conj(x), hc(w)}}, x.imag() == 0, cons, sz}; }
static std::vector<term> const &terms() { // modes 1,2: dn; 3,4: up
  static std::vector<term> v = {
     {"n1", {{1, W({1, -1})}}},        {"-0.7 n3", {{-0.7, W({3, -3})}}},       {"0.31 n4", {{0.31, W({4, -4})}}}, {"1.3 n1n3", {{1.3, W({1, 3, -3, -1})}}},
     {"0.9 n2n4", {{0.9, W({2, 4, -4, -2})}}}, {"-0.45 n1n2", {{-0.45, W({1, 2, -2, -1})}}}, herm("hop12", 0.37, W({1, -2})), herm("hop34", -0.37, W({3, -4})),
     herm("i hop12", 0.41 * I1, W({1, -2})), herm("complex hop34", cplx(0.2, -0.33), W({3, -4})), herm("spin-orbit", cplx(0, 0.27), W({1, -4}), true, false), herm("pair hopping", 0.23, W({3, 1, -2, -4})),
     herm("spin flip", -0.19, W({1, 4, -2, -3})), herm("pairing", 0.52, W({1, 3}), false), herm("odd", 0.29, W({2}), false, false), {"constant", {{0.6, {}}}}, herm("correlated hopping", 0.33, W({1, -2, 3, -3}))};
  return v;
}
template <bool C> using ops = typename atom_diag<C>::many_body_op_t;
template <bool C> using scal = typename atom_diag<C>::scalar_t;
template <bool C> scal<C> sc(cplx x) {
  if constexpr (C) return x; else return x.real();
}
template <bool C> ops<C> make(word const &w) {
  ops<C> r(scal<C>(1));
  for (auto [d, m] : w) r = r * ops<C>::make_canonical(d, {std::string(MODE[m].b), MODE[m].i});
  return r;
}
template <bool C> struct problem {
  ops<C> op;
  CM m = CM::Zero(D, D);
  void add(cplx x, word const &w) { op += sc<C>(x) * make<C>(w), m += x * dense(w); }
  void add(term const &t) {
    for (auto const &[x, w] : t.words) add(x, w);
  }
};
template <typename M> CM from(M const &m) {
  CM r(m.shape()[0], m.shape()[1]);
  for (int i = 0; i < r.rows(); ++i)
    for (int j = 0; j < r.cols(); ++j) r(i, j) = m(i, j);
  return r;
}
static double norm(CM const &m) { return m.size() == 0 ? 0 : m.cwiseAbs().maxCoeff(); }
template <typename F> bool throws(F f) {
  try {
    f();
    return false;
  } catch (std::exception const &) { return true; }
}
// the alphabet of operators applied to the solved problem
static std::vector<std::vector<std::pair<cplx, word>>> const &observables() {
  static std::vector<std::vector<std::pair<cplx, word>>> v = {
     {{1, W({1, -1})}}, {{1, W({1, -1})}, {1, W({2, -2})}, {1, W({3, -3})}, {1, W({4, -4})}}, {{0.5, W({3, -3})}, {0.5, W({4, -4})}, {-0.5, W({1, -1})}, {-0.5, W({2, -2})}}, {{1, W({1, 3, -3, -1})}},
     {{1, W({1, -2})}}, {{0.3, W({1, -2})}, {0.3, W({2, -1})}}, {{I1, W({1, -2})}, {-I1, W({2, -1})}}, {{1, W({3})}}, {{1, W({-2})}}, {{1, W({1})}, {2, W({3})}}, {{1, W({1, -3})}}, {{1, W({4, 2})}},
     {{2, {}}, {1, W({2, -2})}}, {{1, W({3, 1, -2, -4})}, {0.5, W({1, -1})}}, {{1, W({1, 2, 3, 4})}}, {}};
  return v;
}
template <bool C> struct solved {
  atom_diag<C> const &ad;
  CM F;               // columns: eigenstates in the Fock basis
  std::vector<double> E;
  std::vector<int> block, inner; // of an eigenstate
  double beta = 1;
};
static std::string describe;
template <bool C> solved<C> check_states(atom_diag<C> const &ad, problem<C> const &H, int n_min, int n_max) {
  solved<C> r{ad};
  int nst = 0;
  for (int s = 0; s < D; ++s) nst += __builtin_popcount(s) >= n_min && __builtin_popcount(s) <= n_max;
  ex::check(ad.get_full_hilbert_space_dim() == D, "dimension", describe);
  r.F = CM::Zero(D, nst);
  std::vector<int> seen(D, 0), owner(D, -1);
  int n = 0;
  bool inside = true;
  auto all = ad.get_fock_states();
  auto dims = ad.get_subspace_dims();
  auto us = ad.get_unitary_matrices();
  auto en = ad.get_energies();
  ex::check(int(all.size()) == ad.n_subspaces() && int(dims.size()) == ad.n_subspaces() && int(us.size()) == ad.n_subspaces() && int(en.size()) == ad.n_subspaces(), "number-of-subspaces", describe);
  double last = -1;
  for (int b = 0; b < ad.n_subspaces(); ++b) {
    auto const &fs = ad.get_fock_states(b);
    int d = ad.get_subspace_dim(b);
    CM u = from(ad.get_unitary_matrix(b));
    ex::check(d > 0 && int(fs.size()) == d && dims[b] == d && u.rows() == d && u.cols() == d && int(en[b].size()) == d && all[b] == fs && norm(from(us[b]) - u) == 0, "subspace", describe, ": subspace ", b, " has inconsistent sizes");
    ex::check(norm(u.adjoint() * u - CM::Identity(d, d)) < 1e-12, "unitary", describe, ": the eigenvectors of subspace ", b, " are not orthonormal");
    auto rg = ad.index_range_of_subspace(b);
    ex::check(rg.first() == n && rg.last() == n + d, "index-range", describe, ": subspace ", b);
    for (int i = 0; i < d; ++i) {
      int s = fs[i];
      bool in = s >= 0 && s < D && __builtin_popcount(s) >= n_min && __builtin_popcount(s) <= n_max;
      inside = inside && in;
      if (!in || n >= nst) continue;
      ++seen[s], owner[s] = b;
    }
    for (int i = 0; i < d && n < nst; ++i, ++n) {
      for (int k = 0; k < d; ++k) r.F(fs[k], n) = u(k, i);
      double e = ad.get_eigenvalue(b, i);
      ex::check(en[b][i] == e && (i == 0 || e >= en[b][i - 1]), "eigenvalue-order", describe, ": eigenvalues of subspace ", b);
      ex::check(ad.flatten_subspace_index(b, i) == n, "flatten", describe, ": state (", b, ",", i, ") has index ", ad.flatten_subspace_index(b, i));
      r.E.push_back(e), r.block.push_back(b), r.inner.push_back(i);
    }
    ex::check(en[b][0] > last - 1e-8, "subspace-order", describe, ": subspaces are not ordered by energy");
    last = en[b][0];
  }
  bool once = inside && n == nst;
  for (int s = 0; s < D; ++s) once = once && seen[s] == (__builtin_popcount(s) >= n_min && __builtin_popcount(s) <= n_max);
  ex::check(once, "partition", describe, ": the subspaces are not a partition of the Fock states");
  // H F = F (E + E0), on the states kept
  CM P = r.F * r.F.adjoint();
  Eigen::VectorXcd e(nst);
  for (int i = 0; i < nst; ++i) e(i) = r.E[i] + ad.get_gs_energy();
  ex::check(norm(P * H.m * r.F - r.F * e.asDiagonal()) < 1e-10, "eigenstates", describe, ": not the eigenstates of the Hamiltonian");
  Eigen::MatrixXcd Hk(nst, nst);
  std::vector<int> keep;
  for (int s = 0; s < D; ++s)
    if (seen[s]) keep.push_back(s);
  for (int i = 0; i < nst; ++i)
    for (int j = 0; j < nst; ++j) Hk(i, j) = H.m(keep[i], keep[j]);
  Eigen::SelfAdjointEigenSolver<CM> es(Hk);
  auto sorted = r.E;
  std::sort(sorted.begin(), sorted.end());
  bool same = std::abs(sorted[0]) == 0;
  for (int i = 0; i < nst; ++i) same = same && std::abs(sorted[i] + ad.get_gs_energy() - es.eigenvalues()(i)) < 1e-10;
  ex::check(same, "spectrum", describe, ": the spectrum differs from that of the dense matrix");
  ex::check(ad.get_h_atomic() == H.op && ad.get_fops() == fset(), "inputs", describe);
  // connections and matrices of c and c^+
  for (int m = 0; m < NM; ++m)
    for (bool dag : {false, true}) {
      CM c = dense({{dag, m}});
      int k = lin(m);
      for (int b = 0; b < ad.n_subspaces(); ++b) {
        std::set<int> to;
        for (int s : ad.get_fock_states(b))
          for (int t = 0; t < D; ++t)
            if (c(t, s) != 0. && owner[t] >= 0) to.insert(owner[t]);
        long conn = dag ? ad.cdag_connection(k, b) : ad.c_connection(k, b);
        ex::check(to.size() <= 1, "one-target", describe, ": c of mode ", m, " connects subspace ", b, " to several others");
        ex::check(conn == (to.empty() ? -1 : *to.begin()), "connection", describe, ": connection of mode ", m, ", subspace ", b, " is ", conn);
        if (conn < 0 || conn >= ad.n_subspaces()) continue;
        CM got = from(dag ? ad.cdag_matrix(k, b) : ad.c_matrix(k, b));
        auto A = ad.index_range_of_subspace(conn), B = ad.index_range_of_subspace(b);
        CM want = r.F.middleCols(A.first(), A.last() - A.first()).adjoint() * c * r.F.middleCols(B.first(), B.last() - B.first());
        ex::check(got.rows() == want.rows() && got.cols() == want.cols() && norm(got - want) < 1e-12, "ladder-matrix", describe, ": the matrix of mode ", m, " in subspace ", b, " differs");
      }
    }
  // the vacuum
  long v = ad.get_vacuum_subspace_index();
  auto const &vac = ad.get_vacuum_state();
  bool ok = vac.size() == D;
  if (n_min <= 0) {
    ok = ok && v == owner[0];
    for (int i = 0; i < nst && ok; ++i) ok = std::abs(vac(i) - std::conj(r.F(0, i))) < 1e-14;
  } else {
    ok = ok && v == -1;
    for (int i = 0; i < nst && ok; ++i) ok = vac(i) == 0.;
  }
  ex::check(ok, "vacuum", describe, ": vacuum state in subspace ", v);
  return r;
}
template <bool C> void check_operators(solved<C> const &r, problem<C> const &H, std::vector<double> const &rho, double Z, bool all_states) {
  auto const &ad = r.ad;
  int nst = r.E.size();
  auto dm = atomic_density_matrix(ad, r.beta);
  bool ok = std::abs(partition_function(ad, r.beta) / Z - 1) < 1e-12 && int(dm.size()) == ad.n_subspaces();
  for (int b = 0, n = 0; b < ad.n_subspaces() && ok; ++b) {
    CM m = from(dm[b]);
    ok = m.rows() == ad.get_subspace_dim(b) && m.cols() == m.rows();
    for (int i = 0; i < m.rows() && ok; ++i, ++n)
      for (int j = 0; j < m.rows(); ++j) ok = ok && std::abs(m(i, j) - (i == j ? rho[n] : 0)) < 1e-12;
  }
  ex::check(ok, "density-matrix", describe, " beta=", r.beta);
  for (auto const &o : observables()) {
    problem<C> op;
    bool skip = false;
    for (auto const &[x, w] : o) {
      skip = skip || (!C && x.imag() != 0);
      op.add(x, w);
    }
    if (skip) continue;
    ex::step();
    std::ostringstream name;
    name << describe << ", operator " << op.op;
    CM want = r.F.adjoint() * op.m * r.F; // in the eigenbasis
    // block matrix
    bool several = false; // some subspace connected to several by the monomials
    for (int b = 0; b < ad.n_subspaces(); ++b) {
      std::set<int> to;
      for (auto const &[x, w] : o) {
        CM m = dense(w) * r.F;
        for (int i = 0; i < nst; ++i)
          if (r.block[i] == b)
            for (int j = 0; j < nst; ++j)
              if (std::abs((r.F.col(j).adjoint() * m.col(i))(0)) > 1e-13) to.insert(r.block[j]);
      }
      several = several || to.size() > 1;
    }
    bool t = throws([&] {
      auto bm = ad.get_op_mat(op.op);
      CM got = CM::Zero(nst, nst);
      bool shape = bm.n_blocks() == ad.n_subspaces();
      for (int b = 0; b < ad.n_subspaces() && shape; ++b) {
        int c = bm.connection(b);
        if (c == -1) continue;
        auto A = ad.index_range_of_subspace(c), B = ad.index_range_of_subspace(b);
        CM m = from(bm.block_mat[b]);
        shape = m.rows() == A.last() - A.first() && m.cols() == B.last() - B.first();
        if (shape) got.block(A.first(), B.first(), m.rows(), m.cols()) = m;
      }
      ex::check(shape && norm(got - want) < 1e-11, "operator-matrix", name.str());
    });
    ex::check(t == several, "operator-matrix-refusal", name.str(), t ? ": refused" : ": accepted");
    // act
    for (int k = 0; k < 3; ++k) {
      typename atom_diag<C>::full_hilbert_space_state_t st(D);
      Eigen::VectorXcd x = Eigen::VectorXcd::Zero(nst);
      for (int i = 0; i < D; ++i) st(i) = 0;
      for (int i = 0; i < nst; ++i) {
        x(i) = k == 0 ? cplx(i == nst / 2) : k == 1 ? cplx(1.0 / (i + 1)) : cplx(i % 3 - 1., C ? 0.5 * (i % 2) : 0);
        st(i) = sc<C>(x(i));
      }
      auto got = act(op.op, st, ad);
      Eigen::VectorXcd w = want * x;
      double d = got.size() == D ? 0 : 1;
      for (int i = 0; i < nst && d < 1e-9; ++i) d = std::max(d, std::abs(got(i) - w(i)));
      ex::check(d < 1e-11, "act", name.str(), ", state ", k, ": off by ", d);
    }
    // expectation value
    cplx tr = 0;
    for (int i = 0; i < nst; ++i) tr += want(i, i) * rho[i];
    ex::check(std::abs(cplx(trace_rho_op(dm, op.op, ad)) - tr) < 1e-12, "expectation", name.str(), " beta=", r.beta);
    // quantum numbers
    if (norm(op.m - op.m.adjoint()) > 0) continue;
    bool commutes = norm(op.m * H.m - H.m * op.m) < 1e-12;
    bool q = throws([&] {
      auto v = quantum_number_eigenvalues(op.op, ad);
      double d = int(v.size()) == ad.n_subspaces() ? 0 : 1;
      for (int b = 0, n = 0; b < ad.n_subspaces() && d < 1e-9; ++b)
        for (int i = 0; i < ad.get_subspace_dim(b); ++i, ++n) d = std::max(d, std::abs(v[b].at(i) - want(n, n)));
      ex::check(d < 1e-11, "quantum-number", name.str());
    });
    ex::check(q == !commutes, "quantum-number-refusal", name.str(), q ? ": refused" : ": accepted");
    CM off = want;
    off.diagonal().setZero();
    bool diag = norm(off) < 1e-9, nearly = norm(off) < 1e-12;
    if (diag != nearly) continue;
    bool qc = throws([&] {
      auto v = quantum_number_eigenvalues_checked(op.op, ad);
      double d = int(v.size()) == ad.n_subspaces() ? 0 : 1;
      for (int b = 0, n = 0; b < ad.n_subspaces() && d < 1e-9; ++b)
        for (int i = 0; i < ad.get_subspace_dim(b); ++i, ++n) d = std::max(d, std::abs(v[b].at(i) - want(n, n)));
      ex::check(d < 1e-11, "quantum-number-checked", name.str());
    });
    ex::check(qc == !(commutes && diag), "quantum-number-checked-refusal", name.str(), qc ? ": refused" : ": accepted");
  }
}
static double legendre_p(int l, double x) {
  double p0 = 1, p1 = x;
  if (l == 0) return p0;
  for (int k = 2; k <= l; ++k) { double p = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1, p1 = p; }
  return p1;
}
static std::pair<std::vector<double>, std::vector<double>> const &gauss() { // Gauss-Legendre from the Jacobi matrix
  static auto v = [] {
    int n = 40;
    Eigen::MatrixXd J = Eigen::MatrixXd::Zero(n, n);
    for (int i = 1; i < n; ++i) J(i, i - 1) = J(i - 1, i) = i / std::sqrt(4.0 * i * i - 1);
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(J);
    std::pair<std::vector<double>, std::vector<double>> p;
    for (int i = 0; i < n; ++i) p.first.push_back(es.eigenvalues()(i)), p.second.push_back(2 * es.eigenvectors()(0, i) * es.eigenvectors()(0, i));
    return p;
  }();
  return v;
}
template <bool C> void check_gf(solved<C> const &r, gf_struct_t const &gs, excluded_states_t const &excl, std::vector<double> const &rho, bool full, CM const *H = nullptr) {
  auto const &ad = r.ad;
  double beta = r.beta;
  int nst = r.E.size();
  auto lehmann = atomic_g_lehmann(ad, beta, gs, excl);
  int ntau = 5, niw = 3, nl = 5, nw = 4;
  auto gt = atomic_g_tau(ad, beta, gs, ntau, excl);
  auto gi = atomic_g_iw(ad, beta, gs, niw, excl);
  auto gl = atomic_g_l(ad, beta, gs, nl, excl);
  double broad = 0.13;
  auto gw = atomic_g_w(ad, beta, gs, {-2.1, 1.7}, nw, broad, excl);
  auto gt2 = atomic_g_tau<C>(lehmann, gs, triqs::mesh::imtime{beta, triqs::mesh::Fermion, ntau});
  auto gi2 = atomic_g_iw<C>(lehmann, gs, triqs::mesh::imfreq{beta, triqs::mesh::Fermion, niw});
  auto gl2 = atomic_g_l<C>(lehmann, gs, triqs::mesh::legendre{beta, triqs::mesh::Fermion, nl});
  auto gw2 = atomic_g_w<C>(lehmann, gs, triqs::mesh::refreq{-2.1, 1.7, nw}, broad);
  auto out = [&](int i) { return std::find(excl.begin(), excl.end(), std::make_pair(r.block[i], r.inner[i])) != excl.end(); };
  std::vector<char> ex_(nst);
  for (int i = 0; i < nst; ++i) ex_[i] = out(i);
  ex::check(lehmann.size() == gs.size() && gt.size() == int(gs.size()) && gi.size() == int(gs.size()) && gl.size() == int(gs.size()) && gw.size() == int(gs.size()), "gf-blocks", describe);
  double biggest = 0;
  for (int bl = 0; bl < int(gs.size()); ++bl) {
    auto const &[name, n] = gs[bl];
    ex::check(gt.block_names()[bl] == name && gt[bl].target_shape()[0] == n && gt[bl].target_shape()[1] == n && gi[bl].target_shape()[0] == n, "gf-shape", describe, ": block ", name);
    for (int a = 0; a < n; ++a)
      for (int b = 0; b < n; ++b) {
        CM ca = CM::Zero(D, D), cb = ca;
        for (int m = 0; m < NM; ++m) {
          if (name == MODE[m].b && MODE[m].i == a) ca = dense({{false, m}});
          if (name == MODE[m].b && MODE[m].i == b) cb = dense({{true, m}});
        }
        CM x = r.F.adjoint() * ca * r.F, y = r.F.adjoint() * cb * r.F; // <A|c|B> <B|c+|A>
        std::map<long, cplx> spec; // strength by pole
        struct pole { double e; cplx w; };
        std::vector<pole> ps;
        for (int A = 0; A < nst; ++A)
          for (int B = 0; B < nst; ++B)
            if (!ex_[A] && !ex_[B] && std::abs(x(A, B) * y(B, A)) > 1e-18) ps.push_back({r.E[B] - r.E[A], (rho[A] + rho[B]) * x(A, B) * y(B, A)});
        auto tau_value = [&](double tau) {
          cplx g = 0;
          for (auto const &p : ps) g -= p.w * (p.e > 0 ? std::exp(-tau * p.e) / (1 + std::exp(-beta * p.e)) : std::exp((beta - tau) * p.e) / (1 + std::exp(beta * p.e)));
          return g;
        };
        auto cmp = [&](cplx g, cplx want, const char *what, double at) { ex::check(std::abs(g - want) < 1e-10 * (1 + std::abs(want)), what, describe, " beta=", beta, ": ", what, " element ", name, a, b, " at ", at, " is ", g.real(), "+", g.imag(), "i instead of ", want.real(), "+", want.imag(), "i"); };
        for (int i = 0; i < ntau; ++i) {
          double tau = beta * i / (ntau - 1);
          cplx want = tau_value(tau);
          cmp(gt[bl].data()(i, a, b), want, "g-tau", tau), cmp(gt2[bl].data()(i, a, b), want, "g-tau-lehmann", tau);
        }
        for (int k = 0; k < 2 * niw; ++k) {
          cplx iw(0, M_PI * (2 * (k - niw) + 1) / beta), want = 0;
          for (auto const &p : ps) want += p.w / (iw - p.e);
          cmp(gi[bl].data()(k, a, b), want, "g-iw", k), cmp(gi2[bl].data()(k, a, b), want, "g-iw-lehmann", k);
        }
        for (int k = 0; k < nw; ++k) {
          cplx z(-2.1 + 3.8 * k / (nw - 1), broad), want = 0;
          for (auto const &p : ps) want += p.w / (z - p.e);
          cmp(gw[bl].data()(k, a, b), want, "g-w", z.real()), cmp(gw2[bl].data()(k, a, b), want, "g-w-lehmann", z.real());
        }
        double emax = 0;
        for (auto const &p : ps) emax = std::max(emax, std::abs(p.e));
        for (int l = 0; l < nl; ++l) {
          cplx want = 0;
          if (beta * emax < 30) {
            auto const &[X, Wt] = gauss();
            for (int q = 0; q < int(X.size()); ++q) want += 0.5 * beta * Wt[q] * std::sqrt(2 * l + 1.) * legendre_p(l, X[q]) * tau_value(0.5 * beta * (X[q] + 1));
          } else { // term by term, integrals of P_l exp in closed form
            for (auto const &p : ps) {
              double h = beta * std::abs(p.e) / 2, i = 0;
              if (h < 30) {
                auto const &[X, Wt] = gauss();
                for (int q = 0; q < int(X.size()); ++q) i += 0.5 * Wt[q] * legendre_p(l, X[q]) * std::exp(-h * (X[q] + 1));
              } else {
                double c = 1, s = 0; // exp(-h) i_l(h) = 1/2h sum_k (-1)^k (l+k)!/(k!(l-k)!) (2h)^-k
                for (int k = 0; k <= l; ++k) s += c, c *= -double(l + k + 1) * (l - k) / (k + 1) / (2 * h);
                i = s / (2 * h) * (l % 2 ? -1 : 1);
              }
              want += -p.w * beta / (1 + std::exp(-2 * h)) * std::sqrt(2 * l + 1.) * i * (p.e < 0 && l % 2 ? -1. : 1.);
            }
          }
          cmp(gl[bl].data()(l, a, b), want, "g-l", l), cmp(gl2[bl].data()(l, a, b), want, "g-l-lehmann", l);
        }
        cplx sum = 0;
        for (auto const &[e, w] : lehmann[bl](a, b)) sum += w;
        cplx s2 = 0;
        for (auto const &p : ps) s2 += p.w;
        cmp(sum, s2, "lehmann-sum", 0);
        if (full) cmp(sum, a == b ? 1 : 0, "anticommutator", 0);
        biggest = std::max(biggest, std::abs(s2));
        if (H) { // direct trace with exponentials of the dense matrix
          Eigen::SelfAdjointEigenSolver<CM> es(*H);
          auto expm = [&](double t) {
            Eigen::VectorXcd e(D);
            for (int i = 0; i < D; ++i) e(i) = std::exp(-t * (es.eigenvalues()(i) - es.eigenvalues()(0)));
            return CM(es.eigenvectors() * e.asDiagonal() * es.eigenvectors().adjoint());
          };
          cplx Z = expm(beta).trace();
          for (int i = 0; i < ntau; ++i) {
            double tau = beta * i / (ntau - 1);
            cmp(gt[bl].data()(i, a, b), -(expm(beta - tau) * ca * expm(tau) * cb).trace() / Z, "g-tau-trace", tau);
          }
        }
      }
  }
}
template <bool C> void check_archive(atom_diag<C> const &ad) {
  char name[] = "/tmp/atom_diag_XXXXXX";
  int fd = mkstemp(name);
  ::close(fd);
  {
    h5::file f(name, 'w');
    h5_write(f, "ad", ad);
  }
  {
    h5::file f(name, 'r');
    atom_diag<C> b;
    h5_read(f, "ad", b);
    ex::check(b == ad, "archive", describe, ": an archived object differs when read back");
    ex::check(b.n_subspaces() == ad.n_subspaces() && (ad.n_subspaces() == 0 || b.flatten_subspace_index(ad.n_subspaces() - 1, 0) == ad.flatten_subspace_index(ad.n_subspaces() - 1, 0)), "archive-index", describe);
  }
  ::unlink(name);
}
template <bool C> void run(int max_terms, bool quick_gf) {
  // Hamiltonian: a subset of the terms
  problem<C> H;
  describe = "H = ";
  std::vector<int> ts;
  for (int k = 0; k < int(terms().size()); ++k)
    if (C || terms()[k].real) ts.push_back(k);
  bool cons = true, sz = true, has_pairing = false;
  int first = ex::choose(ts.size() + 1) - 1;
  int prev = first, n = 0;
  while (prev >= 0) {
    auto const &t = terms()[ts[prev]];
    H.add(t);
    describe += std::string(n ? " + " : "") + t.name, cons = cons && t.conserving, sz = sz && t.sz;
    if (++n == max_terms) break;
    int k = ex::choose(ts.size() - prev);
    if (k == 0) break;
    prev += k;
  }
  if (n == 0) describe += "0";
  // how the space is split
  int mode = ex::choose(9);
  ops<C> N, Nup, Ndn;
  for (int m = 0; m < NM; ++m) {
    auto x = make<C>({{true, m}, {false, m}});
    N += x, (m < 2 ? Ndn : Nup) += x;
  }
  int n_min = 0, n_max = NM;
  std::optional<atom_diag<C>> ad;
  std::vector<ops<C>> qn;
  std::vector<std::vector<double>> qv; // by Fock state
  auto count = [](int s, int from, int to) { double c = 0; for (int m = from; m < to; ++m) c += s >> lin(m) & 1; return c; };
  switch (mode) {
    case 0: ad.emplace(H.op, fset()), describe += ", automatic"; break;
    case 1: { // with a hybridization
      problem<C> hyb;
      for (auto x : {W({1, -4}), W({4, -1})}) hyb.add(0.1, x);
      ad.emplace(H.op, hyb.op, fset()), describe += ", hybridization";
      std::map<int, int> owner;
      for (int b = 0; b < ad->n_subspaces(); ++b) for (auto s : ad->get_fock_states(b)) owner[s] = b;
      for (int s = 0; s < D; ++s) for (int t = 0; t < D; ++t) if (hyb.m(s, t) != 0.) ex::check(owner[s] == owner[t], "hybridization", describe, ": the hybridization connects two subspaces");
      break;
    }
    case 2: case 3: case 4: {
      if (!cons) return;
      auto [a, b] = std::vector<std::pair<int, int>>{{1, 3}, {0, 2}, {2, 2}}[mode - 2];
      n_min = a, n_max = b, ad.emplace(H.op, fset(), a, b), describe += ", particles from " + std::to_string(a) + " to " + std::to_string(b);
      break;
    }
    case 5: if (!cons) return; qn = {N}, describe += ", quantum number N"; break;
    case 6: if (!cons || !sz) return; qn = {Nup, Ndn}, describe += ", quantum numbers Nup, Ndn"; break;
    case 7: qn = {}, describe += ", no quantum numbers"; break;
    case 8: if (!cons || !sz) return; qn = {0.3 * Nup - 0.7 * Ndn, N}, describe += ", quantum numbers 0.3 Nup - 0.7 Ndn, N"; break;
  }
  for (int s = 0; s < D; ++s)
    qv.push_back(mode == 5 ? std::vector<double>{count(s, 0, 4)} : mode == 6 ? std::vector<double>{count(s, 2, 4), count(s, 0, 2)} : mode == 8 ? std::vector<double>{0.3 * count(s, 2, 4) - 0.7 * count(s, 0, 2), count(s, 0, 4)} : std::vector<double>{});
  if (mode >= 5) {
    ad.emplace(H.op, fset(), qn);
    auto const &q = ad->get_quantum_numbers();
    bool ok = int(q.size()) == ad->n_subspaces();
    std::set<std::vector<long>> distinct;
    for (int b = 0; b < ad->n_subspaces() && ok; ++b) {
      std::vector<long> key;
      for (auto s : ad->get_fock_states(b)) {
        ok = ok && q[b].size() == qn.size();
        for (int i = 0; i < int(qn.size()) && ok; ++i) ok = std::abs(q[b][i] - qv[s][i]) < 1e-12;
      }
      for (double x : q[b]) key.push_back(std::lround(1e6 * x));
      ok = ok && distinct.insert(key).second;
    }
    // Known finding: the list is left in the order in which the subspaces were first met in the basis, while the
    // subspaces are sorted by energy. Anything else than these two orders is another violation.
    bool unsorted = false;
    if (!ok) {
      std::vector<std::vector<double>> met;
      for (auto const &v : qv)
        if (std::find_if(met.begin(), met.end(), [&](auto const &w) {
              bool same = true;
              for (int i = 0; i < int(w.size()); ++i) same = same && std::abs(w[i] - v[i]) < 1e-9;
              return same;
            }) == met.end())
          met.push_back(v);
      unsorted = met.size() == q.size();
      for (int b = 0; b < int(met.size()) && unsorted; ++b) {
        unsorted = q[b].size() == qn.size();
        for (int i = 0; i < int(qn.size()) && unsorted; ++i) unsorted = std::abs(q[b][i] - met[b][i]) < 1e-12;
      }
    }
    ex::check(ok, unsorted ? "quantum-numbers-in-order-of-the-basis" : "quantum-numbers-of-subspaces", describe, ": the quantum numbers listed for the subspaces are not theirs");
  } else
    ex::check(ad->get_quantum_numbers().empty(), "no-quantum-numbers", describe);
  auto r = check_states<C>(*ad, H, n_min, n_max);
  check_archive<C>(*ad);
  std::vector<double> rho;
  r.beta = std::vector<double>{1.0, 7.0, 0.25}[ex::choose(quick_gf ? 2 : 3)];
  double Z = 0;
  for (double e : r.E) Z += std::exp(-r.beta * e);
  for (double e : r.E) rho.push_back(std::exp(-r.beta * e) / Z);
  check_operators<C>(r, H, rho, Z, n_min == 0 && n_max == NM);
  bool whole = n_min == 0 && n_max == NM;
  int g = ex::choose(3);
  gf_struct_t gs = g == 0 ? gf_struct_t{{"up", 2}, {"dn", 2}} : g == 1 ? gf_struct_t{{"dn", 1}} : gf_struct_t{{"dn", 2}, {"up", 1}};
  excluded_states_t excl;
  if (g == 1) excl = {{ad->n_subspaces() - 1, 0}, {0, ad->get_subspace_dim(0) - 1}};
  if (g == 2) excl = {{0, 0}};
  check_gf<C>(r, gs, excl, rho, whole && excl.empty(), whole && excl.empty() ? &H.m : nullptr);
}
JOB_SHARDED(real, 15) { run<false>(ex::thorough() ? 3 : 2, true); }
JOB_SHARDED(complex, 18) { run<true>(ex::thorough() ? 3 : 2, true); }
// quantum numbers that do not fit
JOB(bad_numbers) {
  bool flip = ex::flip();
  ops<false> h, sz;
  for (int m = 0; m < NM; ++m) sz += (m < 2 ? -0.5 : 0.5) * make<false>({{true, m}, {false, m}});
  if (flip) h = make<false>(W({1, -1}));
  describe = "quantum number Sz^2";
  ex::check(throws([&] { atom_diag<false>(h, fset(), std::vector<ops<false>>{sz * sz}); }), "bad-numbers", "quantum numbers for which c connects one subspace to several are accepted");
  ex::step();
}
// low temperatures and wide bands
JOB(cold) {
  double beta = ex::pick(std::vector<double>{1, 50, 400, 2000, 1e5});
  double U = ex::pick(std::vector<double>{0, 1e-9, 0.5, 4, 30});
  double mu = ex::pick(std::vector<double>{0, 0.4, 2, 11}) * (ex::flip() ? 1 : -1);
  problem<true> H;
  H.add(U, W({1, 3, -3, -1}));
  for (int m = 0; m < NM; ++m) H.add(m % 2 ? -mu : -mu - 0.1, {{true, m}, {false, m}});
  std::ostringstream d;
  d << "U=" << U << " mu=" << mu << " beta=" << beta;
  describe = d.str();
  atom_diag<true> ad(H.op, fset());
  auto r = check_states<true>(ad, H, 0, NM);
  r.beta = beta;
  double Z = 0;
  std::vector<double> rho;
  for (double e : r.E) Z += std::exp(-beta * e);
  for (double e : r.E) rho.push_back(std::exp(-beta * e) / Z);
  check_operators<true>(r, H, rho, Z, true);
  check_gf<true>(r, {{"up", 2}, {"dn", 2}}, {}, rho, true);
}
JOB(empty) {
  atom_diag<false> a, b;
  describe = "an empty object";
  ex::check(a == b && a.n_subspaces() == 0, "empty", describe);
  check_archive<false>(a);
  check_archive<true>(atom_diag<true>{});
  ex::step();
}
