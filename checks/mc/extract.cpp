// C16: coefficients extracted from operators, rebuilt as Jordan-Wigner matrices
#include "explore.hpp"
#include <triqs/gfs.hpp>
#include <triqs/operators/util/extractors.hpp>
using namespace triqs::operators;
using namespace triqs::operators::utils;
using triqs::hilbert_space::fundamental_operator_set;
using triqs::hilbert_space::gf_struct_t;
using triqs::utility::real_or_complex;
using cplx = std::complex<double>;
static constexpr int NM = 4, D = 1 << NM;
using mat = std::vector<cplx>; // D x D
static indices_t IDX(int m) {
  static std::vector<indices_t> v = {{std::string("up"), 0l}, {std::string("up"), 1l}, {std::string("dn"), 0l}, {std::string("dn"), 1l}};
  return v[m];
}
static int mode_of(indices_t const &i) {
  for (int m = 0; m < NM; ++m)
    if (IDX(m) == i) return m;
  return -1;
}
using word = std::vector<std::pair<bool, int>>; // dagger, mode
static void add(mat &r, cplx x, word const &w) { // r += x * product of w
  for (int s = 0; s < D; ++s) {
    int t = s;
    double sg = 1;
    bool zero = false;
    for (auto it = w.rbegin(); it != w.rend() && !zero; ++it) {
      bool occ = t >> it->second & 1;
      if (occ == it->first) zero = true;
      if (__builtin_popcount(t & ((1 << it->second) - 1)) % 2) sg = -sg;
      t ^= 1 << it->second;
    }
    if (!zero) r[t * D + s] += x * sg;
  }
}
static mat none() { return mat(D * D); }
static double dist(mat const &a, mat const &b) {
  double d = 0;
  for (int i = 0; i < D * D; ++i) d = std::max(d, std::abs(a[i] - b[i]));
  return d;
}
static cplx C(double x) { return x; }
static cplx C(cplx x) { return x; }
static cplx C(real_or_complex const &x) { return cplx(x); }
template <typename M> word word_of(M const &m) {
  word w;
  for (auto const &c : m) w.push_back({c.dagger, mode_of(c.indices)});
  return w;
}
template <typename O> std::string text(O const &op) {
  std::ostringstream s;
  s << op;
  return s.str();
}
template <typename F> bool throws(F f) {
  try {
    f();
    return false;
  } catch (triqs::runtime_error const &) { return true; }
}
static fundamental_operator_set const &fset() { // another order than that of the index sequences
  static fundamental_operator_set fs = [] {
    fundamental_operator_set f;
    for (int m : {2, 0, 3, 1}) f.insert_from_indices_t(IDX(m));
    return f;
  }();
  return fs;
}
static const gf_struct_t GS = {{"up", 2}, {"dn", 2}};
template <typename V, int N> V at(nda::array<V, N> const &a, std::array<long, N> i) {
  if constexpr (N == 2)
    return a(i[0], i[1]);
  else
    return a(i[0], i[1], i[2], i[3]);
}
// a dictionary as array: elements at the positions of the operator set, zero elsewhere
template <typename V, int N, typename Dict> void check_array(nda::array<V, N> const &a, Dict const &d, std::string const &what) {
  bool shape = true;
  for (int k = 0; k < N; ++k) shape = shape && a.shape()[k] == NM;
  ex::check(shape, "array-shape", what);
  double sum = 0, want = 0;
  for (auto const &x : a) sum += std::abs(x);
  for (auto const &[k, x] : d) {
    std::array<long, N> i;
    int n = 0;
    std::apply([&](auto const &...y) { ((i[n++] = fset()[y]), ...); }, k);
    ex::check(C(at<V, N>(a, i)) == C(x), "array", what, ": an element of the array differs from the dictionary");
    want += std::abs(C(x));
  }
  ex::check(std::abs(sum - want) < 1e-12, "array-zero", what, ": the array has elements beyond the dictionary");
}
template <typename Dict> void check_arrays(Dict const &d, std::string const &what) {
  constexpr int N = std::tuple_size_v<typename Dict::key_type>;
  using S = typename Dict::mapped_type;
  if constexpr (std::is_same_v<S, real_or_complex>) {
    bool real = true;
    for (auto const &[k, x] : d) real = real && x.is_real();
    auto v = dict_to_variant_matrix(d, fset());
    ex::check((v.index() == 0) == real, "variant", what, ": the array is ", v.index() == 0 ? "real" : "complex");
    std::visit([&](auto const &a) { check_array<std::decay_t<decltype(*a.begin())>, N>(a, d, what); }, v);
  } else
    check_array<S, N>(dict_to_matrix<S>(d, fset()), d, what);
  if constexpr (std::is_same_v<S, double>) check_array<cplx, N>(dict_to_matrix<cplx>(d, fset()), d, what);
  fundamental_operator_set small; // lacks some modes
  small.insert_from_indices_t(IDX(0)), small.insert_from_indices_t(IDX(3));
  bool missing = false;
  for (auto const &[k, x] : d) std::apply([&](auto const &...y) { ((missing = missing || !(y == IDX(0) || y == IDX(3))), ...); }, k);
  ex::check(throws([&] { dict_to_matrix<cplx>(d, small); }) == missing, "missing-index", what, ": an index that is not in the operator set is ", missing ? "accepted" : "seen");
}
template <typename S> void check_all(many_body_operator_generic<S> const &op) {
  ex::step();
  mat h = none(), dd = none(), q = none(), two = none(), four = none();
  bool only_h = true, only_dd = true, only_q = true, only_bl = true;
  int nh = 0;
  for (auto const &t : op) {
    word w = word_of(t.monomial);
    cplx x = C(t.coef);
    bool is_h = w.size() == 2 && w[0].first && !w[1].first;
    bool is_q = w.size() == 4 && w[0].first && w[1].first && !w[2].first && !w[3].first;
    bool is_dd = is_q && w[0].second == w[3].second && w[1].second == w[2].second;
    bool is_bl = is_h && w[0].second / 2 == w[1].second / 2;
    if (is_h) add(h, x, w), ++nh; else only_h = false;
    if (is_q) add(q, x, w); else only_q = false;
    if (is_dd) add(dd, x, w); else only_dd = false;
    if (!is_bl) only_bl = false;
    if (w.size() == 2) add(two, x, w);
    if (w.size() == 4) add(four, x, w);
  }
  auto str = text(op);
  // one-body part
  auto hd = extract_h_dict(op, true);
  mat r = none();
  for (auto const &[k, x] : hd) add(r, C(x), {{true, mode_of(std::get<0>(k))}, {false, mode_of(std::get<1>(k))}});
  ex::check(dist(r, h) == 0 && int(hd.size()) == nh, "one-body", "the one-body coefficients of ", str, " do not rebuild it");
  bool t = throws([&] { ex::check(extract_h_dict(op) == hd && extract_h_dict(op, false) == hd, "one-body-strict", str); });
  ex::check(t == !only_h, "one-body-refusal", "extract_h_dict ", t ? "refuses " : "accepts ", str);
  check_arrays(hd, "h of " + str);
  // density-density part
  auto ud = extract_U_dict2(op, true);
  r = none();
  for (auto const &[k, x] : ud) {
    int i = mode_of(std::get<0>(k)), j = mode_of(std::get<1>(k));
    add(r, 0.5 * C(x), {{true, i}, {false, i}, {true, j}, {false, j}});
    auto it = ud.find({std::get<1>(k), std::get<0>(k)});
    ex::check(it != ud.end() && C(it->second) == C(x), "symmetry2", "the coefficients U_ij of ", str, " are not symmetric");
    ex::check(i != j, "diagonal2", "U_ii of ", str, " is given");
  }
  ex::check(dist(r, dd) == 0, "density", "the density-density coefficients of ", str, " do not rebuild it");
  t = throws([&] { ex::check(extract_U_dict2(op) == ud, "density-strict", str); });
  ex::check(t == !only_dd, "density-refusal", "extract_U_dict2 ", t ? "refuses " : "accepts ", str);
  check_arrays(ud, "U2 of " + str);
  // two-body part
  auto u4 = extract_U_dict4(op, true);
  r = none();
  for (auto const &[k, x] : u4) {
    auto [I, J, K, L] = k;
    add(r, 0.5 * C(x), {{true, mode_of(I)}, {true, mode_of(J)}, {false, mode_of(L)}, {false, mode_of(K)}});
    auto get = [&](auto a, auto b, auto c, auto d) {
      auto it = u4.find({a, b, c, d});
      return it == u4.end() ? cplx(1e10) : C(it->second);
    };
    ex::check(get(J, I, K, L) == -C(x) && get(I, J, L, K) == -C(x) && get(J, I, L, K) == C(x), "symmetry4", "the coefficients U_ijkl of ", str, " are not antisymmetric");
  }
  ex::check(dist(r, q) == 0, "two-body", "the two-body coefficients of ", str, " do not rebuild it");
  t = throws([&] { ex::check(extract_U_dict4(op) == u4, "two-body-strict", str); });
  ex::check(t == !only_q, "two-body-refusal", "extract_U_dict4 ", t ? "refuses " : "accepts ", str);
  check_arrays(u4, "U4 of " + str);
  // parts by length
  for (long len = 0; len < 6; ++len) {
    auto f = len == 2 && ex::E().path.size() % 2 ? quadratic_terms(op) : len == 4 && ex::E().path.size() % 2 ? quartic_terms(op) : filter_op(op, len);
    mat a = none(), b = none();
    for (auto const &x : op)
      if (long(x.monomial.size()) == len) add(a, C(x.coef), word_of(x.monomial));
    for (auto const &x : f) add(b, C(x.coef), word_of(x.monomial));
    ex::check(dist(a, b) == 0, "filter", "the terms of length ", len, " of ", str, " are ", text(f));
  }
  // block matrices
  auto bm = block_matrix_from_op(op, GS, true);
  r       = none();
  mat bl = none();
  for (int b : {0, 1})
    for (int i : {0, 1})
      for (int j : {0, 1}) add(r, C(bm(b)(i, j)), {{true, 2 * b + i}, {false, 2 * b + j}});
  for (auto const &x : op) {
    word w = word_of(x.monomial);
    if (w.size() == 2 && w[0].first && !w[1].first && w[0].second / 2 == w[1].second / 2) add(bl, C(x.coef), w);
  }
  ex::check(bm.size() == 2 && bm(0).shape() == (std::array<long, 2>{2, 2}) && dist(r, bl) == 0, "block-matrix", "the block matrix of ", str, " does not rebuild it");
  t = throws([&] { block_matrix_from_op(op, GS); });
  ex::check(t == !only_bl, "block-refusal", "block_matrix_from_op ", t ? "refuses " : "accepts ", str);
  auto back = op_from_block_matrix(bm, GS);
  mat bb = none();
  for (auto const &x : back) add(bb, C(x.coef), word_of(x.monomial));
  ex::check(dist(bb, bl) == 0, "from-block-matrix", "the operator made of the block matrix of ", str, " is ", text(back));
  gf_struct_t other = {{"dn", 2}, {"x", 1}, {"up", 2}}; // another order, one more block
  auto bo = block_matrix_from_op(op, other, true);
  bool same = bo.size() == 3 && bo(1).shape() == (std::array<long, 2>{1, 1}) && C(bo(1)(0, 0)) == 0.0;
  for (int i : {0, 1})
    for (int j : {0, 1}) same = same && C(bo(0)(i, j)) == C(bm(1)(i, j)) && C(bo(2)(i, j)) == C(bm(0)(i, j));
  ex::check(same, "block-order", "the block matrix of ", str, " over another structure differs");
}
template <typename S> many_body_operator_generic<S> op_of(word const &w) {
  many_body_operator_generic<S> r(S(1));
  for (auto [d, m] : w) r = r * many_body_operator_generic<S>::make_canonical(d, IDX(m));
  return r;
}
template <typename S> S coef(int k);
template <> double coef<double>(int k) { return std::array{1.0, -0.5, 3.0}[k]; }
template <> cplx coef<cplx>(int k) { return std::array<cplx, 3>{1.0, {0, -2}, {0.5, 0.25}}[k]; }
template <> real_or_complex coef<real_or_complex>(int k) { return std::array<real_or_complex, 3>{real_or_complex(1.5), real_or_complex(cplx(0.5, 1)), real_or_complex(-2.0)}[k]; }
// single words in any order of the ladder operators
template <typename S> void words(int first) {
  word w;
  int len = ex::choose(ex::thorough() ? 6 : 5);
  if (len == 0 && first) return;
  for (int i = 0; i < len; ++i) {
    int k = i == 0 ? first : ex::choose(8);
    w.push_back({k % 2, k / 2});
  }
  check_all<S>(coef<S>(ex::thorough() ? ex::choose(3) : int(w.size()) % 3) * op_of<S>(w));
}
JOB_SHARDED(words_double, 8) { words<double>(ex::choose(8)); }
JOB_SHARDED(words_complex, 8) { words<cplx>(ex::choose(8)); }
JOB_SHARDED(words_roc, 8) { words<real_or_complex>(ex::choose(8)); }
// sums of words of an alphabet
static std::vector<word> const &alphabet() {
  static std::vector<word> v = [] {
    std::vector<word> r;
    for (int i = 0; i < NM; ++i)
      for (int j = 0; j < NM; ++j) r.push_back({{true, i}, {false, j}});
    for (int i = 0; i < NM; ++i)
      for (int j = 0; j < i; ++j) r.push_back({{true, i}, {false, i}, {true, j}, {false, j}});
    r.push_back({{true, 0}, {true, 1}, {false, 2}, {false, 3}}), r.push_back({{true, 2}, {true, 3}, {false, 0}, {false, 1}});
    r.push_back({{true, 0}, {true, 2}, {false, 1}, {false, 0}}), r.push_back({{true, 0}, {true, 1}}), r.push_back({{false, 3}}), r.push_back({});
    return r;
  }();
  return v;
}
template <typename S> void sums(int n) {
  many_body_operator_generic<S> op;
  int from = 0;
  for (int k = 0; k < n; ++k) {
    if (from >= int(alphabet().size())) return;
    int i = from + ex::choose(int(alphabet().size()) - from);
    from  = i + 1;
    op += coef<S>((k + (k == 0 && n == 3 ? ex::choose(3) : 0)) % 3) * op_of<S>(alphabet()[i]);
  }
  check_all<S>(op);
}
JOB_SHARDED(sums_double, 4) { sums<double>(ex::thorough() ? 4 : 3); }
JOB_SHARDED(sums_complex, 4) { sums<cplx>(ex::thorough() ? 4 : 3); }
JOB_SHARDED(sums_roc, 4) { sums<real_or_complex>(3); }
// block matrices of every content to operators and back; terms that do not belong to the structure
JOB(blocks) {
  int which = ex::choose(3);
  if (which == 0) { // rectangular structures
    std::vector<long> sz = {ex::choose(4), ex::choose(3)};
    gf_struct_t gs = {{"b", sz[0]}, {"a", sz[1]}};
    nda::array<nda::matrix<cplx>, 1> m(2);
    for (int b : {0, 1}) {
      m(b).resize(sz[b], sz[b]);
      for (int i = 0; i < sz[b]; ++i)
        for (int j = 0; j < sz[b]; ++j) m(b)(i, j) = cplx(1 + i + 5 * b, 3 * j - i);
    }
    int zb = ex::choose(2);
    if (sz[zb] > 1) m(zb)(0, sz[zb] - 1) = 0;
    auto op   = op_from_block_matrix(m, gs);
    auto back = block_matrix_from_op(op, gs);
    for (int b : {0, 1}) ex::check(back(b).shape() == m(b).shape() && max_element(abs(nda::make_regular(back(b) - m(b)))) == 0, "round-trip", "a block matrix with blocks of sizes ", sz[0], " ", sz[1], " is not recovered");
    int terms = 0, want = 0;
    for (auto const &t : op) ++terms, (void)t;
    for (int b : {0, 1})
      for (auto const &x : m(b)) want += x != 0.0;
    ex::check(terms == want, "round-trip-terms", terms, " terms instead of ", want);
    ex::step();
    return;
  }
  using O = many_body_operator_generic<double>;
  auto mk = [](bool d, auto... i) { return O::make_canonical(d, indices_t{i...}); };
  std::string up = "up", dn = "dn";
  std::vector<O> bad = {
     mk(true, up, 0l) * mk(false, up),                 // one of the sequences is too short
     mk(true, up) * mk(false, up, 0l),                 //
     mk(true, dn, 0l) * mk(false, up, 0l),             // between blocks
     mk(true, up, 0l, 0l) * mk(false, up, 0l, 0l),     // too long
     mk(true, up, 1l) * mk(false, up, 0l, 0l),         //
     mk(true, up, 0l) * mk(true, up, 1l),              // pair creation
     mk(false, up, 0l) * mk(false, up, 1l),            //
     mk(true, up, 0l) * mk(true, dn, 1l) * mk(false, up, 0l) * mk(false, dn, 0l), //
     mk(true, up, 0l) * mk(true, dn, 1l) * mk(false, up, 0l), mk(true, up, 0l), O(2.0),
     mk(true, std::string("no"), 0l) * mk(false, std::string("no"), 1l), // no such block
     mk(true, up, 2l) * mk(false, up, 0l), mk(true, up, 0l) * mk(false, up, 2l), mk(true, up, -1l) * mk(false, up, 0l), // no such orbital
     mk(true, 3l, 0l) * mk(false, 3l, 0l), mk(true, up, up) * mk(false, up, up) // wrong kinds of indices
  };
  int k = ex::choose(bad.size());
  O op  = bad[k];
  if (which == 2) op = op + 2 * mk(true, up, 0l) * mk(false, up, 1l);
  ex::check(throws([&] { block_matrix_from_op(op, GS); }), "block-refusal", "block_matrix_from_op accepts ", text(op));
  if (k < 11) { // of another form: ignored on demand
    auto m = block_matrix_from_op(op, GS, true);
    ex::check(m(0)(0, 1) == (which == 2 ? 2 : 0) && m(0)(0, 0) == 0 && m(1)(0, 0) == 0, "block-ignore", "the block matrix of ", text(op), " contains other terms");
  }
  ex::step();
}
