// C09 (algebra), C10 (archives), C11 (operator sets): many-body operators against Jordan-Wigner matrices
#include "explore.hpp"
#include <triqs/operators/many_body_operator.hpp>
using namespace triqs::operators;
using triqs::hilbert_space::fundamental_operator_set;
using triqs::utility::real_or_complex;
using cplx = std::complex<double>;
using namespace std::complex_literals;
static constexpr int NM = 3, D = 1 << NM;
struct mat {
  std::array<cplx, D * D> a{};
  cplx &operator()(int i, int j) { return a[i * D + j]; }
  cplx const &operator()(int i, int j) const { return a[i * D + j]; }
  bool operator==(mat const &b) const { return a == b.a; }
};
static mat unit() {
  mat r;
  for (int i = 0; i < D; ++i) r(i, i) = 1;
  return r;
}
static mat jw(int o, bool dag) {
  mat r;
  for (int s = 0; s < D; ++s)
    if (!(s >> o & 1)) {
      double sg = __builtin_popcount(s & ((1 << o) - 1)) % 2 ? -1 : 1;
      (dag ? r(s | 1 << o, s) : r(s, s | 1 << o)) = sg;
    }
  return r;
}
static mat operator*(mat const &a, mat const &b) {
  mat r;
  for (int i = 0; i < D; ++i)
    for (int k = 0; k < D; ++k)
      if (a(i, k) != 0.0)
        for (int j = 0; j < D; ++j) r(i, j) += a(i, k) * b(k, j);
  return r;
}
static mat lin(cplx x, mat const &a, cplx y, mat const &b) {
  mat r;
  for (int i = 0; i < D * D; ++i) r.a[i] = x * a.a[i] + y * b.a[i];
  return r;
}
static mat dag(mat const &a) {
  mat r;
  for (int i = 0; i < D; ++i)
    for (int j = 0; j < D; ++j) r(i, j) = std::conj(a(j, i));
  return r;
}
static double dist(mat const &a, mat const &b) {
  double d = 0;
  for (int i = 0; i < D * D; ++i) d = std::max(d, std::abs(a.a[i] - b.a[i]));
  return d;
}
// the three index sequences used: integer first, then mixed, so that their order differs from the order of the modes
static indices_t IDX(int m) {
  static std::vector<indices_t> v = {{std::string("a"), 1l}, {std::string("a")}, {2l}};
  return v[m];
}
static int mode_of(indices_t const &i) {
  for (int m = 0; m < NM; ++m)
    if (IDX(m) == i) return m;
  return -1;
}
static cplx C(double x) { return x; }
static cplx C(cplx x) { return x; }
static cplx C(real_or_complex x) { return cplx(x); }
static std::string idx_txt(indices_t const &v) {
  std::string s;
  for (auto const &x : v) {
    if (!s.empty()) s += ",";
    s += std::holds_alternative<long>(x) ? std::to_string(std::get<long>(x)) : "'" + std::get<std::string>(x) + "'";
  }
  return s;
}
template <typename O> std::string text(O const &op) {
  std::ostringstream s;
  s << op;
  return s.str();
}
template <typename O> mat matrix(O const &op, std::string const &what) {
  mat r;
  std::string printed;
  std::set<std::string> names;
  size_t last = 0;
  int terms   = 0;
  for (auto const &t : op) {
    mat m = unit();
    std::string nm;
    for (auto const &c : t.monomial) {
      int k = mode_of(c.indices);
      if (k < 0) return ex::fail("indices", what + ": unknown index sequence"), r;
      m = m * jw(k, c.dagger);
      nm += std::string("*c") + (c.dagger ? "_dag(" : "(") + idx_txt(c.indices) + ")";
    }
    // normal form: creation operators in ascending order then annihilation operators in descending order, none twice
    for (size_t i = 1; i < t.monomial.size(); ++i) {
      auto const &x = t.monomial[i - 1], &y = t.monomial[i];
      bool ok = x.dagger != y.dagger ? x.dagger : (x.dagger ? x.indices < y.indices : y.indices < x.indices);
      ex::check(ok, "normal-form", what, ": the monomial ", nm, " is not normally ordered");
    }
    ex::check(names.insert(nm).second, "unique", what, ": the monomial ", nm, " occurs twice");
    ex::check(std::abs(C(t.coef)) > 1e-14, "zero-term", what, ": the coefficient of ", nm, " is ", C(t.coef));
    ex::check(t.monomial.size() >= last, "order", what, ": monomials not sorted by length");
    last = t.monomial.size();
    std::ostringstream s;
    s << t.coef;
    printed += (terms++ ? " + " : "") + s.str() + nm;
    r = lin(1, r, C(t.coef), m);
    auto t2 = t;
    std::pair<std::vector<std::pair<bool, indices_t>>, typename O::scalar_t> p = t2;
    bool same = p.first.size() == t.monomial.size() && C(p.second) == C(t.coef);
    for (size_t i = 0; same && i < p.first.size(); ++i) same = p.first[i].first == t.monomial[i].dagger && p.first[i].second == t.monomial[i].indices;
    ex::check(same, "term-pair", what, ": the term as a pair differs");
  }
  ex::check(text(op) == (terms ? printed : "0"), "print", what, " prints as ", text(op), " instead of ", printed);
  ex::check(op.is_zero() == (terms == 0), "is-zero", what, ": is_zero");
  ex::check(std::distance(op.cbegin(), op.cend()) == terms, "iteration", what, ": cbegin, cend");
  return r;
}
template <typename S> S scal(int i) {
  if constexpr (std::is_same_v<S, double>) return std::array{2.0, -0.5, 0.0, -1.0}[i];
  else return std::array<cplx, 4>{2.0, {0, -0.5}, 0.0, {1, 1}}[i];
}
template <typename S> using op_t = many_body_operator_generic<S>;
template <typename S> op_t<S> ladder(int m, bool d) {
  if (m == 0) return d ? c_dag<S>("a", 1) : c<S>("a", 1);
  if (m == 1) return d ? c_dag<S>("a") : c<S>("a");
  return d ? c_dag<S>(2) : c<S>(2);
}
// the operators expressions start from
template <typename S> std::pair<op_t<S>, mat> start(int k) {
  if (k < 2 * NM) return {ladder<S>(k / 2, k % 2), jw(k / 2, k % 2)};
  k -= 2 * NM;
  if (k == 0) return {op_t<S>{}, mat{}};
  if (k == 1) return {op_t<S>{scal<S>(1)}, lin(C(scal<S>(1)), unit(), 0, mat{})};
  if (k == 2) return {n<S>("a", 1) + ladder<S>(2, true) * ladder<S>(1, false), lin(1, jw(0, 1) * jw(0, 0), 1, jw(2, 1) * jw(1, 0))};
  return {ladder<S>(1, false) * ladder<S>(0, true) * ladder<S>(1, true), jw(1, 0) * jw(0, 1) * jw(1, 1)};
}
static constexpr int NSTART = 2 * NM + 4;
template <typename S> void same(op_t<S> const &o, mat const &m, std::string const &what) {
  mat r = matrix(o, what);
  ex::check(dist(r, m) < 1e-12, "matrix:" + what.substr(0, what.find(' ')), what, " gives ", text(o), ": distance ", dist(r, m), " to the matrix expression");
  ex::check(o.is_almost_zero() == (o == op_t<S>{}) || dist(r, mat{}) < 1e-8, "almost-zero", what, ": is_almost_zero of ", text(o));
}
template <typename S> void algebra(int depth) {
  auto [A, a] = start<S>(ex::choose(NSTART));
  auto [B, b] = start<S>(ex::choose(NSTART));
  for (int d = 0; d < depth; ++d) {
    int k = ex::choose(22);
    S s   = scal<S>(1);
    std::string w;
    ex::step();
    switch (k) {
      case 0: A += B, a = lin(1, a, 1, b), w = "+="; break;
      case 1: A -= B, a = lin(1, a, -1, b), w = "-="; break;
      case 2: A *= B, a = a * b, w = "*="; break;
      case 3: A = B * A, a = b * a, w = "B*A"; break;
      case 4: A = A * B + B * A, a = lin(1, a * b, 1, b * a), w = "anticommutator"; break;
      case 5: A = A * B - B * A, a = lin(1, a * b, -1, b * a), w = "commutator"; break;
      case 6: A = dagger(A), a = dag(a), w = "dagger"; break;
      case 7: A = -A, a = lin(-1, a, 0, a), w = "minus"; break;
      case 8: std::swap(A, B), std::swap(a, b), w = "swap"; break;
      case 9: A += A, a = lin(2, a, 0, a), w = "A+=A"; break;
      case 10: A -= A, a = mat{}, w = "A-=A"; break;
      case 11: A *= A, a = a * a, w = "A*=A"; break;
      case 12: s = scal<S>(ex::choose(4)), A *= s, a = lin(C(s), a, 0, a), w = "*=s"; break;
      case 13: s = scal<S>(ex::choose(4)), A += s, a = lin(1, a, C(s), unit()), w = "+=s"; break;
      case 14: s = scal<S>(ex::choose(4)), A -= s, a = lin(1, a, -C(s), unit()), w = "-=s"; break;
      case 15: A /= s, a = lin(1.0 / C(s), a, 0, a), w = "/=s"; break;
      case 16: A = s - A, a = lin(-1, a, C(s), unit()), w = "s-A"; break;
      case 17: A = s * A + A * s, a = lin(2.0 * C(s), a, 0, a), w = "s*A"; break;
      case 18: A = A + s - (s + A) / s, a = lin(1.0 - 1.0 / C(s), a, C(s) - 1.0, unit()), w = "scalars"; break;
      case 19: {
        // conversions to the other coefficient types and back
        op_t<cplx> z(A);
        op_t<real_or_complex> r(z);
        same<cplx>(z, a, "to-complex"), same<real_or_complex>(r, a, "to-real-or-complex");
        bool is_real = true;
        for (auto x : z) is_real &= x.coef.imag() == 0;
        op_t<real_or_complex> q(A);
        if constexpr (!std::is_same_v<S, cplx>) {
          bool thrown = false, kind = true;
          for (auto x : q) kind &= x.coef.is_real();
          try {
            op_t<double> x(q);
            same<double>(x, a, "to-real");
          } catch (triqs::runtime_error const &) { thrown = true; }
          ex::check(thrown == !kind, "conversion", text(q), " to real coefficients: ", thrown ? "an exception" : "no exception");
        }
        op_t<S> back;
        back = A;
        A    = back;
        w    = "conversion";
        break;
      }
      case 20: {
        op_t<S> re = real(A), im = imag(A);
        mat mr, mi;
        for (auto t : A) {
          op_t<S> x(S(1), t.monomial);
          mat m = matrix(x, "monomial");
          mr = lin(1, mr, C(t.coef).real(), m), mi = lin(1, mi, C(t.coef).imag(), m);
        }
        same<S>(re, mr, "real"), same<S>(im, mi, "imag");
        auto tr = transform(A, [](monomial_t const &m, S x) { return m.size() % 2 ? S(0) : x * S(2); });
        mat mt;
        for (auto t : A)
          if (t.monomial.size() % 2 == 0) mt = lin(1, mt, 2.0 * C(t.coef), matrix(op_t<S>(S(1), t.monomial), "monomial"));
        same<S>(tr, mt, "transform");
        w = "parts";
        break;
      }
      default: {
        auto f = A.make_fundamental_operator_set();
        std::set<int> used;
        for (auto const &t : A)
          for (auto const &x : t.monomial) used.insert(mode_of(x.indices));
        bool ok = f.size() == int(used.size());
        for (int m : used) ok &= f.has_indices(IDX(m));
        ex::check(ok, "operator-set", "the operator set of ", text(A), " has ", f.size(), " elements");
        bool herm = dist(a, dag(a)) < 1e-12;
        ex::check(is_op_hermitian(A) == herm && is_op_hermitian(A, 1e-9) == (herm), "hermitian", "is_op_hermitian of ", text(A), " instead of ", herm);
        w = "queries";
      }
    }
    same<S>(A, a, w), same<S>(B, b, "other operand after " + w);
    bool eq = A == B, meq = dist(a, b) < 1e-12;
    ex::check(eq == meq, "equality", text(A), eq ? " == " : " != ", text(B));
    bool thrown = false;
    try {
      assert_operators_are_close(A, B, 1e-8);
    } catch (triqs::runtime_error const &) { thrown = true; }
    ex::check(thrown != meq, "assert-close", "assert_operators_are_close of ", text(A), " and ", text(B));
    if (ex::seen(ex::mix(ex::hash(text(A)), ex::hash(text(B))), depth - d)) return;
    if (std::distance(A.begin(), A.end()) > 0 && std::abs(C((*A.begin()).coef)) > 1e4) return;
  }
}
JOB_SHARDED(algebra_real, 4) { algebra<double>(ex::tier(3, 4)); }
JOB_SHARDED(algebra_complex, 4) { algebra<cplx>(ex::tier(3, 4)); }
JOB_SHARDED(algebra_mixed, 4) { algebra<real_or_complex>(ex::tier(3, 4)); }
// every product of up to six canonical operators
JOB_SHARDED(words, 4) {
  int len = ex::choose(ex::tier(6, 7));
  op_t<double> A(1.0);
  mat a = unit();
  std::string w;
  for (int i = 0; i < len; ++i) {
    int k = ex::choose(2 * NM);
    A *= ladder<double>(k / 2, k % 2), a = a * jw(k / 2, k % 2);
    w += ex::cat(k / 2, k % 2 ? "+ " : "- ");
    ex::step();
  }
  same<double>(A, a, "product " + w);
  same<double>(dagger(A), dag(a), "dagger-of-product " + w);
  ex::state(ex::hash(text(A)));
}
// cancellation with coefficients of different magnitudes
JOB(cancel) {
  double x = ex::pick({1e-16, 1e-10, 0.1, 1.0, 1e5}), e = ex::pick({0.0, 1e-16, 1e-12});
  op_t<cplx> A, B;
  auto m = ladder<cplx>(ex::choose(NM), true) * ladder<cplx>(ex::choose(NM), false);
  A = x * m, B = (x + e) * m;
  auto d  = A - B;
  bool z0 = A.is_zero();
  ex::check(z0 == (x < 2e-14), "tiny", "coefficient ", x, ": ", text(A));
  ex::check(d.is_zero() == (std::abs((x + e) * !((x + e) < 2e-14) - x * !(x < 2e-14)) < 2e-14), "cancel", x, " minus ", x + e, " gives ", text(d));
  ex::step();
}

// ------------------------------------------------------------------ archives
static std::vector<indices_t> const &pool() {
  static std::vector<indices_t> v = {{0l}, {std::string("up"), 0l}, {-7l, std::string("x y"), 12345l}, {std::string("i5")}, {5000000000l, std::string("")}};
  return v;
}
template <typename O> std::string full(O const &op) {
  std::string s;
  for (auto const &t : op) {
    s += ex::cat("(", C(t.coef) + cplx(0, 0), ")");
    if constexpr (std::is_same_v<typename O::scalar_t, real_or_complex>) s += t.coef.is_real() ? "r" : "z";
    for (auto const &c : t.monomial) s += std::string(c.dagger ? "+" : "-") + "[" + idx_txt(c.indices) + "]";
    s += " ";
  }
  return s;
}
template <typename T> void roundtrip(h5::group g, std::string const &name, many_body_operator const &op, bool want_error, std::string const &key) {
  using O = op_t<T>;
  for (int filled : {0, 1}) {
    O r;
    if (filled) r = O(T(3)) + O::make_canonical(true, {std::string("junk")});
    bool thrown = false;
    try {
      h5_read(g, name, r);
    } catch (triqs::runtime_error const &) { thrown = true; }
    ex::check(thrown == want_error, key + ":error", "reading ", full(op), thrown ? ": an exception" : ": no exception");
    if (!thrown) ex::check(full(r) == full(O(op)), key, "read ", full(r), "instead of ", full(O(op)), filled ? " (into a non-empty operator)" : "");
    ex::step();
  }
}
static monomial_t pick_monomial(int maxlen, int nm) {
  op_t<double> A(1.0);
  int len = ex::choose(maxlen + 1);
  for (int i = 0; i < len; ++i) {
    int k = ex::choose(2 * nm);
    A *= op_t<double>::make_canonical(k % 2, pool()[k / 2]);
  }
  if (A.is_zero() || std::distance(A.begin(), A.end()) != 1) throw ex::prune_t{};
  return (*A.begin()).monomial;
}
JOB_SHARDED(archive, 4) {
  int nm = pool().size();
  many_body_operator op;
  int nt = ex::choose(3);
  if (nt == 2) {
    op += many_body_operator(real_or_complex(cplx(0.5, -2)), pick_monomial(2, nm));
    op += many_body_operator(real_or_complex(-1.5), pick_monomial(2, 3));
  } else if (nt == 1)
    op += many_body_operator(ex::flip() ? real_or_complex(1e-3) : real_or_complex(cplx(0, 2)), pick_monomial(ex::tier(3, 4), nm));
  bool all_real = true;
  for (auto const &t : op) all_real &= t.coef.is_real();
  h5::file f{"op", 'w'};
  h5::group g{f};
  h5_write(g, "op", op);
  roundtrip<real_or_complex>(g, "op", op, false, "read");
  roundtrip<double>(g, "op", op, !all_real, "read-real");
  roundtrip<cplx>(g, "op", op, false, "read-complex");
  // with a given operator set, read back together with the set
  fundamental_operator_set fs;
  for (int i = nm; i-- > 0;) fs.insert_from_indices_t(pool()[i]);
  h5_write(g, "opfs", op, fs);
  for (int filled : {0, 1}) {
    many_body_operator r;
    fundamental_operator_set fs2;
    if (filled) r = c("junk"), fs2.insert("junk");
    h5_read(g, "opfs", r, fs2);
    ex::check(full(r) == full(op), "read-with-set", "read ", full(r), "instead of ", full(op), filled ? " (into a non-empty operator)" : "");
    ex::check(fs2 == fs && fs2.data() == fs.data(), "read-set", "the operator set read back differs");
  }
  // typed writers
  h5_write(g, "z", op_t<cplx>(op));
  roundtrip<cplx>(g, "z", many_body_operator(op_t<cplx>(op)), false, "typed-complex");
  if (all_real) {
    h5_write(g, "d", op_t<double>(op));
    roundtrip<double>(g, "d", op, false, "typed-real");
  }
  ex::state(ex::hash(full(op)));
}
JOB(quartic) {
  // all orders of the four operators of every quartic monomial
  std::vector<int> o{0, 1, 2, 3};
  int p = ex::choose(24);
  while (p--) std::next_permutation(o.begin(), o.end());
  int nd = ex::choose(5);
  many_body_operator op(real_or_complex(1.0));
  for (int i = 0; i < 4; ++i) op *= many_body_operator::make_canonical(i < nd, pool()[o[i]]);
  op += real_or_complex(2.0);
  h5::file f{"op4", 'w'};
  h5::group g{f};
  h5_write(g, "op", op);
  roundtrip<real_or_complex>(g, "op", op, false, "quartic");
}
JOB(too_long) {
  int nm = pool().size();
  int nd = ex::choose(nm + 1);
  many_body_operator op(real_or_complex(1.0));
  for (int i = 0; i < nm; ++i) op *= many_body_operator::make_canonical(i < nd, pool()[i]);
  if (ex::flip()) op += n(0);
  h5::file f{"op5", 'w'};
  h5::group g{f};
  bool thrown = false;
  try {
    h5_write(g, "op", op);
  } catch (triqs::runtime_error const &) { thrown = true; }
  ex::check(thrown, "too-long", "an operator with a monomial of length ", nm, " was written");
  ex::step();
}

// ------------------------------------------------------------------ operator sets
static void check_set(fundamental_operator_set const &f, std::vector<indices_t> const &ref, std::string const &what) {
  std::string k = what.substr(0, what.find(' '));
  ex::check(f.size() == int(ref.size()), k + ":size", what, ": size ", f.size(), " instead of ", ref.size());
  ex::check(f.data() == ref && fundamental_operator_set::data_t(f) == ref, k + ":data", what, ": stored list");
  for (int i = 0; i < int(ref.size()); ++i) ex::check(f.has_indices(ref[i]) && f[ref[i]] == i, k + ":lookup", what, ": position of element ", i, " is ", f.has_indices(ref[i]) ? f[ref[i]] : -1);
  int i = 0;
  for (auto const &x : f) {
    ex::check(i < int(ref.size()) && x.linear_index == i && x.index == ref[i], k + ":iterate", what, ": element ", i, " of the iteration has number ", x.linear_index);
    if (++i > int(ref.size())) break;
  }
  ex::check(i == int(ref.size()), k + ":iterate", what, ": iteration over ", i, " elements");
  i = 0;
  for (auto it = f.cbegin(); it != f.cend(); ++it, ++i) ex::check(it->linear_index == i, k + ":iterate", what, ": constant iteration");
  for (indices_t absent : {indices_t{std::string("none")}, indices_t{}, indices_t{99l, 1l}}) {
    if (std::find(ref.begin(), ref.end(), absent) != ref.end()) continue;
    bool thrown = false;
    try {
      f[absent];
    } catch (triqs::runtime_error const &) { thrown = true; }
    ex::check(thrown && !f.has_indices(absent), k + ":absent", what, ": looking up an absent index");
  }
  // archives
  h5::file fl{"fops", 'w'};
  h5::group g{fl};
  bool nonempty = true;
  for (auto const &x : ref) nonempty &= !x.empty();
  if (nonempty && !ref.empty()) {
    h5::write_attribute(g, "fops", f);
    fundamental_operator_set r;
    r.insert("junk", 3);
    h5::read_attribute(g, "fops", r);
    ex::check(r == f && r.data() == ref, k + ":archive", what, ": the set read back has ", r.size(), " elements or differs");
  }
  ex::step();
}
static std::vector<indices_t> uniq(std::vector<indices_t> const &v) {
  std::vector<indices_t> r;
  for (auto const &x : v)
    if (std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x);
  return r;
}
JOB(set_insert) {
  std::vector<indices_t> ref;
  fundamental_operator_set f;
  check_set(f, ref, "empty");
  int n = ex::tier(4, 5);
  for (int i = 0; i < n; ++i) {
    int k = ex::choose(7);
    if (k == 6) break;
    indices_t x;
    if (k == 0) x = {0l}, f.insert(0);
    if (k == 1) x = {std::string("0")}, f.insert("0");
    if (k == 2) x = {std::string("up"), 1l}, f.insert("up", 1);
    if (k == 3) x = {1l, std::string("up")}, f.insert(1, "up");
    if (k == 4) x = {0l, 0l}, f.insert_from_indices_t({0l, 0l});
    if (k == 5) x = {-3000000000l}, f.insert(-3000000000l);
    ref.push_back(x), ref = uniq(ref);
    check_set(f, ref, "insertion");
    fundamental_operator_set g = f, e;
    ex::check(g == f && !(ref.size() > 0 && e == f), "compare", "comparison of sets");
  }
}
JOB(set_build) {
  int nb = ex::choose(4);
  std::vector<int> sz;
  std::vector<indices_t> ri, rs;
  triqs::gfs::gf_struct_t gs;
  for (int b = 0; b < nb; ++b) {
    sz.push_back(ex::choose(4));
    std::string name = std::array{"up", "dn", "x"}[b];
    gs.emplace_back(name, sz[b]);
    for (long j = 0; j < sz[b]; ++j) ri.push_back({long(b), j}), rs.push_back({name, j});
  }
  check_set(fundamental_operator_set(sz), ri, "sizes");
  check_set(fundamental_operator_set(gs), rs, "structure");
  std::set<std::string> ss;
  std::set<int> si;
  for (int b = 0; b < nb; ++b) ss.insert(std::string("k") + char('c' - b % 2)), si.insert(3 - sz[b]);
  std::vector<indices_t> r1, r2;
  for (auto const &x : ss) r1.push_back({x});
  for (auto const &x : si) r2.push_back({long(x)});
  check_set(fundamental_operator_set(ss), r1, "set-of-strings");
  check_set(fundamental_operator_set(si), r2, "set-of-integers");
}
JOB(set_vector) {
  std::vector<indices_t> v;
  int n = ex::choose(5);
  for (int i = 0; i < n; ++i) v.push_back(pool()[ex::choose(4)]);
  check_set(fundamental_operator_set(v), uniq(v), "vector");
}
