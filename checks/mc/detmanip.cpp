// C07, C08: det_manip against determinants and inverses computed directly from the arguments in long double
#include "explore.hpp"
#include <triqs/det_manip/det_manip.hpp>
using triqs::det_manip::det_manip;
using cplx = std::complex<double>;
template <typename V> struct table {
  int p = 0;
  int evil = 0; // kind of matrix: generic, or with two nearly proportional rows
  V operator()(int x, long y) const {
    double t = std::cos(3.7 * x * x + 1.3 * x * y + 0.7 * y + p) + (x == y ? 1.5 : 0.0) + 0.25 * ((x * 5 + y * 3) % 7);
    if (evil && x == 1) t = std::cos(1.3 * 2 * y + 3.7 * 4 + 0.7 * y + p) + 0.25 * ((10 + y * 3) % 7) + (y == 2 ? 1.5 : 0.0) + 1e-3 * std::cos(5.0 * y);
    if constexpr (std::is_same_v<V, double>) return t;
    else return V(t, std::sin(1.1 * x - 2.3 * y + p));
  }
};
using lc = std::complex<long double>;
using lm = std::vector<std::vector<lc>>;
static lc ldet(lm a, lm *inv = nullptr) {
  int n  = a.size();
  lc d   = 1;
  lm r(n, std::vector<lc>(n, 0));
  for (int i = 0; i < n; ++i) r[i][i] = 1;
  for (int c = 0; c < n; ++c) {
    int p = c;
    for (int i = c; i < n; ++i)
      if (std::abs(a[i][c]) > std::abs(a[p][c])) p = i;
    if (a[p][c] == lc(0)) return 0;
    if (p != c) std::swap(a[p], a[c]), std::swap(r[p], r[c]), d = -d;
    d *= a[c][c];
    lc f = lc(1) / a[c][c];
    for (int j = 0; j < n; ++j) a[c][j] *= f, r[c][j] *= f;
    for (int i = 0; i < n; ++i)
      if (i != c) {
        lc g = a[i][c];
        if (g == lc(0)) continue;
        for (int j = 0; j < n; ++j) a[i][j] -= g * a[c][j], r[i][j] -= g * r[c][j];
      }
  }
  if (inv) *inv = r;
  return d;
}
template <typename V> struct model {
  table<V> f;
  std::vector<int> X;
  std::vector<long> Y;
  lm mat() const {
    lm m(X.size(), std::vector<lc>(Y.size()));
    for (size_t i = 0; i < X.size(); ++i)
      for (size_t j = 0; j < Y.size(); ++j) m[i][j] = lc(f(X[i], Y[j]));
    return m;
  }
  lc det() const { return ldet(mat()); }
  // a small value not used yet
  int fresh_x(int skip) const { return fresh(X, skip); }
  long fresh_y(int skip) const { return fresh(Y, skip); }
  template <typename T> T fresh(std::vector<T> const &v, int skip) const {
    for (T x = 0;; ++x)
      if (std::find(v.begin(), v.end(), x) == v.end() && skip-- == 0) return x;
  }
};
template <typename V> using dm = det_manip<table<V>>;
static double tol = 1e-9;
static bool close(lc a, lc b, long double scale = 1) { return std::abs(a - b) <= tol * (1 + std::abs(b) + scale); }
template <typename V> void agree(dm<V> &d, model<V> const &m, std::string const &what) {
  int n = m.X.size();
  if (!ex::check(d.size() == n, "size", what, ": size ", d.size(), " instead of ", n)) return;
  bool ok = d.get_x() == m.X && d.get_y() == m.Y;
  for (int i = 0; ok && i < n; ++i) ok = d.get_x(i) == m.X[i] && d.get_y(i) == m.Y[i];
  if (!ex::check(ok, "arguments", what, ": the stored arguments are not those in the current order")) return;
  lm inv, mat = m.mat();
  lc det = ldet(mat, &inv);
  ex::check(close(lc(d.determinant()), det), "determinant", what, ": determinant ", d.determinant(), " instead of ", cplx(det));
  auto M = d.matrix();
  auto I = d.inverse_matrix();
  bool mok = M.extent(0) == n && M.extent(1) == n, iok = I.extent(0) == n && I.extent(1) == n;
  long double sc = 0;
  for (auto &r : inv)
    for (auto &x : r) sc = std::max(sc, std::abs(x));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      mok = mok && lc(M(i, j)) == mat[i][j];
      iok = iok && close(lc(I(i, j)), inv[i][j], sc) && d.inverse_matrix(i, j) == I(i, j);
    }
  ex::check(mok, "matrix", what, ": the matrix is not f(x_i, y_j)");
  ex::check(iok, "inverse", what, ": the inverse matrix is not that of the arguments");
  // internal storage
  auto const &xi = d.get_x_internal_order();
  auto const &yi = d.get_y_internal_order();
  auto II        = d.inverse_matrix_internal_order();
  bool io        = int(xi.size()) == n && int(yi.size()) == n && II.extent(0) == n && II.extent(1) == n;
  for (int i = 0; io && i < n; ++i)
    for (int j = 0; io && j < n; ++j) {
      int a = std::find(m.X.begin(), m.X.end(), xi[i]) - m.X.begin(), b = std::find(m.Y.begin(), m.Y.end(), yi[j]) - m.Y.begin();
      io = a < n && b < n && close(lc(II(j, i)), inv[b][a], sc) && II(j, i) == d.inverse_matrix_internal_order(j, i);
    }
  ex::check(io, "internal", what, ": inverse matrix and arguments in internal order do not belong together");
  int calls = 0;
  bool fo   = true;
  std::set<std::pair<int, long>> seen;
  foreach (d, [&](int x, long y, V z) {
    ++calls;
    int a = std::find(m.X.begin(), m.X.end(), x) - m.X.begin(), b = std::find(m.Y.begin(), m.Y.end(), y) - m.Y.begin();
    fo    = fo && a < n && b < n && seen.insert({x, y}).second && close(lc(z), inv[b][a], sc);
  })
    ;
  ex::check(fo && calls == n * n, "foreach", what, ": foreach does not visit every (x_i, y_j, M_ji) once");
}
template <typename V> uint64_t code(dm<V> &d, int more = 0) {
  uint64_t h = ex::mix(more, d.size());
  for (auto x : d.get_x()) h = ex::mix(h, x);
  for (auto x : d.get_y()) h = ex::mix(h, x);
  for (auto x : d.get_x_internal_order()) h = ex::mix(h, x);
  for (auto x : d.get_y_internal_order()) h = ex::mix(h, x);
  return h;
}
static std::vector<long> subset(int n, int k) {
  std::vector<long> r;
  int first = 0;
  for (int l = 0; l < k; ++l) {
    int c = ex::choose(n - first - (k - l - 1));
    r.push_back(first + c);
    first += c + 1;
  }
  return r;
}
// one try, leaving d pending. Gives the model after completion and the ratio returned; nothing if the try is not possible in the current size
template <typename V> struct tried {
  bool possible = false;
  model<V> next;
  V ratio{};
  std::string name;
};
enum : int { INSERT, REMOVE, COL, ROW, COLROW, INSERTK, REMOVEK, REFILL, NTRY };
template <typename V> tried<V> attempt(dm<V> &d, model<V> const &m, int op, int nmax) {
  tried<V> r;
  r.next  = m;
  auto &X = r.next.X;
  auto &Y = r.next.Y;
  int n   = X.size();
  switch (op) {
    case INSERT: {
      if (n + 1 > nmax) return r;
      int i = ex::choose(n + 1), j = ex::choose(n + 1), x = m.fresh_x(0);
      long y  = m.fresh_y(i % 2);
      r.ratio = d.try_insert(i, j, x, y);
      X.insert(X.begin() + i, x), Y.insert(Y.begin() + j, y);
      r.name = ex::cat("insert(", i, ",", j, ")");
      break;
    }
    case REMOVE: {
      if (n < 1) return r;
      int i = ex::choose(n), j = ex::choose(n);
      r.ratio = d.try_remove(i, j);
      X.erase(X.begin() + i), Y.erase(Y.begin() + j);
      r.name = ex::cat("remove(", i, ",", j, ")");
      break;
    }
    case COL: {
      if (n < 1) return r;
      int j   = ex::choose(n);
      Y[j]    = m.fresh_y(1);
      r.ratio = d.try_change_col(j, Y[j]);
      r.name  = ex::cat("change_col(", j, ")");
      break;
    }
    case ROW: {
      if (n < 1) return r;
      int i   = ex::choose(n);
      X[i]    = m.fresh_x(1);
      r.ratio = d.try_change_row(i, X[i]);
      r.name  = ex::cat("change_row(", i, ")");
      break;
    }
    case COLROW: {
      if (n < 1) return r;
      int i = ex::choose(n), j = ex::choose(n);
      X[i] = m.fresh_x(0), Y[j] = m.fresh_y(0);
      r.ratio = d.try_change_col_row(i, j, X[i], Y[j]);
      r.name  = ex::cat("change_col_row(", i, ",", j, ")");
      break;
    }
    case INSERTK: {
      int k = 1 + ex::choose(4);
      if (n + k > nmax + 1) return r;
      auto i = subset(n + k, k), j = subset(n + k, k);
      std::vector<int> x;
      std::vector<long> y;
      for (int l = 0; l < k; ++l) x.push_back(m.fresh_x(l)), y.push_back(m.fresh_y(l));
      for (int l = 0; l < k; ++l) X.insert(X.begin() + i[l], x[l]), Y.insert(Y.begin() + j[l], y[l]);
      // positions may come in any order
      if (k > 1 && ex::flip()) std::reverse(i.begin(), i.end()), std::reverse(x.begin(), x.end());
      if (k > 2) std::rotate(j.begin(), j.begin() + 1, j.end()), std::rotate(y.begin(), y.begin() + 1, y.end());
      r.ratio = k == 2 ? d.try_insert2(i[0], i[1], j[0], j[1], x[0], x[1], y[0], y[1]) : d.try_insert_k(i, j, x, y);
      r.name  = ex::cat("insert_k of ", k);
      break;
    }
    case REMOVEK: {
      int k = 1 + ex::choose(4);
      if (k > n) return r;
      auto i = subset(n, k), j = subset(n, k);
      for (int l = k - 1; l >= 0; --l) X.erase(X.begin() + i[l]), Y.erase(Y.begin() + j[l]);
      if (k > 1 && ex::flip()) std::reverse(i.begin(), i.end());
      if (k > 2) std::rotate(j.begin(), j.begin() + 1, j.end());
      r.ratio = k == 2 ? d.try_remove2(i[0], i[1], j[0], j[1]) : d.try_remove_k(i, j);
      r.name  = ex::cat("remove_k of ", k);
      break;
    }
    case REFILL: {
      int s = ex::choose(nmax + 1);
      X.clear(), Y.clear();
      for (int l = 0; l < s; ++l) X.push_back((l * 3 + n) % 7), Y.push_back((l * 2 + 1 + n) % 7);
      r.ratio = d.try_refill(X, Y);
      r.name  = ex::cat("refill with ", s);
      break;
    }
  }
  r.possible = true;
  lc want    = r.next.det() / m.det();
  ex::check(close(lc(r.ratio), want), "ratio", r.name, " of a matrix of size ", n, ": the ratio of determinants is ", r.ratio, " instead of ", cplx(want));
  ex::step();
  return r;
}
enum : int { SWAPROW = NTRY, SWAPCOL, ROLL, REGEN, CLEAR, NOP };
template <typename V> bool direct(dm<V> &d, model<V> &m, int op, std::string &name) {
  int n   = m.X.size();
  auto od = m.det();
  switch (op) {
    case SWAPROW: {
      if (n < 2) return false;
      int i = ex::choose(n), j = ex::choose(n);
      d.swap_row(i, j), std::swap(m.X[i], m.X[j]);
      name = ex::cat("swap_row(", i, ",", j, ")");
      break;
    }
    case SWAPCOL: {
      if (n < 2) return false;
      int i = ex::choose(n), j = ex::choose(n);
      d.swap_col(i, j), std::swap(m.Y[i], m.Y[j]);
      name = ex::cat("swap_col(", i, ",", j, ")");
      break;
    }
    case ROLL: {
      using D = dm<V>;
      int k   = ex::choose(5);
      int s   = d.roll_matrix(std::array{D::None, D::Up, D::Down, D::Left, D::Right}[k]);
      if (n) {
        if (k == 1) std::rotate(m.X.begin(), m.X.begin() + 1, m.X.end());
        if (k == 2) std::rotate(m.X.begin(), m.X.end() - 1, m.X.end());
        if (k == 3) std::rotate(m.Y.begin(), m.Y.begin() + 1, m.Y.end());
        if (k == 4) std::rotate(m.Y.begin(), m.Y.end() - 1, m.Y.end());
      }
      name = ex::cat("roll ", k);
      ex::check(close(lc(s) * od, m.det()), "roll-sign", name, " of a matrix of size ", n, " returns ", s);
      break;
    }
    case REGEN: d.regenerate(), name = "regenerate"; break;
    case CLEAR: d.clear(), m.X.clear(), m.Y.clear(), name = "clear"; break;
  }
  ex::step();
  return true;
}
template <typename V> model<V> start(table<V> f, int n) {
  model<V> m{f, {}, {}};
  for (int i = 0; i < n; ++i) m.X.push_back((i * 2 + 1) % 5), m.Y.push_back((i * 3 + 2) % 5);
  return m;
}
// C07: programs of completed operations
template <typename V> void programs(int depth, int nmax, int evil) {
  int first = ex::choose((nmax + 1) * 18), n = nmax - first / 18;
  table<V> f{1, evil};
  auto m = start(f, n);
  dm<V> d = n == 0 ? dm<V>(f, 0) : dm<V>(f, m.X, m.Y);
  d.set_n_operations_before_check(std::array{100, 0, 1}[first % 3]);
  if (evil) d.set_precision_warning(1e-2);
  std::string trail = ex::cat("size ", n);
  // non trivial orders of rows and columns
  first = first % 18 / 3;
  if (n < 2 && first) return;
  if (n > 1) {
    if (first % 2) d.swap_row(0, n - 1), std::swap(m.X[0], m.X[n - 1]), trail += ", first and last row swapped";
    int k = first / 2;
    if (k == 1) d.roll_matrix(dm<V>::Left), std::rotate(m.Y.begin(), m.Y.begin() + 1, m.Y.end()), trail += ", columns rolled";
    if (k == 2) d.swap_col(0, 1), std::swap(m.Y[0], m.Y[1]), trail += ", columns swapped";
  }
  agree(d, m, trail);
  for (int s = 0; s < depth && !ex::failed(); ++s) {
    if (ex::seen(code(d, d.get_n_operations_before_check() < 100), depth - s)) return;
    int op = ex::choose(NOP);
    std::string name;
    if (op < NTRY) {
      auto t = attempt(d, m, op, nmax);
      if (!t.possible) return;
      name = t.name;
      if (std::abs(t.ratio) < 1e-7) d.reject_last_try();
      else d.complete_operation(), m = t.next;
    } else if (!direct(d, m, op, name))
      return;
    trail += ", " + name;
    agree(d, m, trail);
  }
}
JOB_SHARDED(ops_real, 24) { programs<double>(ex::tier(2, 3), 4, 0); }
JOB_SHARDED(ops_cplx, 12) { programs<cplx>(ex::tier(2, 3), 3, 0); }
JOB_SHARDED(ops_small, 6) { programs<double>(ex::tier(3, 4), 2, 0); }
JOB_SHARDED(ops_near_singular, 12) {
  tol = 1e-5;
  programs<double>(2, ex::tier(3, 4), 1);
}
// the composed forms
JOB(composed) {
  table<double> f{2};
  int n  = ex::choose(4);
  auto m = start(f, n);
  dm<double> d(f, 1);
  for (int i = 0; i < n; ++i) {
    auto o = model<double>{f, {m.X.begin(), m.X.begin() + i}, {m.Y.begin(), m.Y.begin() + i}}.det();
    auto r = d.insert_at_end(m.X[i], m.Y[i]);
    auto w = model<double>{f, {m.X.begin(), m.X.begin() + i + 1}, {m.Y.begin(), m.Y.begin() + i + 1}}.det();
    ex::check(close(r, w / o), "ratio", "insert_at_end returns ", r);
  }
  auto old = m.det();
  double r = 1;
  std::string name;
  int i = n ? ex::choose(n) : 0, j = n ? ex::choose(n) : 0;
  switch (ex::choose(10)) {
    case 0: r = d.insert(i, j, 5, 6), m.X.insert(m.X.begin() + i, 5), m.Y.insert(m.Y.begin() + j, 6), name = "insert"; break;
    case 1: r = d.insert2(0, n + 1, 1, 0, 5, 6, 6, 5), m.X.insert(m.X.begin(), 5), m.X.push_back(6), m.Y.insert(m.Y.begin(), {5, 6}), name = "insert2"; break;
    case 2: r = d.insert2_at_end(5, 6, 6, 5), m.X.insert(m.X.end(), {5, 6}), m.Y.insert(m.Y.end(), {6, 5}), name = "insert2_at_end"; break;
    case 3:
      if (n < 1) return;
      r = d.remove(i, j), m.X.erase(m.X.begin() + i), m.Y.erase(m.Y.begin() + j), name = "remove";
      break;
    case 4:
      if (n < 1) return;
      r = d.remove_at_end(), m.X.pop_back(), m.Y.pop_back(), name = "remove_at_end";
      break;
    case 5:
      if (n < 2) return;
      r = d.remove2_at_end(), m.X.resize(n - 2), m.Y.resize(n - 2), name = "remove2_at_end";
      break;
    case 6:
      if (n < 2) return;
      r = d.remove2(1, 0, n - 1, 0), m.X.erase(m.X.begin(), m.X.begin() + 2), m.Y.pop_back(), m.Y.erase(m.Y.begin()), name = "remove2";
      break;
    case 7:
      if (n < 1) return;
      r = d.change_col(j, 6), m.Y[j] = 6, name = "change_col";
      break;
    case 8:
      if (n < 1) return;
      r = d.change_row(i, 6), m.X[i] = 6, name = "change_row";
      break;
    case 9:
      if (n < 1) return;
      r = d.change_one_row_and_one_col(i, j, 5, 6), m.X[i] = 5, m.Y[j] = 6, name = "change_one_row_and_one_col";
      break;
  }
  ex::check(close(r, m.det() / old), "ratio", name, " of a matrix of size ", n, " returns ", r);
  agree(d, m, name);
}
// rows and columns given by functions: the ratio
JOB(from_function) {
  table<cplx> f{3};
  int n  = ex::choose(4);
  auto m = start(f, n);
  dm<cplx> d(f, m.X, m.Y);
  if (n > 1) d.swap_row(0, n - 1), std::swap(m.X[0], m.X[n - 1]);
  int i = ex::choose(n + 1), j = ex::choose(n + 1);
  auto fx = [](int x) { return cplx(0.3 * x, 1); };
  auto fy = [](long y) { return cplx(1, -0.7 * y * y); };
  cplx c(2, 0.5);
  lm a = m.mat();
  for (int k = 0; k < n; ++k) a[k].insert(a[k].begin() + j, lc(fx(m.X[k])));
  std::vector<lc> row;
  for (auto y : m.Y) row.push_back(lc(fy(y)));
  row.insert(row.begin() + j, lc(c));
  a.insert(a.begin() + i, row);
  auto r = d.try_insert_from_function(i, j, fx, fy, c);
  ex::check(close(lc(r), ldet(a) / m.det()), "ratio", "try_insert_from_function(", i, ",", j, ") on size ", n, " returns ", r, " instead of ", cplx(ldet(a) / m.det()));
  d.reject_last_try();
  agree(d, m, "after a rejected try_insert_from_function");
  d.try_insert_from_function(i, j, fx, fy, c);
  d.complete_operation();
  lm inv;
  lc det = ldet(a, &inv);
  bool ok = close(lc(d.determinant()), det);
  for (int k = 0; k <= n; ++k)
    for (int l = 0; l <= n; ++l) ok = ok && close(lc(d.inverse_matrix(k, l)), inv[k][l]);
  ex::check(ok, "from-function", "determinant and inverse after try_insert_from_function(", i, ",", j, ") on size ", n);
}
// growth through several reallocations
JOB(growth) {
  table<double> f{0};
  int init = ex::pick({0, 1, 3}), pi = ex::choose(4), pj = ex::choose(4), k = 1 + ex::choose(3);
  dm<double> d(f, init);
  model<double> m{f, {}, {}};
  auto pos = [](int p, int n) { return p == 0 ? 0 : p == 1 ? n : p == 2 ? n / 2 : (n * 3 + 1) % (n + 1); };
  std::string trail = ex::cat("initial size ", init, ", positions ", pi, pj, ", steps of ", k);
  while (int(m.X.size()) + k <= 9) {
    std::vector<long> i, j;
    std::vector<int> x;
    std::vector<long> y;
    for (int l = 0; l < k; ++l) {
      int n = m.X.size();
      x.push_back(n), y.push_back(n);
      int a = std::min(pos(pi, n), n), b = std::min(pos(pj, n), n);
      for (auto &z : i) z += (z >= a);
      for (auto &z : j) z += (z >= b);
      i.push_back(a), j.push_back(b);
      m.X.insert(m.X.begin() + a, n), m.Y.insert(m.Y.begin() + b, n);
    }
    if (k == 1) d.insert(i[0], j[0], x[0], y[0]);
    else d.try_insert_k(i, j, x, y), d.complete_operation();
    ex::step();
    agree(d, m, trail);
  }
  while (int(m.X.size()) >= k) {
    int n = m.X.size();
    std::vector<long> i, j;
    for (int l = 0; l < k; ++l) i.push_back((l * 2 + pi) % n), j.push_back((l * 2 + pj) % n);
    std::set<long> si(i.begin(), i.end()), sj(j.begin(), j.end());
    if (int(si.size()) < k || int(sj.size()) < k) break;
    for (auto z = si.rbegin(); z != si.rend(); ++z) m.X.erase(m.X.begin() + *z);
    for (auto z = sj.rbegin(); z != sj.rend(); ++z) m.Y.erase(m.Y.begin() + *z);
    if (k == 1) d.remove(i[0], j[0]);
    else d.try_remove_k(i, j), d.complete_operation();
    ex::step();
    agree(d, m, trail + ", shrinking");
  }
}
// C08
template <typename F> bool throws(F &&f) {
  try {
    f();
  } catch (triqs::runtime_error const &) { return true; }
  return false;
}
template <typename V> void event(dm<V> &d, model<V> &m, int nmax, std::string &trail, int kind) {
  int n = m.X.size();
  switch (kind) {
    case 0: { // an abandoned try
      auto t = attempt(d, m, ex::choose(NTRY), nmax);
      if (t.possible) d.reject_last_try();
      trail += ", rejected " + t.name;
      break;
    }
    case 1: { // a try while another one is pending is refused; the first may then be completed or rejected
      if (n < 1) return;
      auto t = attempt(d, m, REMOVE, nmax);
      bool e = throws([&] { d.try_change_col(0, 6); }) && throws([&] { d.try_insert(0, 0, 5, 5); }) && throws([&] { d.try_remove(0, 0); });
      ex::check(e, "pending", "a second try while one is pending is not refused");
      if (ex::flip()) d.reject_last_try();
      else d.complete_operation(), m = t.next;
      trail += ", pending remove";
      break;
    }
    case 2: { // invalid arguments
      using VI = std::vector<long>;
      std::vector<int> xs{5, 6}, x3{5, 6, 7};
      std::vector<long> ys{5, 6}, y3{5, 6, 7};
      int k = ex::choose(20);
      bool e = throws([&] {
        switch (k) {
          case 0: d.try_insert(n + 1, 0, 5, 5); break;
          case 1: d.try_insert(0, n + 1, 5, 5); break;
          case 2: d.try_insert(-1, 0, 5, 5); break;
          case 3: d.try_remove(n, 0); break;
          case 4: d.try_remove(0, n); break;
          case 5: d.try_remove(-1, -1); break;
          case 6: d.try_change_col(n, 5); break;
          case 7: d.try_change_col(-1, 5); break;
          case 8: d.try_change_row(n, 5); break;
          case 9: d.try_change_row(-1, 5); break;
          case 10: d.try_change_col_row(n, 0, 5, 5); break;
          case 11: d.try_change_col_row(0, n, 5, 5); break;
          case 12: d.try_insert_k(VI{0, 0}, VI{0, 1}, xs, ys); break;
          case 13: d.try_insert_k(VI{0, n + 2}, VI{0, 1}, xs, ys); break;
          case 14: d.try_insert_k(VI{0, 1}, VI{-1, 1}, xs, ys); break;
          case 15: d.try_insert_k(VI{0, 1}, VI{0, 1, 2}, xs, ys); break;
          case 16: d.try_remove_k(VI{0, n}, VI{0, 1}); break;
          case 17: d.try_remove_k(VI{0, 0}, VI{0, 1}); break;
          case 18: d.try_refill(xs, y3); break;
          case 19: d.try_insert_k(VI{0, 1, 2}, VI{n, n + 1, n + 3}, x3, y3); break;
        }
      });
      ex::check(e, "invalid", "invalid arguments (case ", k, ", size ", n, ") are not refused");
      trail += ex::cat(", invalid try ", k);
      break;
    }
    case 3: {
      int N = ex::pick({0, n, n + 1, 7, 20}), k = ex::pick({1, 2, 4});
      d.reserve(N, k);
      trail += ex::cat(", reserve(", N, ",", k, ")");
      break;
    }
    case 4: { // a copy: the original continues, after the copy has been modified
      dm<V> c(d);
      auto mc = m;
      agree(c, mc, trail + ", copy");
      c.clear();
      c.insert(0, 0, 6, 6);
      trail += ", copied from";
      break;
    }
    case 5: { // the copy continues after the original has been modified
      auto c = std::make_unique<dm<V>>(d);
      d.clear(), d.insert(0, 0, 6, 6);
      swap(d, *c);
      trail += ", replaced by its copy";
      break;
    }
    case 6: { // move
      dm<V> c(std::move(d));
      d = std::move(c);
      trail += ", moved";
      break;
    }
    case 7: { // swapped with an object of another size with larger blocks reserved and other settings
      table<V> g{5};
      auto o = start(g, 3);
      dm<V> c(g, o.X, o.Y);
      if (ex::flip()) c.reserve(9, 3);
      c.set_singular_threshold(1e-20), c.set_precision_warning(0.5), c.set_precision_error(0.75), c.set_n_operations_before_check(3);
      d.set_singular_threshold(1e-30), d.set_precision_warning(1e-6), d.set_precision_error(1e-4), d.set_n_operations_before_check(17);
      swap(d, c);
      ex::check(d.get_singular_threshold() == 1e-20 && d.get_precision_warning() == 0.5 && d.get_precision_error() == 0.75 && d.get_n_operations_before_check() == 3
                   && c.get_singular_threshold() == 1e-30 && c.get_precision_warning() == 1e-6 && c.get_precision_error() == 1e-4 && c.get_n_operations_before_check() == 17,
                "settings", "swap does not exchange the settings");
      agree(c, m, trail + ", the other after a swap");
      // the other one goes on with blocks
      auto t = attempt(c, m, INSERTK, nmax);
      if (t.possible) {
        c.complete_operation();
        agree(c, t.next, trail + ", the other after a swap and " + t.name);
      }
      m = o;
      trail += ", swapped";
      break;
    }
    case 8: { // HDF5, into an object of another history
      std::string fn = ex::cat("/dev/shm/dm_", getpid(), ".h5");
      int into  = ex::choose(3);
      bool used = into == 2;
      table<V> g = d.get_function();
      dm<V> c(g, into == 1 ? 8 : 0);
      if (used) c.insert2(0, 1, 0, 1, 4, 5, 5, 6), c.swap_row(0, 1);
      d.set_singular_threshold(1e-25), d.set_n_operations_before_check(23);
      {
        h5::file f(fn, 'w');
        h5_write(h5::group(f), "d", d);
        h5_read(h5::group(f), "d", c);
      }
      unlink(fn.c_str());
      ex::check(c.get_singular_threshold() == 1e-25 && c.get_n_operations_before_check() == 23, "settings", "the archive does not keep the settings");
      d.clear();
      swap(d, c);
      trail += ex::cat(", archived", used ? " into a used object" : "");
      break;
    }
    case 9: { // swapped while an operation is pending
      dm<V> c(d.get_function(), 2);
      auto t = attempt(d, m, ex::pick({int(INSERT), int(INSERTK), int(REMOVEK), int(REFILL)}), nmax);
      if (!t.possible) return;
      swap(d, c);
      ex::check(c.size() == n, "pending-swap", "size after a swap with an operation pending");
      swap(c, d);
      dm<V> e(std::move(d));
      e.complete_operation();
      swap(e, d);
      m = t.next;
      trail += ", moved while pending " + t.name;
      break;
    }
    case 10: { // copied while an operation is pending: both can complete or reject
      auto t = attempt(d, m, ex::choose(NTRY), nmax);
      if (!t.possible) return;
      dm<V> c(d);
      d.reject_last_try();
      if (std::abs(t.ratio) > 1e-7) {
        c.complete_operation();
        agree(c, t.next, trail + ", copied while pending " + t.name);
      }
      trail += ", copied from while pending";
      break;
    }
    case 11: // completing nothing
      d.complete_operation();
      d.reject_last_try();
      trail += ", nothing completed";
      break;
  }
  ex::step();
}
template <typename V> void traces(int nmax, int before, int after) {
  int kind = ex::choose(12 * (nmax + 1)), n = kind / 12;
  table<V> f{1};
  auto m  = start(f, n);
  dm<V> d = n == 0 ? dm<V>(f, 1) : dm<V>(f, m.X, m.Y);
  std::string trail = ex::cat("size ", n);
  if (n > 1) d.swap_row(0, n - 1), std::swap(m.X[0], m.X[n - 1]);
  if (n > 2) d.roll_matrix(dm<V>::Left), std::rotate(m.Y.begin(), m.Y.begin() + 1, m.Y.end());
  for (int s = 0; s < before; ++s) {
    int op = ex::pick({-1, int(INSERTK), int(REMOVE)});
    if (op < 0) continue;
    auto t = attempt(d, m, op, nmax);
    if (!t.possible) return;
    d.complete_operation(), m = t.next;
    trail += ", " + t.name;
  }
  event(d, m, nmax, trail, kind % 12);
  agree(d, m, trail);
  for (int s = 0; s < after && !ex::failed(); ++s) {
    int op = ex::choose(NOP);
    std::string name;
    if (op < NTRY) {
      auto t = attempt(d, m, op, nmax);
      if (!t.possible) return;
      name = t.name;
      if (std::abs(t.ratio) < 1e-7) d.reject_last_try();
      else d.complete_operation(), m = t.next;
    } else if (!direct(d, m, op, name))
      return;
    trail += ", " + name;
    agree(d, m, trail);
  }
}
JOB_SHARDED(traces_real, 16) { traces<double>(3, 0, 1); }
JOB_SHARDED(traces_history, 12) { traces<double>(2, 1, 1); }
JOB_SHARDED(traces_cplx, 12) { traces<cplx>(2, 0, ex::tier(1, 2)); }
JOB_SHARDED(traces_two_events, 24) {
  int kind = ex::choose(12 * ex::tier(2, 3)), n = std::array{0, 2, 1}[kind / 12];
  table<double> f{1};
  auto m = start(f, n);
  dm<double> d = n == 0 ? dm<double>(f, 1) : dm<double>(f, m.X, m.Y);
  std::string trail = ex::cat("size ", n);
  event(d, m, 2, trail, kind % 12);
  agree(d, m, trail);
  event(d, m, 2, trail, ex::choose(12));
  agree(d, m, trail);
  auto t = attempt(d, m, ex::pick({int(INSERTK), int(REFILL), int(INSERT)}), 3);
  if (!t.possible) return;
  d.complete_operation();
  agree(d, t.next, trail + ", " + t.name);
}
