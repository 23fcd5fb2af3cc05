// C28, C32: block Green's functions (order, names, block-wise operations, views, refusals), HDF5 and MPI
#include "gf_common.hpp"
#include "mpi_schedules.hpp"
using names1 = std::vector<std::string>;
using names2 = std::vector<names1>;
using G1     = gf<imfreq, matrix_valued>;
using B1     = block_gf<imfreq, matrix_valued>;
using B2     = block2_gf<imfreq, matrix_valued>;

// ---------------------------------------------------------------- oracle
struct Blocks { // row major
  int arity = 1, n = 0, p = 1;
  names1 n1, n2;
  std::vector<Fun> f;
};
template <typename B> Blocks blocks(B const &b) {
  Blocks r;
  r.arity = B::arity;
  if constexpr (B::arity == 1) {
    r.n = b.size(), r.n1 = b.block_names();
    ex::check(long(b.data().size()) == r.n, "sizes", "size");
    for (int i = 0; i < r.n; ++i) {
      r.f.push_back(content(b[i]));
      ex::check(same(content(b(i)), r.f.back(), 0), "access", "b(i) and b[i]");
    }
  } else {
    r.n = b.size1(), r.p = b.size2();
    ex::check(b.size() == r.n * r.p, "sizes", "size1*size2");
    ex::check(b.block_names().size() == 2, "names", "two lists of names");
    r.n1 = b.block_names()[0], r.n2 = b.block_names()[1];
    for (int i = 0; i < r.n; ++i) {
      ex::check(int(b.data()[i].size()) == r.p, "sizes", "row ", i);
      for (int j = 0; j < r.p; ++j) r.f.push_back(content(b(i, j)));
    }
  }
  return r;
}
static std::string show(Blocks const &b) {
  std::string s = ex::cat(b.n, "x", b.p, " [");
  for (auto &x : b.n1) s += x + " ";
  s += "|";
  for (auto &x : b.n2) s += " " + x;
  s += "]";
  for (auto &x : b.f) s += " " + text(x);
  return s;
}
static bool same(Blocks const &a, Blocks const &b, double tol = 1e-11, bool with_names = true) {
  if (a.arity != b.arity || a.n != b.n || a.p != b.p || a.f.size() != b.f.size()) return false;
  if (with_names && (a.n1 != b.n1 || a.n2 != b.n2)) return false;
  for (size_t i = 0; i < a.f.size(); ++i)
    if (!same(a.f[i], b.f[i], tol)) return false;
  return true;
}
template <typename B> void is(B const &b, Blocks const &want, const char *key, std::string const &what, double tol = 1e-11) {
  ex::step();
  auto got = blocks(b);
  if (!same(got, want, tol)) ex::fail(key, ex::cat(what, ": ", show(got), " instead of ", show(want)));
}
template <typename F> bool refused(F f) { // whatever the exception
  try {
    f();
  } catch (std::exception const &) { return true; }
  return false;
}
static G1 block(int size, int seed, int mesh = 0) {
  G1 g{mesh_of<imfreq>(mesh), {size, size}};
  fill(g, seed);
  return g;
}
// block i of a structure: sizes cycle through 1, 2, 3 with an offset so that neighbours differ
static int size_of(int i, int j, int kind) { return kind == 0 ? 2 : 1 + (i + 2 * j + kind) % 3; }
static names1 names_of(int n, int kind) {
  static const std::vector<names1> all = {{"up", "down", "z", "a"}, {"b_1", "b", "1", "x"}, {"3", "2", "1", "0"}};
  return names1(all[kind].begin(), all[kind].begin() + n);
}
struct Shape {
  int n, p, kind;
};
static std::vector<G1> list_of(int n, int kind, int seed) {
  std::vector<G1> v;
  for (int i = 0; i < n; ++i) v.push_back(block(size_of(i, 0, kind), seed + i));
  return v;
}
static std::vector<std::vector<G1>> table_of(int n, int p, int kind, int seed) {
  std::vector<std::vector<G1>> v(n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < p; ++j) v[i].push_back(block(size_of(i, j, kind), seed + i * p + j));
  return v;
}
template <typename B> B make(Shape s, int seed, int names = 0) {
  if constexpr (B::arity == 1)
    return B{names_of(s.n, names), list_of(s.n, s.kind, seed)};
  else
    return B{names2{names_of(s.n, names), names_of(s.p, (names + 1) % 3)}, table_of(s.n, s.p, s.kind, seed)};
}
static Blocks expected(int arity, Shape s, int seed, int names) {
  Blocks b;
  b.arity = arity, b.n = s.n, b.p = arity == 1 ? 1 : s.p, b.n1 = names_of(s.n, names);
  if (arity == 2) b.n2 = names_of(s.p, (names + 1) % 3);
  for (int i = 0; i < b.n; ++i)
    for (int j = 0; j < b.p; ++j) b.f.push_back(content(block(size_of(i, j, s.kind), seed + i * b.p + j)));
  return b;
}
template <typename B> Shape choose_shape(int max = 3) {
  Shape s;
  s.n    = 1 + ex::choose(max);
  s.p    = B::arity == 1 ? 1 : 1 + ex::choose(max);
  s.kind = ex::choose(3);
  return s;
}
template <typename F> Blocks each(Blocks b, F f) {
  for (auto &x : b.f) x = each(x, f);
  return b;
}
template <typename F> Blocks zip(Blocks a, Blocks const &b, F f) { // names of a
  for (size_t i = 0; i < a.f.size(); ++i) a.f[i] = zip(a.f[i], b.f[i], f);
  return a;
}

// ---------------------------------------------------------------- construction
JOB(construct1) {
  int n = ex::choose(4), kind = ex::choose(3), nm = ex::choose(3);
  auto v  = list_of(n, kind, 1);
  auto nn = names_of(n, nm);
  auto want = expected(1, {n, 1, kind}, 1, nm);
  auto num  = want;
  for (int i = 0; i < n; ++i) num.n1[i] = std::to_string(i);
  is(B1{nn, v}, want, "construct", "names and functions");
  is(make_block_gf(nn, v), want, "construct", "make_block_gf(names, functions)");
  is(B1{v}, num, "construct", "functions only");
  is(make_block_gf(v), num, "construct", "make_block_gf(functions)");
  if (n == 2) is(make_block_gf({v[0], v[1]}), num, "construct", "make_block_gf({a, b})"), is(make_block_gf(nn, {v[0], v[1]}), want, "construct", "make_block_gf(names, {a, b})");
  auto g  = block(2, 5);
  auto cp = num;
  for (auto &f : cp.f) f = content(g);
  is(B1(n, g), cp, "construct", "n copies");
  is(make_block_gf(n, g), cp, "construct", "make_block_gf(n, g)");
  cp.n1 = nn;
  is(B1{nn, g}, cp, "construct", "names and one function");
  is(make_block_gf(nn, g), cp, "construct", "make_block_gf(names, g)");
  { // shape only
    gf_struct_t st;
    std::vector<int> sizes;
    std::vector<long> lsizes;
    for (int i = 0; i < n; ++i) st.emplace_back(nn[i], size_of(i, 0, kind)), sizes.push_back(size_of(i, 0, kind)), lsizes.push_back(sizes.back());
    auto m = mesh_of<imfreq>(0);
    auto zero = each(want, [](Val x) { for (auto &z : x.x) z = 0; return x; });
    auto z = B1{m, st};
    is(z, zero, "construct", "from a structure");
    ex::check(z.block_sizes() == sizes, "block_sizes", "of a structure");
    for (auto const &b : z) ex::check(b.mesh() == m, "construct", "mesh of the blocks");
    zero.n1 = num.n1;
    is(B1{m, sizes}, zero, "construct", "from sizes"), is(B1{m, lsizes}, zero, "construct", "from sizes");
    block_gf<imfreq, scalar_valued> s{m, st};
    ex::check(s.size() == n && s.block_names() == nn, "construct", "scalar blocks from a structure");
    for (auto const &b : s) ex::check(b.mesh() == m && b.data().size() == m.size() && max_element(abs(b.data())) == 0, "construct", "scalar blocks");
    B1 e(n);
    ex::check(e.size() == n && e.block_names() == num.n1, "construct", "number of blocks only");
    B1 e2{nn};
    ex::check(e2.size() == n && e2.block_names() == nn, "construct", "names only");
  }
  for (int k = 0; k < 4; ++k)
    if (k != n) {
      ex::check(refuses([&] { B1 x{names_of(k, nm), v}; }), "refuse", k, " names for ", n, " functions");
      ex::check(refuses([&] { make_block_gf(names_of(k, nm), v); }), "refuse", k, " names for ", n, " functions (factory)");
      std::vector<gf_view<imfreq, matrix_valued>> vv;
      for (auto &x : v) vv.emplace_back(x);
      if (n) ex::check(refuses([&] { make_block_gf_view(names_of(k, nm), vv); }), "refuse", k, " names for ", n, " views");
    }
  { // default, copies, moves
    B1 d, b{nn, v};
    ex::check(d.size() == 0 && d.begin() == d.end(), "construct", "default");
    B1 c{b}, mv{std::move(b)};
    is(c, want, "construct", "copy"), is(mv, want, "construct", "move");
    d = mv;
    is(d, want, "construct", "copy assignment"), is(mv, want, "construct", "source of a copy");
    B1 d2;
    d2 = std::as_const(mv);
    is(d2, want, "construct", "copy assignment");
    B1 d3(2, g);
    d3 = std::move(d2);
    is(d3, want, "construct", "move assignment");
    if (n) {
      c[0].data()() = 77; // copies are independent
      is(mv, want, "construct", "after changing a copy"), is(d, want, "construct", "after changing a copy");
    }
    d = d;
    is(d, want, "construct", "self assignment");
  }
}
JOB(construct2) {
  int n = ex::choose(4), p = 1 + ex::choose(3), kind = ex::choose(3), nm = ex::choose(3);
  auto v    = table_of(n, p, kind, 1);
  auto want = expected(2, {n, p, kind}, 1, nm);
  if (n == 0) want.p = 0;
  auto num  = want;
  num.n1.clear(), num.n2.clear();
  for (int i = 0; i < n; ++i) num.n1.push_back(std::to_string(i));
  for (int i = 0; i < (n ? p : 0); ++i) num.n2.push_back(std::to_string(i));
  names2 nn = {names_of(n, nm), names_of(p, (nm + 1) % 3)};
  is(B2{nn, v}, want, "construct2", "names and functions");
  is(make_block2_gf(nn[0], nn[1], v), want, "construct2", "factory");
  is(B2{v}, num, "construct2", "functions only");
  auto g = block(2, 5);
  if (n) {
    auto cp = num;
    for (auto &f : cp.f) f = content(g);
    is(B2(n, p, g), cp, "construct2", "copies"), is(make_block2_gf(n, p, g), cp, "construct2", "copies (factory)");
  }
  for (int k = 0; k < 4; ++k) {
    if (k != n) ex::check(refuses([&] { B2 x{names2{names_of(k, 0), nn[1]}, v}; }) && refuses([&] { make_block2_gf(names_of(k, 0), nn[1], v); }), "refuse2", k, " names for ", n, " rows");
    if (k != p && n) ex::check(refuses([&] { B2 x{names2{nn[0], names_of(k, 0)}, v}; }) && refuses([&] { make_block2_gf(nn[0], names_of(k, 0), v); }), "refuse2", k, " names for ", p, " columns");
  }
  for (int r = 0; r < n; ++r) // a ragged table
    for (int d : {-1, 1}) {
      auto w = v;
      if (d < 0) w[r].pop_back();
      else w[r].push_back(g);
      ex::check(refuses([&] { B2 x{nn, w}; }), "refuse-ragged", "row ", r, " of ", n, " has ", w[r].size(), " blocks instead of ", p);
      ex::check(refuses([&] { make_block2_gf(nn[0], nn[1], w); }), "refuse-ragged", "factory: row ", r);
      if (n > 1) ex::check(refuses([&] { B2 x{w}; }), "refuse-ragged", "without names: row ", r);
      std::vector<std::vector<gf_view<imfreq, matrix_valued>>> vv(n);
      for (int i = 0; i < n; ++i)
        for (auto &x : w[i]) vv[i].emplace_back(x);
      ex::check(refuses([&] { make_block2_gf_view(nn[0], nn[1], vv); }), "refuse-ragged", "views: row ", r);
      ex::step();
    }
  B2 d, b{nn, v};
  ex::check(d.size() == 0 && d.size1() == 0 && d.size2() == 0 && d.begin() == d.end(), "construct2", "default");
  B2 c{b}, mv{std::move(b)};
  is(c, want, "construct2", "copy"), is(mv, want, "construct2", "move");
  if (n) {
    d = mv;
    is(d, want, "construct2", "copy assignment");
    c(n - 1, p - 1).data()() = 77;
    is(mv, want, "construct2", "after changing a copy"), is(d, want, "construct2", "after changing a copy");
  }
}

// ---------------------------------------------------------------- algebra
// one expression into every kind of destination
template <typename B, typename E> void into(E const &e, Blocks const &want, std::string const &what) {
  { B r{e}; is(r, want, "construct-from", what); }
  {
    B r;
    r = e;
    is(r, want, "assign", what + " to an empty function");
  }
  {
    B r = make<B>({want.n == 2 ? 3 : 2, want.p == 2 ? 1 : 2, 2}, 9, 2);
    r = e;
    is(r, want, "assign", what + " to a function of another structure");
  }
  { // to a view: the data go to the viewed function, which keeps its own names
    Shape s{want.n, want.p, 0};
    B r = make<B>(s, 9, 2);
    if constexpr (B::arity == 1)
      for (int i = 0; i < r.size(); ++i) r[i] = block(want.f[i][0].n, 9);
    else
      for (int i = 0; i < r.size1(); ++i)
        for (int j = 0; j < r.size2(); ++j) r(i, j) = block(want.f[i * r.size2() + j][0].n, 9);
    auto w = want;
    auto o = blocks(r);
    w.n1 = o.n1, w.n2 = o.n2;
    typename B::view_type v = r;
    v = e;
    is(r, w, "assign-view", what);
  }
  for (int d1 : {-1, 0, 1})
    for (int d2 : {-1, 0, 1}) { // views of another structure
      if ((d1 == 0 && d2 == 0) || want.n + d1 < 1 || (B::arity == 1 && d2) || (B::arity == 2 && want.p + d2 < 1)) continue;
      B r = make<B>({want.n + d1, want.p + d2, 0}, 9, 2);
      auto before = blocks(r);
      typename B::view_type v = r;
      ex::check(refuses([&] { v = e; }), "refuse-view", what, " of ", want.n, "x", want.p, " to a view of ", want.n + d1, "x", want.p + d2);
      is(r, before, "refuse-view", what + ": after the refusal", 0);
    }
  if (B::arity == 2 && want.n != want.p) { // transposed structure: same total size
    B r = make<B>({want.p, want.n, 0}, 9, 2);
    typename B::view_type v = r;
    ex::check(refuses([&] { v = e; }), "refuse-view", what, ": to a view of ", want.p, "x", want.n);
  }
}
template <typename B> void algebra() {
  auto s = choose_shape<B>();
  B a = make<B>(s, 1, 0), b = make<B>(s, 5, 1);
  typename B::view_type va = a;
  typename B::const_view_type ca = a;
  auto A = expected(B::arity, s, 1, 0), C = expected(B::arity, s, 5, 1);
  auto op = [](int k) { return [k](Val const &x, Val const &y) { return op2(k, x, y); }; };
  auto sc = [](cplx z) { return [z](Val const &x) { return scale(x, z); }; };
  cplx z{0.5, 2};
  switch (ex::choose(10)) {
    case 0: into<B>(a + b, zip(A, C, op(0)), "a+b"), into<B>(va + b, zip(A, C, op(0)), "view+b"), into<B>(ca + va, zip(A, A, op(0)), "const view+view"); break;
    case 1: into<B>(a - b, zip(A, C, op(1)), "a-b"), into<B>(b - ca, zip(C, A, op(1)), "b-const view"), into<B>(a - a, zip(A, A, op(1)), "a-a"); break;
    case 2: into<B>(a * b, zip(A, C, op(2)), "a*b"), into<B>(b * va, zip(C, A, op(2)), "b*view"); break;
    case 3: into<B>(a / b, zip(A, C, op(3)), "a/b"); break;
    case 4: into<B>(a * 3.0, each(A, sc(3)), "a*3."), into<B>(2 * a, each(A, sc(2)), "2*a"), into<B>(z * va, each(A, sc(z)), "z*view"), into<B>(ca * z, each(A, sc(z)), "const view*z"); break;
    case 5: into<B>(a / 4.0, each(A, sc(0.25)), "a/4"), into<B>(va / z, each(A, sc(1. / z)), "view/z"); break;
    case 6: into<B>(-a, each(A, sc(-1)), "-a"), into<B>(-va, each(A, sc(-1)), "-view"), into<B>(-(a + b), each(zip(A, C, op(0)), sc(-1)), "-(a+b)"); break;
    case 7:
      into<B>(-a + b, zip(each(A, sc(-1)), C, op(0)), "-a+b"), into<B>(2 * (-a), each(A, sc(-2)), "2*(-a)"), into<B>(-(-a), A, "-(-a)"), into<B>(-a - (-b), zip(each(A, sc(-1)), each(C, sc(-1)), op(1)), "-a-(-b)");
      break;
    case 8:
      into<B>((a + b) * (a - b), zip(zip(A, C, op(0)), zip(A, C, op(1)), op(2)), "(a+b)*(a-b)");
      into<B>(2.0 * a + b * a / 2.0, zip(each(A, sc(2)), each(zip(C, A, op(2)), sc(0.5)), op(0)), "2a+ba/2");
      into<B>(a + (b + (a - 2 * b)), zip(each(A, sc(2)), each(C, sc(-1)), op(0)), "a+(b+(a-2b))");
      break;
    case 9: into<B>(a, A, "a"), into<B>(va, A, "view"), into<B>(ca, A, "const view"); break;
  }
  is(a, A, "operand-changed", "a", 0), is(b, C, "operand-changed", "b", 0);
}
template <typename B> void refusals() {
  auto s = choose_shape<B>(), t = choose_shape<B>();
  if (s.n == t.n && s.p == t.p) return;
  B a = make<B>(s, 1, 0), b = make<B>(t, 5, 0);
  auto A = blocks(a), C = blocks(b);
  auto what = ex::cat(s.n, "x", s.p, " and ", t.n, "x", t.p);
  auto no = [&](auto f, const char *w) {
    ex::check(refuses(f), "refuse", w, ": ", what);
    is(a, A, "refuse", std::string(w) + ": a changed", 0), is(b, C, "refuse", std::string(w) + ": b changed", 0);
  };
  no([&] { B r{a + b}; }, "a+b");
  no([&] { B r{a() - b}; }, "a-b");
  no([&] { B r{a * b()}; }, "a*b");
  no([&] { B r{a / b}; }, "a/b");
  no([&] { a += b; }, "a+=b");
  no([&] { a() -= b; }, "view-=b");
  no([&] { a *= b; }, "a*=b");
  no([&] { a /= b; }, "a/=b");
  no([&] { a() = b(); }, "view=view");
  no([&] { a() = b; }, "view=b");
  no([&] { a() = 2 * b; }, "view=2b");
  no([&] { a() = -b; }, "view=-b");
  no([&] { B r{(-a) + b}; }, "-a+b");
  no([&] { B r{2 * a + (b + b)}; }, "2a+(b+b)");
}
JOB(refusals1) { refusals<B1>(); }
JOB(refusals2) { refusals<B2>(); }
JOB(algebra1) { algebra<B1>(); }
JOB_SHARDED(algebra2, 3) { algebra<B2>(); }

// ---------------------------------------------------------------- histories of in-place operations, views and rebindings
template <typename B> void histories() {
  using V = typename B::view_type;
  using CV = typename B::const_view_type;
  Shape s = B::arity == 1 ? ex::pick(std::vector<Shape>{{2, 1, 1}, {1, 1, 0}, {3, 1, 2}}) : ex::pick(std::vector<Shape>{{2, 1, 1}, {1, 2, 0}, {2, 2, 2}});
  B a = make<B>(s, 1, 0), b = make<B>(s, 5, 1);
  a.name = "A", b.name = "B";
  V v{a};
  CV c{a};
  Blocks m[2] = {blocks(a), blocks(b)}; // the model: the two functions
  int vt = 0, ct = 0;                   // which one v and c look at
  auto op = [](int k) { return [k](Val const &x, Val const &y) { return op2(k, x, y); }; };
  auto sc = [](cplx z) { return [z](Val const &x) { return scale(x, z); }; };
  auto data = [](Blocks &to, Blocks const &from) { to.f = from.f; };
  int depth = ex::tier(3, 4);
  for (int k = 0; k < depth; ++k) {
    switch (ex::choose(20)) {
      case 0: a += b, data(m[0], zip(m[0], m[1], op(0))); break;
      case 1: a -= v, data(m[0], zip(m[0], m[vt], op(1))); break;
      case 2: v += c, data(m[vt], zip(m[vt], m[ct], op(0))); break;
      case 3: v *= 2.0, data(m[vt], each(m[vt], sc(2))); break;
      case 4: b /= 2.0, data(m[1], each(m[1], sc(0.5))); break;
      case 5: v -= b, data(m[vt], zip(m[vt], m[1], op(1))); break;
      case 6: v.rebind(b), vt = 1; break;
      case 7: v.rebind(a), vt = 0; break;
      case 8: c.rebind(v), ct = vt; break;
      case 9: c.rebind(std::as_const(b)), ct = 1; break;
      case 10: v = b(), data(m[vt], m[1]); break;
      case 11: v = c, data(m[vt], m[ct]); break;
      case 12: v = 3.0, data(m[vt], each(m[vt], [](Val x) { for (int i = 0; i < x.n; ++i) for (int j = 0; j < x.m; ++j) x.x[i * x.m + j] = i == j ? 3 : 0; return x; })); break;
      case 13: v = a - v, data(m[vt], zip(m[0], m[vt], op(1))); break;
      case 14: a() = c + c, data(m[0], each(m[ct], sc(2))); break;
      case 15: { // through one block
        if constexpr (B::arity == 1) v[s.n - 1] *= 5.0;
        else v(s.n - 1, s.p - 1) *= 5.0;
        m[vt].f.back() = each(m[vt].f.back(), sc(5));
        break;
      }
      case 16: { // a view of a view, a const view of a view
        V w{v};
        w *= -1.0;
        data(m[vt], each(m[vt], sc(-1)));
        CV d{w};
        is(d, [&] { auto x = m[vt]; auto y = blocks(v); x.n1 = y.n1, x.n2 = y.n2; return x; }(), "view-of-view", "const view of a view");
        break;
      }
      case 17: for (auto &&x : v) x *= 2.0; data(m[vt], each(m[vt], sc(2))); break;
      case 18: for (auto &x : b) x = 0.5 * x; data(m[1], each(m[1], sc(0.5))); break;
      case 19: { // a regular function from a view is a copy
        B r{v};
        B r2{c};
        r *= 0.0, r2 *= 0.0;
        break;
      }
    }
    auto chk = [&](auto const &g, int t, const char *w) {
      auto got = blocks(g);
      ex::step();
      if (!same(got, m[t], 1e-10, false)) ex::fail("history", ex::cat(w, " after step ", k, ": ", show(got), " instead of ", show(m[t])));
    };
    chk(a, 0, "a"), chk(b, 1, "b"), chk(v, vt, "view"), chk(c, ct, "const view");
  }
  auto fa = blocks(a), fb = blocks(b);
  // the names of the functions do not change by operations through views; the blocks are not reordered
  ex::check(fb.n1 == m[1].n1 && fb.n2 == m[1].n2 && a.name == "A" && b.name == "B", "history-names", "b");
  ex::check(fa.n1 == m[0].n1 && fa.n2 == m[0].n2, "history-names", "a");
}
JOB_SHARDED(histories1, 3) { histories<B1>(); }
JOB_SHARDED(histories2, 3) { histories<B2>(); }

// ---------------------------------------------------------------- views of selected blocks
JOB(selected) {
  auto v  = list_of(4, 1, 1);
  int n = 1 + ex::choose(3);
  std::vector<int> sel;
  for (int i = 0; i < n; ++i) sel.push_back(ex::choose(4));
  std::vector<gf_view<imfreq, matrix_valued>> w;
  std::vector<gf_const_view<imfreq, matrix_valued>> cw;
  Blocks want;
  want.n = n;
  for (int i : sel) w.emplace_back(v[i]), cw.emplace_back(v[i]), want.f.push_back(content(v[i])), want.n1.push_back(std::to_string(want.n1.size()));
  is(make_block_gf_view(w), want, "selected", "make_block_gf_view(views)"), is(make_block_gf_const_view(cw), want, "selected", "make_block_gf_const_view(views)");
  is(make_block_gf_view(std::vector<gf_view<imfreq, matrix_valued>>{w}), want, "selected", "rvalue");
  if (n == 1) is(make_block_gf_view(v[sel[0]]), want, "selected", "one function");
  if (n == 2) is(make_block_gf_view(v[sel[0]], v[sel[1]]), want, "selected", "two functions"), is(make_block_gf_const_view(v[sel[0]], v[sel[1]]), want, "selected", "two functions, constant");
  if (n == 3) is(make_block_gf_view(v[sel[0]], v[sel[1]], v[sel[2]]), want, "selected", "three functions");
  auto nn = names_of(n, 1);
  want.n1 = nn;
  is(make_block_gf_const_view(nn, cw), want, "selected", "names");
  auto bv = make_block_gf_view(nn, w);
  is(bv, want, "selected", "names");
  // written through, once per occurrence, only to the selected ones
  std::vector<Fun> m;
  for (auto &g : v) m.push_back(content(g));
  for (int i = 0; i < n; ++i) bv[i] *= 2.0, m[sel[i]] = each(m[sel[i]], [](Val x) { return scale(x, 2); });
  for (int i = 0; i < 4; ++i) ex::check(same(content(v[i]), m[i]), "selected-write", "function ", i);
  for (int i = 0; i < 4; ++i) v[i].data()() = i;
  for (int i = 0; i < n; ++i) ex::check(bv[i].data()(0, 0, 0) == cplx(sel[i]), "selected-read", "block ", i);
  // a table of selected ones
  std::vector<std::vector<gf_view<imfreq, matrix_valued>>> t = {w, w};
  auto bt = make_block2_gf_view(t);
  ex::check(bt.size1() == 2 && bt.size2() == n, "selected2", "sizes");
  bt(1, n - 1).data()() = 9;
  ex::check(v[sel[n - 1]].data()(0, 0, 0) == cplx(9), "selected2", "write");
  auto bt2 = make_block2_gf_view(names_of(2, 0), nn, t);
  ex::check(bt2.block_names() == names2{names_of(2, 0), nn}, "selected2", "names");
  std::vector<std::vector<gf_const_view<imfreq, matrix_valued>>> ct = {cw, cw, cw};
  auto bc = make_block2_gf_const_view(names_of(3, 0), nn, ct);
  ex::check(bc.size1() == 3 && bc.size2() == n && bc.block_names() == names2{names_of(3, 0), nn}, "selected2", "const");
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < n; ++j) ex::check(same(content(bc(i, j)), content(v[sel[j]])), "selected2", "const blocks");
}

// ---------------------------------------------------------------- maps, loops, evaluation
template <typename B> void maps() {
  auto s = choose_shape<B>();
  B a = make<B>(s, 1, 1);
  typename B::view_type v = a;
  typename B::const_view_type c = a;
  auto A = blocks(a);
  auto sc = [](cplx z) { return [z](Val const &x) { return scale(x, z); }; };
  std::vector<int> seen;
  auto twice = [&](auto const &g) { seen.push_back(int(g.target_shape()[0])); return G1{2 * g}; };
  auto order = [&](const char *w) {
    std::vector<int> e;
    for (auto &f : A.f) e.push_back(f[0].n);
    ex::check(seen == e, "map-order", w);
    seen.clear();
  };
  is(map_block_gf(twice, a), each(A, sc(2)), "map", "function"), order("function");
  is(map_block_gf(twice, std::as_const(a)), each(A, sc(2)), "map", "constant"), order("constant");
  is(map_block_gf(twice, v), each(A, sc(2)), "map", "view"), order("view");
  is(map_block_gf(twice, c), each(A, sc(2)), "map", "const view"), order("const view");
  is(map_block_gf(twice, a()), each(A, sc(2)), "map", "temporary view"), order("temporary view");
  is(triqs::gfs::map(twice, a), each(A, sc(2)), "map", "map"), order("map");
  // numbers
  auto nums = map_block_gf([](auto const &g) { return int(g.target_shape()[0]); }, a);
  if constexpr (B::arity == 1) {
    ex::check(int(nums.size()) == s.n, "map-number", "size");
    for (int i = 0; i < s.n; ++i) ex::check(nums[i] == A.f[i][0].n, "map-number", "block ", i);
  } else {
    ex::check(int(nums.size()) == s.n, "map-number", "size");
    for (int i = 0; i < s.n; ++i)
      for (int j = 0; j < s.p; ++j) ex::check(int(nums[i].size()) == s.p && nums[i][j] == A.f[i * s.p + j][0].n, "map-number", "block ", i, j);
  }
  // views: the result looks at the original
  auto mv = map_block_gf([](auto &&g) { return slice_target(g, nda::range(0, 1), nda::range(0, 1)); }, v);
  auto corner = each(A, [](Val const &x) { return Val{1, 1, {x.x[0]}}; });
  is(mv, corner, "map-view", "corner");
  mv *= 4.0;
  is(a, each(A, [](Val x) { x.x[0] *= 4; return x; }), "map-view", "written through");
  mv *= 0.25;
  is(map_block_gf([](auto const &g) { return slice_target(gf_const_view<imfreq, matrix_valued>(g), nda::range(0, 1), nda::range(0, 1)); }, c), corner, "map-view", "constant");
  is(inverse(a), each(A, inv), "inverse", "function"), is(inverse(v), each(A, inv), "inverse", "view"), is(inverse(std::as_const(a)), each(A, inv), "inverse", "constant");
  // loops
  for (int pass = 0; pass < 4; ++pass) {
    std::vector<Fun> l;
    if (pass == 0) for (auto &g : a) l.push_back(content(g));
    if (pass == 1) for (auto const &g : std::as_const(a)) l.push_back(content(g));
    if (pass == 2) for (auto it = a.cbegin(); it != a.cend() && l.size() < 20; ++it) l.push_back(content(*it));
    if (pass == 3) for (auto it = c.begin(); it != c.end(); it++) l.push_back(content(*it));
    ex::check(l.size() == A.f.size(), "loop", "number of blocks, kind ", pass);
    for (size_t i = 0; i < l.size(); ++i) ex::check(same(l[i], A.f[i], 1e-14), "loop", "block ", i, ", kind ", pass);
  }
  {
    auto it = a.begin();
    auto old = it++;
    ex::check(old == a.begin() && it != a.begin() && &*old == &*a.begin(), "loop", "increment");
    typename B::const_iterator ci = a.begin();
    ex::check(ci == std::as_const(a).begin(), "loop", "conversion");
  }
  // lazy fills
  nda::clef::placeholder<0> w_;
  nda::clef::placeholder<1> i_;
  nda::clef::placeholder<2> j_;
  auto filled = [&](auto f) {
    Blocks r = A;
    for (int i = 0; i < r.n; ++i)
      for (int j = 0; j < r.p; ++j) {
        auto m = mesh_of<imfreq>(0);
        long k = 0;
        for (auto w : m) {
          auto &x = r.f[i * r.p + j][k++];
          for (int u = 0; u < x.n; ++u)
            for (int q = 0; q < x.m; ++q) x.x[u * x.m + q] = u == q ? f(cplx(w.value()), i, j) : 0;
        }
      }
    return r;
  };
  if constexpr (B::arity == 1) {
    a(i_)[w_] << i_ + 1 / (w_ + 2), is(a, filled([](cplx w, int i, int) { return double(i) + 1. / (w + 2.); }), "lazy", "a(i)[w]");
    a[i_][w_] << i_ * 2 - 1 / (w_ + 2), is(a, filled([](cplx w, int i, int) { return double(2 * i) - 1. / (w + 2.); }), "lazy", "a[i][w]");
    auto v2 = a();
    v2(i_)(w_) << 1 / (w_ + i_ + 2), is(a, filled([](cplx w, int i, int) { return 1. / (w + 2. + double(i)); }), "lazy", "view(i)(w)");
    B o = a;
    a(i_)(w_) << o(i_)(w_) * 3, is(a, filled([](cplx w, int i, int) { return 3. / (w + 2. + double(i)); }), "lazy", "other(i)(w)");
  } else {
    a(i_, j_)[w_] << i_ - 2 * j_ + 1 / (w_ + 2), is(a, filled([](cplx w, int i, int j) { return double(i - 2 * j) + 1. / (w + 2.); }), "lazy", "a(i,j)[w]");
    auto v2 = a();
    v2(i_, j_)(w_) << 1 / (w_ + i_ + 3 * j_ + 2), is(a, filled([](cplx w, int i, int j) { return 1. / (w + 2. + double(i + 3 * j)); }), "lazy", "view(i,j)(w)");
    B o = a;
    a(i_, j_)(w_) << o(i_, j_)(w_) * 3, is(a, filled([](cplx w, int i, int j) { return 3. / (w + 2. + double(i + 3 * j)); }), "lazy", "other(i,j)(w)");
  }
}
JOB(maps1) { maps<B1>(); }
JOB(maps2) { maps<B2>(); }
JOB(transforms) { // whatever is done block by block by name
  int n = 1 + ex::choose(3), nm = ex::choose(3);
  auto names = names_of(n, nm);
  imtime mt{2.0, Fermion, 361};
  std::vector<gf<imtime, matrix_valued>> l;
  for (int i = 0; i < n; ++i) {
    gf<imtime, matrix_valued> g{mt, {1 + i, 1 + i}};
    for (auto t : mt)
      for (int u = 0; u <= i; ++u) g[t](u, u) = -std::exp(-t.value() * (0.3 + u + 2 * i)) / (1 + std::exp(-2.0 * (0.3 + u + 2 * i)));
    l.push_back(g);
  }
  block_gf<imtime, matrix_valued> b{names, l};
  auto want = [&](auto f) {
    Blocks r;
    r.n = n, r.n1 = names;
    for (auto &g : l) r.f.push_back(content(f(g)));
    return r;
  };
  auto ft = [](auto const &g) { return make_gf_from_fourier(g); };
  is(make_gf_from_fourier(b), want(ft), "fourier", "function"), is(make_gf_from_fourier(std::as_const(b)), want(ft), "fourier", "constant"), is(make_gf_from_fourier(b()), want(ft), "fourier", "view");
  auto w = make_gf_from_fourier(b);
  for (auto &g : w) g.data()() = 0;
  w() = fourier(b);
  is(w, want(ft), "fourier", "assigned to a view");
  auto w2 = w;
  for (auto &g : w2) g.data()() = 0;
  w2() = fourier(b());
  is(w2, want(ft), "fourier", "assigned to a view, of a view");
  for (int k = 1; k < 4; ++k)
    if (k != n) {
      auto x = block_gf<imfreq, matrix_valued>{names_of(k, 0), std::vector<G1>(k, w[0])};
      ex::check(refuses([&] { x() = fourier(b); }), "refuse-fourier", n, " blocks to a view of ", k);
    }
  ex::step();
  auto bl = make_gf_from_fourier(w);
  for (int i = 0; i < n; ++i) ex::check(same(content(bl[i]), content(make_gf_from_fourier(w[i]))), "fourier", "back");
  ex::check(bl.block_names() == names, "fourier", "names");
  block_gf<imfreq, scalar_valued> s{names, gf<imfreq, scalar_valued>{mesh_of<imfreq>(0)}};
  for (int i = 0; i < n; ++i) fill(s[i], i + 1);
  auto r = reinterpret_scalar_valued_gf_as_matrix_valued(s);
  ex::check(r.block_names() == names && r.size() == n, "reinterpret", "names");
  for (int i = 0; i < n; ++i) ex::check(r[i].target_shape() == std::array<long, 2>{1, 1} && r[i].data()(1, 0, 0) == s[i].data()(1), "reinterpret", "block ", i);
}

// ================================================================ C28: HDF5
template <> dlr mesh_of<dlr>(int k) { return k == 0 ? dlr{2.0, Fermion, 1.0, 1e-2} : k == 1 ? dlr{2.0, Fermion, 4.0, 1e-6} : dlr{3.0, Fermion, 1.0, 1e-2}; }
template <> dlr_imfreq mesh_of<dlr_imfreq>(int k) { return k == 0 ? dlr_imfreq{2.0, Fermion, 1.0, 1e-2} : k == 1 ? dlr_imfreq{2.0, Boson, 4.0, 1e-6} : dlr_imfreq{3.0, Fermion, 1.0, 1e-2}; }
template <> cyclat mesh_of<cyclat>(int k) { return k == 0 ? cyclat{square(), 2} : k == 1 ? cyclat{square(), 3} : cyclat{bravais_lattice{{{2, 0}, {0, 1}}}, 2}; }
template <> prod<cyclat, dlr_imfreq> mesh_of<prod<cyclat, dlr_imfreq>>(int k) { return {mesh_of<cyclat>(k), mesh_of<dlr_imfreq>(0)}; }
template <> prod<imtime, imtime, imfreq> mesh_of<prod<imtime, imtime, imfreq>>(int k) { return {mesh_of<imtime>(0), mesh_of<imtime>(k), mesh_of<imfreq>(0)}; }
template <> struct shape_of<tensor_valued<4>> { static std::array<long, 4> get(int n = 2) { return {n, 1, 3, 2}; } };
template <> struct shape_of<tensor_real_valued<3>> { static std::array<long, 3> get(int n = 2) { return {n, 1, 3}; } };
template <typename... G> struct types {};
using all_types = types<gf<imfreq, scalar_valued>, gf<imfreq, matrix_valued>, gf<imfreq, tensor_valued<3>>, gf<imfreq, tensor_valued<4>>, gf<imtime, scalar_valued>, gf<imtime, matrix_valued>, gf<imtime, scalar_real_valued>,
                        gf<imtime, matrix_real_valued>, gf<imtime, tensor_real_valued<3>>, gf<refreq, scalar_valued>, gf<refreq, matrix_valued>, gf<retime, matrix_valued>, gf<legendre, matrix_valued>, gf<legendre, scalar_real_valued>,
                        gf<dlr, matrix_valued>, gf<dlr_imtime, matrix_valued>, gf<dlr_imfreq, matrix_valued>, gf<dlr_imfreq, scalar_valued>, gf<brzone, matrix_valued>, gf<cyclat, scalar_valued>, gf<prod<imfreq, imtime>, matrix_valued>,
                        gf<prod<imfreq, imtime>, scalar_valued>, gf<prod<brzone, refreq>, scalar_valued>, gf<prod<cyclat, dlr_imfreq>, tensor_valued<3>>, gf<prod<imtime, imtime, imfreq>, matrix_valued>>;
template <typename F, typename... G> void at(types<G...>, int k, F f) {
  int i = 0;
  ((i++ == k ? (f.template operator()<G>(), 0) : 0), ...);
}
template <typename... G> constexpr int count(types<G...>) { return sizeof...(G); }
template <typename G> G sample(int mesh, int seed, int size = 2) {
  G g{mesh_of<typename G::mesh_t>(mesh), shape_of<typename G::target_t>::get(size)};
  fill(g, seed);
  return g;
}
template <typename G> void is_gf(G const &g, typename G::mesh_t const &m, Fun const &want, std::string const &what) {
  ex::step();
  ex::check(g.mesh() == m && m == g.mesh(), "gf-mesh", what);
  ex::check(same(content(g), want, 0), "gf-data", what, ": ", text(content(g)), " instead of ", text(want));
}
JOB(h5_gf) {
  int k = ex::choose(count(all_types{})), mesh = ex::choose(3);
  at(all_types{}, k, [&]<typename G> {
    std::string what = ex::cat("type ", k, " mesh ", mesh);
    G g = sample<G>(mesh, 1 + mesh);
    auto want = content(g);
    auto m    = mesh_of<typename G::mesh_t>(mesh);
    h5::file f{"gf", 'w'};
    h5::group gr{f};
    typename G::view_type v       = g;
    typename G::const_view_type c = g;
    int how = ex::choose(4);
    if (how == 0) h5_write(gr, "g", g);
    if (how == 1) h5_write(gr, "g", v);
    if (how == 2) h5_write(gr, "g", c);
    if (how == 3) h5_write(gr, "g", sample<G>((mesh + 1) % 3, 8, 3)), h5_write(gr, "g", g); // overwritten
    is_gf(g, m, want, what + " after writing");
    G r;
    h5_read(gr, "g", r);
    is_gf(r, m, want, what + " read into a default one");
    G s = sample<G>((mesh + 1) % 3, 6, 3);
    h5_read(gr, "g", s);
    is_gf(s, m, want, what + " read into another one");
    if constexpr (requires { h5::h5_read<G>(gr, "g"); }) is_gf(h5::h5_read<G>(gr, "g"), m, want, what + " h5_read<>");
    h5_write(gr, "again", r);
    G t;
    h5_read(gr, "again", t);
    is_gf(t, m, want, what + " second generation");
    ex::check(refused([&] { h5_read(gr, "absent", t); }), "absent", what);
    if constexpr (G::target_rank == 2) { // a part of a function
      auto sl = slice_target(g, nda::range(1, 2), nda::range(0, 1));
      h5_write(gr, "slice", sl);
      G u;
      h5_read(gr, "slice", u);
      is_gf(u, m, content(sl), what + " slice");
    }
  });
}
template <typename A, typename B> constexpr bool same_but_real = std::is_same_v<typename A::mesh_t, typename B::mesh_t> && A::target_rank == B::target_rank;
JOB(h5_refuse) {
  int i = ex::choose(count(all_types{})), j = ex::choose(count(all_types{}));
  at(all_types{}, i, [&]<typename A> {
    at(all_types{}, j, [&]<typename B> {
      if constexpr (std::is_same_v<A, B>) return;
      else {
        if constexpr (same_but_real<A, B> && !std::is_same_v<typename B::scalar_t, double>) return; // real data read as complex ones
        h5::file f{"gf", 'w'};
        h5::group gr{f};
        A a = sample<A>(0, 1, 1);
        h5_write(gr, "g", a);
        B b;
        ex::step();
        ex::check(refused([&] { h5_read(gr, "g", b); }), "type", "type ", i, " read as type ", j);
      }
    });
  });
  if (j == 0) at(all_types{}, i, [&]<typename A> {
      h5::file f{"gf", 'w'};
      h5::group gr{f};
      h5_write(gr, "g", sample<A>(0, 1));
      h5_write(gr, "x", 1.5);
      h5_write(gr, "a", nda::array<cplx, 3>(2, 2, 2));
      h5_write(gr, "m", mesh_of<typename A::mesh_t>(0));
      h5_write(gr, "b", B1{list_of(2, 0, 1)});
      A a;
      B1 b;
      B2 b2;
      for (auto n : {"x", "a", "m", "b"}) ex::check(refused([&] { h5_read(gr, n, a); }), "type", n, " read as type ", i);
      for (auto n : {"g", "x", "a", "m"}) ex::check(refused([&] { h5_read(gr, n, b); }), "type", n, " read as a block function");
      for (auto n : {"g", "b", "a", "m"}) ex::check(refused([&] { h5_read(gr, n, b2); }), "type", n, " read as a block2 function");
      h5_write(gr, "b2", B2{table_of(2, 2, 0, 1)});
      ex::check(refused([&] { h5_read(gr, "b2", b); }) && refused([&] { h5_read(gr, "b2", a); }), "type", "block2 function read as another type");
    });
}
JOB(h5_positive) { // functions of positive frequencies are completed when read
  int n = 1 + ex::choose(3), size = 1 + ex::choose(3);
  auto stat = ex::flip() ? Fermion : Boson;
  imfreq full{2.0, stat, n}, pos{2.0, stat, n, imfreq::option::positive_frequencies_only};
  gf<imfreq, matrix_valued> g{pos, {size, size}};
  fill(g, 1);
  if (stat == Boson) // real function of tau: hermitian at zero, here real
    for (auto &x : g.data()) x = x.real();
  h5::file f{"gf", 'w'};
  h5::group gr{f};
  h5_write(gr, "g", g);
  gf<imfreq, matrix_valued> r;
  h5_read(gr, "g", r);
  ex::check(r.mesh() == full, "positive", "mesh");
  for (auto w : pos) {
    ex::check(max_element(abs(nda::matrix<cplx>(r[w.index()]) - nda::matrix<cplx>(g[w.index()]))) == 0, "positive", "value at ", w.index());
    auto mw = stat == Fermion ? -1 - w.index() : -w.index();
    if (!full.is_index_valid(mw)) continue;
    ex::check(max_element(abs(nda::matrix<cplx>(r[mw]) - nda::matrix<cplx>(conj(g[w.index()])))) == 0, "positive", "value at ", mw);
  }
  ex::step();
}
template <typename B> void h5_block() {
  auto s = choose_shape<B>();
  int nm = ex::choose(3);
  B a = make<B>(s, 1, nm);
  auto A = blocks(a);
  h5::file f{"b", 'w'};
  h5::group gr{f};
  typename B::view_type v       = a;
  typename B::const_view_type c = a;
  switch (ex::choose(4)) {
    case 0: h5_write(gr, "b", a); break;
    case 1: h5_write(gr, "b", v); break;
    case 2: h5_write(gr, "b", c); break;
    case 3: h5_write(gr, "b", make<B>({3, 3, 1}, 7, 2)), h5_write(gr, "b", a); break;
  }
  B r, t = make<B>({s.n == 2 ? 3 : 2, 2, 2}, 9, 2);
  h5_read(gr, "b", r), h5_read(gr, "b", t);
  is(r, A, "h5-block", "default", 0), is(t, A, "h5-block", "another structure", 0), is(a, A, "h5-block", "source", 0);
  for (auto const &g : r) ex::check(g.mesh() == mesh_of<imfreq>(0), "h5-block", "mesh");
  h5_write(gr, "again", r);
  B u;
  h5_read(gr, "again", u);
  is(u, A, "h5-block", "second generation", 0);
}
JOB(h5_block1) { h5_block<B1>(); }
JOB(h5_block2) { h5_block<B2>(); }
JOB(h5_block_types) { // blocks of every type
  int k = ex::choose(count(all_types{})), n = ex::choose(3);
  at(all_types{}, k, [&]<typename G> {
    using B = block_gf<typename G::mesh_t, typename G::target_t>;
    std::vector<G> l;
    for (int i = 0; i < n; ++i) l.push_back(sample<G>(i % 3, 1 + i, 1 + i));
    B b{names_of(n, 1), l};
    h5::file f{"b", 'w'};
    h5::group gr{f};
    h5_write(gr, "b", b);
    B r;
    h5_read(gr, "b", r);
    ex::check(r.size() == n && r.block_names() == names_of(n, 1), "h5-block", "type ", k);
    for (int i = 0; i < n; ++i) is_gf(r[i], mesh_of<typename G::mesh_t>(i % 3), content(l[i]), ex::cat("block of type ", k));
  });
}
JOB(h5_struct) {
  int n = ex::choose(4);
  gf_struct_t s;
  for (int i = 0; i < n; ++i) s.emplace_back(names_of(4, ex::choose(3))[i], ex::choose(4));
  h5::file f{"s", 'w'};
  h5::group gr{f};
  h5::write(gr, "s", s);
  gf_struct_t r = {{"old", 7}};
  h5_read_gf_struct(gr, "s", r);
  ex::step();
  ex::check(r == s, "gf_struct", "round trip of ", n, " blocks");
  std::vector<std::pair<std::string, std::vector<std::variant<int, std::string>>>> old; // the former type
  for (auto &[b, l] : s) {
    old.push_back({b, {}});
    for (int i = 0; i < l; ++i) old.back().second.push_back(i % 2 ? std::variant<int, std::string>{std::to_string(i)} : std::variant<int, std::string>{i});
  }
  bool empty_list = false;
  for (auto &[b, l] : s) empty_list = empty_list || l == 0;
  if (empty_list) return; // not written by the former versions
  h5::write(gr, "o", old);
  gf_struct_t r2 = {{"old", 7}};
  h5_read_gf_struct(gr, "o", r2);
  ex::check(r2 == s, "gf_struct", "former type, ", n, " blocks");
}

// ================================================================ C28: MPI
template <typename G> G whole(int mesh, int seed, int size = 2) { // whole numbers: sums are exact in any order
  G g{mesh_of<typename G::mesh_t>(mesh), shape_of<typename G::target_t>::get(size)};
  long i = 100 * seed;
  for (auto &x : g.data()) {
    ++i;
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) x = double((i * 37) % 19 - 9);
    else x = cplx(double((i * 37) % 19 - 9), double((i * 53) % 17 - 8));
  }
  return g;
}
static Fun plus(Fun const &a, Fun const &b) { return zip(a, b, [](Val const &x, Val const &y) { return add(x, y, 1); }); }
JOB_SHARDED(mpi_gf, 25) {
  int k = ex::choose(count(all_types{})), n = 1 + ex::choose(ex::tier(3, 4)), root = ex::choose(n), what = ex::choose(12);
  at(all_types{}, k, [&]<typename G> {
    using V = typename G::view_type;
    std::vector<G> g, r(n);
    for (int q = 0; q < n; ++q) g.push_back(whole<G>(0, 1 + q)), r[q] = whole<G>(what % 4 == 1 || what % 4 == 3 || what > 7 ? 0 : 1, 20 + q, what % 4 == 1 || what % 4 == 3 || what > 7 ? 2 : 3);
    auto m = mesh_of<typename G::mesh_t>(0);
    Fun sum = content(g[0]);
    for (int q = 1; q < n; ++q) sum = plus(sum, content(g[q]));
    std::vector<Fun> before;
    for (auto &x : g) before.push_back(content(x));
    auto rootdata = content(g[root]);
    auto minmax = [&](bool mx) {
      Fun f = before[0];
      for (auto &b : before)
        for (size_t i = 0; i < f.size(); ++i)
          for (size_t j = 0; j < f[i].x.size(); ++j) f[i].x[j] = mx ? std::max(f[i].x[j].real(), b[i].x[j].real()) : std::min(f[i].x[j].real(), b[i].x[j].real());
      return f;
    };
    auto o = ranks(n, [&](int q) {
      mpi::communicator c;
      V v = g[q];
      typename G::const_view_type cv = g[q];
      V w = r[q];
      switch (what) {
        case 0: r[q] = mpi::reduce(g[q], c, root); break;
        case 1: w = mpi::reduce(v, c, root); break;
        case 2: r[q] = mpi::all_reduce(g[q], c); break;
        case 3: w = mpi::all_reduce(cv, c); break;
        case 4: { G x = mpi::reduce(cv, c, root); r[q] = x; break; }
        case 5: { G x = mpi::all_reduce(v, c); r[q] = x; break; }
        case 6: mpi::broadcast(g[q], c, root); break;
        case 7: mpi::broadcast(v, c, root); break;
        case 8: g[q] = mpi::all_reduce(g[q], c), r[q] = g[q]; break; // in place
        case 9: v = mpi::all_reduce(v, c), r[q] = g[q]; break;
        case 10: if constexpr (std::is_same_v<typename G::scalar_t, double>) r[q] = mpi::all_reduce(g[q], c, MPI_MAX); break;
        case 11: if constexpr (std::is_same_v<typename G::scalar_t, double>) w = mpi::reduce(g[q], c, root, false, MPI_MIN); break;
      }
    });
    fine(o);
    ex::count("steps", o.steps);
    std::string t = ex::cat("type ", k, ", ", n, " ranks, root ", root, ", operation ", what);
    bool real = std::is_same_v<typename G::scalar_t, double>;
    for (int q = 0; q < n; ++q) {
      if (what < 6 || what == 10 || what == 11) is_gf(g[q], m, before[q], t + " operand");
      if (((what == 0 || what == 1 || what == 4) && q == root) || what == 2 || what == 3 || what == 5 || what == 8 || what == 9) is_gf(r[q], m, sum, t + ex::cat(" result on rank ", q));
      if (what == 6 || what == 7) is_gf(g[q], m, rootdata, t + ex::cat(" result on rank ", q));
      if (what == 10 && real) is_gf(r[q], m, minmax(true), t + ex::cat(" maximum on rank ", q));
      if (what == 11 && real && q == root) is_gf(r[q], m, minmax(false), t + ex::cat(" minimum on rank ", q));
    }
  });
}
template <typename B> void mpi_block() {
  Shape s = choose_shape<B>(2);
  int n = 1 + ex::choose(ex::tier(3, 4)), root = ex::choose(n), what = ex::choose(9);
  std::vector<B> g, r(n);
  std::vector<Blocks> before;
  auto fillw = [](B &b, int seed) {
    for (auto &x : b) {
      auto w = whole<G1>(0, seed++, int(x.target_shape()[0]));
      x = w;
    }
  };
  for (int q = 0; q < n; ++q) {
    g.push_back(make<B>(s, 1, 0)), fillw(g[q], 10 * q + 1), before.push_back(blocks(g[q]));
    if (what == 1 || what == 3) r[q] = make<B>(s, 1, 0);
    else if (what % 2) r[q] = make<B>({3, 1, 2}, 4, 2);
  }
  Blocks sum = before[0];
  for (int q = 1; q < n; ++q) sum = zip(sum, before[q], [](Val const &x, Val const &y) { return add(x, y, 1); });
  auto o = ranks(n, [&](int q) {
    mpi::communicator c;
    typename B::view_type v = g[q];
    typename B::const_view_type cv = g[q];
    typename B::view_type w = r[q];
    switch (what) {
      case 0: r[q] = mpi::reduce(g[q], c, root); break;
      case 1: w = mpi::reduce(v, c, root); break;
      case 2: r[q] = mpi::all_reduce(g[q], c); break;
      case 3: w = mpi::all_reduce(cv, c); break;
      case 4: if constexpr (B::arity == 1) { B x = mpi::all_reduce(v, c); r[q] = x; } else r[q] = mpi::all_reduce(v, c); break;
      case 5: mpi::broadcast(g[q], c, root); break;
      case 6: mpi::broadcast(v, c, root); break;
      case 7: g[q] = mpi::all_reduce(g[q], c), r[q] = g[q]; break;
      case 8: g[q]() = mpi::all_reduce(g[q], c), r[q] = g[q]; break;
    }
  });
  fine(o);
  std::string t = ex::cat(s.n, "x", s.p, " blocks, ", n, " ranks, root ", root, ", operation ", what);
  for (int q = 0; q < n; ++q) {
    if (what < 5) is(g[q], before[q], "mpi-operand", t, 0);
    if (((what == 0 || what == 1) && q == root) || (what >= 2 && what <= 4) || what >= 7) is(r[q], sum, "mpi-block", t + ex::cat(" result on rank ", q), 0);
    if (what == 5 || what == 6) is(g[q], before[root], "mpi-broadcast", t + ex::cat(" result on rank ", q), 0);
  }
  if (s.n > 1) { // a view of another structure refuses the result
    bool ok = true;
    auto o2 = mpi::sim::run(1, [&](int) {
      B x = make<B>({s.n - 1, s.p, 0}, 4, 2);
      ok = refused([&] { x() = mpi::all_reduce(g[0], mpi::communicator{}); });
    });
    ex::check(ok, "refuse-mpi", t);
  }
}
JOB(mpi_block1) { mpi_block<B1>(); }
JOB_SHARDED(mpi_block2, 2) { mpi_block<B2>(); }
