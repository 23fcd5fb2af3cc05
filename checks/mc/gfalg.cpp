// C27: Green's functions: algebra, assignment, views, slices and fills act point-wise
#include "gf_common.hpp"
// mesh of a product: the statistics of imaginary times combine
template <typename M> M product_mesh(M const &a, M const &) { return a; }
template <> imtime product_mesh(imtime const &a, imtime const &b) { return imtime{a.beta(), a.statistic() == b.statistic() ? Boson : Fermion, a.size()}; }
template <> dlr_imtime product_mesh(dlr_imtime const &a, dlr_imtime const &b) { return dlr_imtime{a.beta(), a.statistic() == b.statistic() ? Boson : Fermion, a.w_max(), a.eps()}; }
template <> prod<imfreq, imtime> product_mesh(prod<imfreq, imtime> const &a, prod<imfreq, imtime> const &b) {
  return {std::get<0>(a), product_mesh(std::get<1>(a), std::get<1>(b))};
}
// mesh (statistics) of operand i
template <typename M> M operand_mesh(int) { return mesh_of<M>(0); }
static bool boson_b;

// ---------------------------------------------------------------- one expression into every kind of destination
template <typename M, typename T, typename E> void assign(E const &e, gf<M, T> &a, M const &m, Fun const &want, std::string const &what) {
  {
    gf<M, T> r{e};
    expect(r, m, want, "construct", what);
  }
  {
    gf<M, T> r{mesh_of<M>(1), shape_of<T>::get(3)};
    fill(r, 7);
    r = e;
    expect(r, m, want, "assign", what + " into a function of another size");
  }
  {
    gf<M, T> r{m, shape_of<T>::get(2)};
    gf_view<M, T> v = r;
    v = e;
    expect(r, m, want, "assign-view", what + " through a view");
  }
  { // element access and evaluation of the lazy expression
    long i = 0;
    bool ok = true;
    for (auto w : m) {
      if constexpr (T::rank == 2) {
        auto x = mat(e[w]);
        for (int k = 0; k < 4; ++k) ok = ok && std::abs(x(k / 2, k % 2) - want[i].x[k]) < 1e-11 * (1 + std::abs(want[i].x[k]));
      } else if constexpr (T::rank == 0)
        ok = ok && std::abs(cplx(e[w]) - want[i].x[0]) < 1e-11 * (1 + std::abs(want[i].x[0]));
      ++i;
    }
    ex::check(ok, "expression-element", what, ": e[w]");
  }
  { // another mesh or, for matrices, the destination of a view
    gf<M, T> r{mesh_of<M>(1), shape_of<T>::get(2)};
    gf_view<M, T> v = r;
    fill(r, 8);
    auto before = content(r);
    ex::check(refuses([&] { v = e; }), "assign-view-other-mesh", what, ": accepted by a view of another mesh");
    ex::check(same(content(r), before), "assign-view-other-mesh-kept", what);
  }
  { // aliasing
    auto saved = a;
    a = e;
    expect(a, m, want, "assign-alias", what + " into its own operand");
    a = saved;
  }
}
template <typename M, typename T> struct operands {
  gf<M, T> a, b, c;
  Fun fa, fb, fc;
  operands() : a{mesh_of<M>(0), shape_of<T>::get(2)}, b{a}, c{a} {
    fill(a, 1), fill(b, 2), fill(c, 3);
    fa = content(a), fb = content(b), fc = content(c);
  }
};
template <int O, typename A, typename B> auto apply(A &&a, B &&b) {
  if constexpr (O == 0) return std::forward<A>(a) + std::forward<B>(b);
  else if constexpr (O == 1) return std::forward<A>(a) - std::forward<B>(b);
  else if constexpr (O == 2) return std::forward<A>(a) * std::forward<B>(b);
  else return std::forward<A>(a) / std::forward<B>(b);
}
template <int N, typename F> void dispatch(int i, F f) {
  [&]<int... Is>(std::integer_sequence<int, Is...>) { ((Is == i ? (f.template operator()<Is>(), 0) : 0), ...); }(std::make_integer_sequence<int, N>{});
}
static const char *opn[] = {"+", "-", "*", "/"};
template <typename M, typename T> void single(std::string const &name) {
  constexpr int NOP = T::rank > 2 ? 2 : 4;
  int kind = ex::choose(4), op = ex::choose(NOP);
  operands<M, T> o;
  M m = op >= 2 ? product_mesh(o.a.mesh(), o.b.mesh()) : o.a.mesh();
  auto want = zip(o.fa, o.fb, [&](auto const &x, auto const &y) { return op2(op, x, y); });
  std::string what = name + ": a " + opn[op] + " b";
  dispatch<NOP>(op, [&]<int O>() {
    switch (kind) {
      case 0: assign<M, T>(apply<O>(o.a, o.b), o.a, m, want, what + " (functions)"); break;
      case 1: assign<M, T>(apply<O>(o.a(), o.b()), o.b, m, want, what + " (views)"); break;
      case 2: assign<M, T>(apply<O>(gf_const_view<M, T>{o.a}, o.b), o.a, m, want, what + " (const view, function)"); break;
      case 3: assign<M, T>(apply<O>(gf<M, T>{o.a}, gf<M, T>{o.b}), o.b, m, want, what + " (temporaries)"); break;
    }
  });
  // operands of different meshes or shapes
  gf<M, T> z{mesh_of<M>(1), shape_of<T>::get(2)}, y{mesh_of<M>(2), shape_of<T>::get(2)};
  gf<M, T> r{o.a};
  dispatch<NOP>(op, [&]<int O>() {
    ex::check(refuses([&] { r = apply<O>(o.a, z); }) && same(content(r), o.fa), "mismatch", what, ": a mesh of another size is accepted");
    ex::check(refuses([&] { r = apply<O>(o.a, y); }) && same(content(r), o.fa), "mismatch", what, ": another mesh of the same size is accepted");
    if constexpr (T::rank > 0) {
      gf<M, T> x{mesh_of<M>(0), shape_of<T>::get(3)};
      ex::check(refuses([&] { r = apply<O>(o.a, x); }), "mismatch-shape", what, ": another shape is accepted");
      ex::check(refuses([&] { gf<M, T> q{apply<O>(o.a, x)}; }), "mismatch-shape", what, ": another shape is accepted in a constructor");
    }
  });
}
template <typename M, typename T> void scalars(std::string const &name) {
  int which = ex::choose(10);
  operands<M, T> o;
  auto &a = o.a;
  M m = a.mesh();
  cplx z{1.5, -0.25};
  auto run = [&](auto const &e, auto f, const char *what) { assign<M, T>(e, a, m, each(o.fa, f), name + ": " + what); };
  switch (which) {
    case 0: run(2.5 * a, [](Val v) { return scale(v, 2.5); }, "2.5 * a"); break;
    case 1: run(a * 2.5, [](Val v) { return scale(v, 2.5); }, "a * 2.5"); break;
    case 2: run(a / 4.0, [](Val v) { return scale(v, 0.25); }, "a / 4.0"); break;
    case 3: run(2 * a, [](Val v) { return scale(v, 2); }, "2 * a"); break;
    case 4: run(-a, [](Val v) { return scale(v, -1); }, "-a"); break;
    case 5: run(z * a(), [&](Val v) { return scale(v, z); }, "z * a()"); break;
    case 6: run(gf_const_view<M, T>{a} * z, [&](Val v) { return scale(v, z); }, "a * z"); break;
    case 7: run(a / z, [&](Val v) { return scale(v, 1.0 / z); }, "a / z"); break;
    case 8: run(-(a + o.b), [&, i = 0](Val v) mutable { return scale(add(v, o.fb[i++ % o.fb.size()], 1), -1); }, "-(a + b)"); break;
    case 9:
      if constexpr (T::rank <= 2) run(z / a, [&](Val v) { return scale(inv(v), z); }, "z / a");
      break;
  }
}
template <typename M, typename T> void nested(std::string const &name) {
  int side = ex::choose(2), p = ex::choose(4), q = ex::choose(4);
  operands<M, T> o;
  std::string what = name + (side ? ": a " : ": (a ") + opn[side ? q : p] + (side ? " (b " : " b) ") + opn[side ? p : q] + (side ? " c)" : " c");
  auto pm = [](int op, M const &x, M const &y) { return op >= 2 ? product_mesh(x, y) : x; };
  Fun want;
  M m;
  bool ok = true; // can the meshes be combined (a boson times a fermion, ...)
  M fa = o.a.mesh(), mid = pm(p, fa, fa);
  if (q < 2 && !(mid == fa)) ok = false;
  if (side == 0) {
    want = zip(zip(o.fa, o.fb, [&](auto const &x, auto const &y) { return op2(p, x, y); }), o.fc, [&](auto const &x, auto const &y) { return op2(q, x, y); });
    m = pm(q, mid, fa);
  } else {
    want = zip(o.fa, zip(o.fb, o.fc, [&](auto const &x, auto const &y) { return op2(p, x, y); }), [&](auto const &x, auto const &y) { return op2(q, x, y); });
    m = pm(q, fa, mid);
  }
  dispatch<4>(p, [&]<int P>() {
    dispatch<4>(q, [&]<int Q>() {
      gf<M, T> &dst = o.a;
      auto go = [&](auto const &e) {
        if (ok) assign<M, T>(e, dst, m, want, what);
        else ex::check(refuses([&] { dst = e; }) && same(content(dst), o.fa), "mismatch", what, ": statistics that do not fit are accepted");
      };
      if (side == 0) go(apply<Q>(apply<P>(o.a, o.b), o.c));
      else go(apply<Q>(o.a, apply<P>(o.b, o.c)));
    });
  });
}
template <typename M, typename T> void inplace(std::string const &name) {
  int op = ex::choose(4), rhs = ex::choose(3), dst = ex::choose(2);
  operands<M, T> o;
  cplx z{1.5, -0.25};
  if (rhs == 1 && op < 2) return;
  if (rhs == 2 && op >= 2 && !(product_mesh(o.a.mesh(), o.a.mesh()) == o.a.mesh())) return; // a *= a + b and the like are tested below
  M m = rhs != 1 && op >= 2 ? product_mesh(o.a.mesh(), o.b.mesh()) : o.a.mesh();
  Fun want = rhs == 0 ? zip(o.fa, o.fb, [&](auto const &x, auto const &y) { return op2(op, x, y); }) :
     rhs == 1         ? each(o.fa, [&](Val const &v) { return scale(v, op == 2 ? z : 1.0 / z); }) :
                        zip(o.fa, o.fb, [&](auto const &x, auto const &y) { return op2(op, x, add(x, y, 1)); });
  std::string what = name + ": a " + opn[op] + "= " + (rhs == 0 ? "b" : rhs == 1 ? "z" : "(a + b)") + (dst ? " through a view" : "");
  auto go = [&](auto &g, auto const &x) {
    if constexpr (!nda::is_scalar_v<std::decay_t<decltype(x)>>) {
      if (op == 0) g += x;
      if (op == 1) g -= x;
    }
    if (op == 2) g *= x;
    if (op == 3) g /= x;
  };
  bool refused = false;
  auto with = [&](auto &g) {
    refused = refuses([&] {
      if (rhs == 0) go(g, o.b);
      if (rhs == 1) go(g, z);
      if (rhs == 2) go(g, o.a + o.b);
    });
  };
  if (dst == 0) with(o.a);
  else {
    gf_view<M, T> v = o.a;
    with(v);
    if (!(m == v.mesh())) { // the mesh of a view can not change
      ex::check(refused && same(content(o.a), o.fa), "inplace-view-statistic", what);
      return;
    }
  }
  ex::check(!refused, "inplace-refused", what);
  expect(o.a, m, want, "inplace", what);
}
JOB_SHARDED(expr_single, 18) {
  switch (ex::choose(18)) {
    case 0: return single<imfreq, scalar_valued>("imfreq scalar");
    case 1: return single<imfreq, matrix_valued>("imfreq matrix");
    case 2: return single<imfreq, tensor_valued<3>>("imfreq tensor");
    case 3: return single<imtime, scalar_valued>("imtime scalar");
    case 4: return single<imtime, matrix_valued>("imtime matrix");
    case 5: return single<refreq, matrix_valued>("refreq matrix");
    case 6: return single<retime, scalar_valued>("retime scalar");
    case 7: return single<legendre, matrix_valued>("legendre matrix");
    case 8: return single<dlr_imtime, matrix_valued>("dlr_imtime matrix");
    case 9: return single<brzone, matrix_valued>("brzone matrix");
    case 10: return single<prod<imfreq, imtime>, matrix_valued>("imfreq x imtime matrix");
    case 11: return single<prod<brzone, refreq>, scalar_valued>("brzone x refreq scalar");
    case 12: return scalars<imfreq, matrix_valued>("imfreq matrix");
    case 13: return scalars<imtime, scalar_valued>("imtime scalar");
    case 14: return scalars<imfreq, tensor_valued<3>>("imfreq tensor");
    case 15: return scalars<prod<brzone, refreq>, matrix_valued>("brzone x refreq matrix");
    case 16: return scalars<legendre, matrix_valued>("legendre matrix");
    case 17: return scalars<prod<imfreq, imtime>, scalar_valued>("imfreq x imtime scalar");
  }
}
JOB_SHARDED(expr_nested, 6) {
  switch (ex::choose(6)) {
    case 0: return nested<imfreq, matrix_valued>("imfreq matrix");
    case 1: return nested<imtime, scalar_valued>("imtime scalar");
    case 2: return nested<imtime, matrix_valued>("imtime matrix");
    case 3: return nested<prod<imfreq, imtime>, matrix_valued>("imfreq x imtime matrix");
    case 4: return nested<brzone, scalar_valued>("brzone scalar");
    case 5: return nested<refreq, matrix_valued>("refreq matrix");
  }
}
JOB_SHARDED(expr_inplace, 6) {
  switch (ex::choose(6)) {
    case 0: return inplace<imfreq, matrix_valued>("imfreq matrix");
    case 1: return inplace<imtime, scalar_valued>("imtime scalar");
    case 2: return inplace<imtime, matrix_valued>("imtime matrix");
    case 3: return inplace<prod<imfreq, imtime>, matrix_valued>("imfreq x imtime matrix");
    case 4: return inplace<prod<brzone, refreq>, scalar_valued>("brzone x refreq scalar");
    case 5: return inplace<refreq, matrix_valued>("refreq matrix");
  }
}
// ---------------------------------------------------------------- functions of functions
template <typename M> void functions(std::string const &name, int product) {
  using G = gf<M, matrix_valued>;
  G a{mesh_of<M>(0), {2, 2}};
  fill(a, 1);
  auto fa = content(a);
  gf_view<M, matrix_valued> v = a;
  gf_const_view<M, matrix_valued> c = a;
  auto tr = [](Val const &x) { return Val{x.m, x.n, [&] { std::vector<cplx> r; for (int j = 0; j < x.m; ++j) for (int i = 0; i < x.n; ++i) r.push_back(x.x[i * x.m + j]); return r; }()}; };
  auto map = [](Val x, auto f) { for (auto &z : x.x) z = f(z); return x; };
  auto fcj = each(fa, [&](Val const &x) { return map(x, [](cplx z) { return std::conj(z); }); });
  auto fre = each(fa, [&](Val const &x) { return map(x, [](cplx z) { return cplx(z.real()); }); });
  auto fim = each(fa, [&](Val const &x) { return map(x, [](cplx z) { return cplx(z.imag()); }); });
  auto const &m = a.mesh();
  auto keep = [&](const char *what) { ex::check(same(content(a), fa, 0) && a.mesh() == mesh_of<M>(0), "argument-changed", name, ": ", what); };
  int f = ex::choose(13);
  switch (f) {
    case 0: {
      expect(inverse(a), m, each(fa, inv), "inverse", name), keep("inverse");
      expect(inverse(v), m, each(fa, inv), "inverse", name + " view"), keep("inverse of a view");
      expect(inverse(c), m, each(fa, inv), "inverse", name + " const view"), keep("inverse of a const view");
      expect(inverse(inverse(a)), m, fa, "inverse-twice", name);
      invert_in_place(v);
      expect(a, m, each(fa, inv), "invert_in_place", name);
      G e{mesh_of<M>(0), {1, 1}};
      fill(e, 2);
      expect(inverse(e), m, each(content(e), inv), "inverse", name + " of size one");
      break;
    }
    case 1:
      expect(conj(a), m, fcj, "conj", name), expect(conj(v), m, fcj, "conj", name + " view"), expect(conj(c), m, fcj, "conj", name + " const view");
      expect(conj(conj(a)), m, fa, "conj-twice", name), keep("conj");
      break;
    case 2:
      expect(real(a), m, fre, "real", name), expect(real(v), m, fre, "real", name + " view"), expect(real(c), m, fre, "real", name + " const view");
      expect(imag(a), m, fim, "imag", name), expect(imag(v), m, fim, "imag", name + " view"), expect(imag(c), m, fim, "imag", name + " const view");
      keep("real and imag");
      break;
    case 3:
      if constexpr (!triqs::mesh::is_product<M>) expect(transpose(v), m, each(fa, tr), "transpose", name), keep("transpose");
      break;
    case 4: { // is_gf_real: every position of one imaginary element, of every size around the tolerance
      G r = a;
      for (auto &x : r.data()) x = x.real();
      ex::check(is_gf_real(r) && is_gf_real(r()) && is_gf_real(r, 0.0), "is_gf_real", name, ": a real function");
      long pos = ex::choose(int(r.data().size()));
      double size = std::vector<double>{1, 1e-3, 2e-13, 5e-14, -1, -1e-3, -2e-13, -5e-14}[ex::choose(8)];
      auto it = r.data().begin();
      for (long i = 0; i < pos; ++i) ++it;
      *it += cplx(0, size);
      ex::check(is_gf_real(r) == (std::abs(size) <= 1e-13), "is_gf_real", name, ": one element with imaginary part ", size);
      ex::check(is_gf_real(r, 1e-2) == (std::abs(size) <= 1e-2), "is_gf_real", name, ": one element with imaginary part ", size, ", tolerance 1e-2");
      break;
    }
    case 5: { // slices of the target are views
      G b{mesh_of<M>(0), {3, 3}};
      fill(b, 2);
      auto fb = content(b);
      int i0 = ex::choose(3), i1 = ex::choose(3 - i0) + i0 + 1, j0 = ex::choose(3), j1 = ex::choose(3 - j0) + j0 + 1;
      auto sub = [&](Val const &x) {
        Val r{i1 - i0, j1 - j0, {}};
        for (int i = i0; i < i1; ++i)
          for (int j = j0; j < j1; ++j) r.x.push_back(x.x[i * x.m + j]);
        return r;
      };
      auto s = slice_target(b, nda::range(i0, i1), nda::range(j0, j1));
      static_assert(std::is_same_v<typename decltype(s)::target_t, matrix_valued>);
      expect(s, m, each(fb, sub), "slice_target", name);
      expect(slice_target(std::as_const(b), nda::range(i0, i1), nda::range(j0, j1)), m, each(fb, sub), "slice_target", name + " of a constant");
      auto sv = slice_target(b(), nda::range(i0, i1), nda::range(j0, j1));
      // written through
      sv *= 2;
      auto want = each(fb, [&](Val x) { for (int i = i0; i < i1; ++i) for (int j = j0; j < j1; ++j) x.x[i * x.m + j] *= 2; return x; });
      expect(b, m, want, "slice_target-write", name + ": a slice multiplied by two");
      expect(s, m, each(want, sub), "slice_target-shared", name);
      s = s - s;
      expect(b, m, each(fb, [&](Val x) { for (int i = i0; i < i1; ++i) for (int j = j0; j < j1; ++j) x.x[i * x.m + j] = 0; return x; }), "slice_target-assign", name);
      // scalar slices
      auto z = slice_target_to_scalar(b, i0, j0);
      static_assert(std::is_same_v<typename decltype(z)::target_t, scalar_valued>);
      auto fz = each(content(b), [&](Val const &x) { return Val{1, 1, {x.x[i0 * 3 + j0]}}; });
      expect(z, m, fz, "slice_target_to_scalar", name);
      auto r = reinterpret_scalar_valued_gf_as_matrix_valued(z);
      static_assert(std::is_same_v<typename decltype(r)::target_t, matrix_valued>);
      expect(r, m, fz, "reinterpret", name);
      r *= 3;
      r += r;
      expect(z, m, each(fz, [](Val const &x) { return scale(x, 6); }), "reinterpret-shared", name);
      break;
    }
    case 6: { // matrices on both sides
      int na = ex::choose(3) + 1, nb = ex::choose(3) + 1;
      auto make = [](int n, int k, int seed) {
        mat x(n, k);
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < k; ++j) x(i, j) = cplx(seed + 2 * i - j, i + seed * j - 1);
        return x;
      };
      auto val = [](mat const &x) {
        Val r{int(x.extent(0)), int(x.extent(1)), {}};
        for (int i = 0; i < r.n; ++i)
          for (int j = 0; j < r.m; ++j) r.x.push_back(x(i, j));
        return r;
      };
      if constexpr (!triqs::mesh::is_product<M>) {
        mat L = make(na, 2, 1), R = make(2, nb, 3), S = make(2, 2, 2), T = make(2, 2, 5);
        expect(S * a, m, each(fa, [&](Val const &x) { return mul(val(S), x); }), "matrix-times", name), keep("matrix * g");
        expect(a * S, m, each(fa, [&](Val const &x) { return mul(x, val(S)); }), "times-matrix", name), keep("g * matrix");
        expect(S * a * T, m, each(fa, [&](Val const &x) { return mul(mul(val(S), x), val(T)); }), "matrix-times-matrix", name);
        G d{mesh_of<M>(0), {na, nb}};
        fill(d, 9);
        set_from_L_G_R(d, L, a, R);
        expect(d, m, each(fa, [&](Val const &x) { return mul(mul(val(L), x), val(R)); }), "set_from_L_G_R", name), keep("set_from_L_G_R");
        auto dv = d(), av = a();
        set_from_L_G_R(dv, L, av, R);
        expect(d, m, each(fa, [&](Val const &x) { return mul(mul(val(L), x), val(R)); }), "set_from_L_G_R", name + " views");
      }
      break;
    }
    case 7: { // one variable fixed or kept
      if constexpr (triqs::mesh::is_product<M>) {
        auto const &[m0, m1] = a.mesh();
        long n1 = m1.size(), i = 0;
        for (auto w : m0) {
          auto p = a[w, nda::range::all];
          expect(p, m1, Fun(fa.begin() + i * n1, fa.begin() + (i + 1) * n1), "partial", name + ": first variable fixed");
          auto q = std::as_const(a)[w, nda::range::all];
          expect(q, m1, Fun(fa.begin() + i * n1, fa.begin() + (i + 1) * n1), "partial", name + ": first variable fixed, constant");
          ++i;
        }
        i = 0;
        for (auto t : m1) {
          auto p = a[nda::range::all, t];
          Fun want;
          for (long k = 0; k < long(m0.size()); ++k) want.push_back(fa[k * n1 + i]);
          expect(p, m0, want, "partial", name + ": second variable fixed");
          p *= 3;
          for (long k = 0; k < long(m0.size()); ++k) fa[k * n1 + i] = scale(fa[k * n1 + i], 3);
          expect(a, m, fa, "partial-write", name + ": second variable fixed, multiplied by three");
          p = 2 * p - p;
          expect(a, m, fa, "partial-assign", name);
          ++i;
        }
      }
      break;
    }
    case 8: { // flattening
      if constexpr (!triqs::mesh::is_product<M>) {
        auto f0 = flatten_gf_2d(a);
        static_assert(std::is_same_v<typename decltype(f0)::target_t, tensor_valued<1>>);
        expect(f0, m, each(fa, [](Val x) { x.n = int(x.x.size()), x.m = 1; return x; }), "flatten_gf_2d", name);
        G b{mesh_of<M>(0), {2, 2}};
        unflatten_gf_2d(b, f0);
        expect(b, m, fa, "unflatten_gf_2d", name);
      }
      break;
    }
    case 9: { // copies and moves
      G b = a, d;
      expect(b, m, fa, "copy", name);
      fill(b, 5);
      keep("write in a copy");
      d = b;
      expect(d, m, content(b), "copy-assign", name);
      G e = std::move(d);
      expect(e, m, content(b), "move", name);
      a = std::move(e);
      expect(a, mesh_of<M>(0), content(b), "move-assign", name);
      gf_view<M, matrix_valued> v2 = a; // the others look at the data given away
      gf_const_view<M, matrix_valued> c2 = a;
      G g{v2};
      g *= 2;
      expect(a, mesh_of<M>(0), content(b), "copy-of-view", name + ": changed by the copy");
      G h{c2};
      expect(h, mesh_of<M>(0), content(b), "copy-of-const-view", name);
      break;
    }
    case 10: { // scalar assigned to a view: a multiple of the identity
      v = 2.5;
      expect(a, m, each(fa, [](Val x) { for (int i = 0; i < 4; ++i) x.x[i] = i % 3 == 0 ? 2.5 : 0; return x; }), "assign-scalar", name);
      break;
    }
    case 11: { // make_gf_from_real / comparison / zero functions
      G b{mesh_of<M>(0), {2, 2}};
      expect(b, m, each(fa, [](Val x) { for (auto &z : x.x) z = 0; return x; }), "initial", name + ": a new function is zero");
      auto t = make_const_view(a);
      expect(t, m, fa, "make_const_view", name);
      ex::check(v.target_shape() == std::array<long, 2>{2, 2} && a.data_shape() == a.data().shape(), "target_shape", name);
      break;
    }
    case 12: { // rectangular
      G b{mesh_of<M>(0), {2, 3}}, d{mesh_of<M>(0), {2, 3}}, r;
      fill(b, 2), fill(d, 3);
      auto fb = content(b), fd = content(d);
      r = b + 2 * d;
      expect(r, m, zip(fb, fd, [](Val const &x, Val const &y) { return add(x, y, 2); }), "rectangular", name);
      if constexpr (!triqs::mesh::is_product<M>) expect(transpose(b()), m, each(fb, tr), "transpose", name + " rectangular");
      expect(conj(b), m, each(fb, [&](Val const &x) { return map(x, [](cplx z) { return std::conj(z); }); }), "conj", name + " rectangular");
      break;
    }
  }
}
JOB_SHARDED(functions, 6) {
  switch (ex::choose(6)) {
    case 0: return functions<imfreq>("imfreq", 0);
    case 1: return functions<imtime>("imtime", 0);
    case 2: return functions<legendre>("legendre", 0);
    case 3: return functions<brzone>("brzone", 0);
    case 4: return functions<prod<imfreq, imtime>>("imfreq x imtime", 1);
    case 5: return functions<prod<brzone, refreq>>("brzone x refreq", 1);
  }
}
// ---------------------------------------------------------------- programs: owners, views, slices, constant views
struct World {
  using G = gf<imfreq, matrix_valued>;
  imfreq m{2.0, Fermion, 1};
  G g[2]{G{m, {2, 2}}, G{m, {2, 2}}};
  Fun f[2];
  // what the views look at (-1: invalidated by an assignment of the owner)
  gf_view<imfreq, matrix_valued> v, s;
  gf_const_view<imfreq, matrix_valued> c;
  int bv = 0, bs = 0, bc = 1, row = 0;
  World() {
    fill(g[0], 1), fill(g[1], 2);
    f[0] = content(g[0]), f[1] = content(g[1]);
    v.rebind(g[0]), s.rebind(slice_target(g[0](), nda::range(0, 1), nda::range(0, 2))), c.rebind(gf_const_view<imfreq, matrix_valued>{g[1]});
  }
  void lost(int i) {
    if (bv == i) bv = -1;
    if (bs == i) bs = -1;
    if (bc == i) bc = -1;
  }
  Fun rows(int i, int r) {
    return each(f[i], [&](Val const &x) { return Val{1, 2, {x.x[2 * r], x.x[2 * r + 1]}}; });
  }
  void check(std::string const &trace) {
    ex::step();
    for (int i = 0; i < 2; ++i) expect(g[i], m, f[i], i ? "program-b" : "program-a", trace);
    if (bv >= 0) expect(v, m, f[bv], "program-view", trace);
    if (bc >= 0) expect(c, m, f[bc], "program-const-view", trace);
    if (bs >= 0) expect(s, m, rows(bs, row), "program-slice", trace);
  }
};
JOB_SHARDED(programs, 19) {
  World w;
  cplx z{0.5, 0.25};
  std::string trace;
  int depth = ex::tier(4, 5);
  auto setrow = [&](int i, int r, Fun const &x) {
    for (size_t k = 0; k < x.size(); ++k)
      for (int j = 0; j < 2; ++j) w.f[i][k].x[2 * r + j] = x[k].x[j];
  };
  for (int d = 0; d < depth; ++d) {
    int o = ex::choose(19);
    if (o == 0 && d > 0) return; // end
    auto &a = w.g[0], &b = w.g[1];
    auto &fa = w.f[0], &fb = w.f[1];
    switch (o) {
      case 0: trace += "a = b; ", a = b, fa = fb, w.lost(0); break;
      case 1: trace += "b = a; ", b = a, fb = fa, w.lost(1); break;
      case 2: {
        trace += "swap(a, b) by moves; ";
        auto t = std::move(a);
        a = std::move(b), b = std::move(t);
        std::swap(fa, fb), w.lost(0), w.lost(1);
        break;
      }
      case 3: trace += "v.rebind(a); ", w.v.rebind(a), w.bv = 0; break;
      case 4: trace += "v.rebind(b); ", w.v.rebind(b), w.bv = 1; break;
      case 5:
        if (w.bv < 0) return;
        trace += "v = b; ", w.v = b, w.f[w.bv] = fb;
        break;
      case 6:
        if (w.bv < 0) return;
        trace += "v = 2 * v + a; ", w.v = 2 * w.v + a, w.f[w.bv] = zip(w.f[w.bv], fa, [](Val const &x, Val const &y) { return add(y, x, 2); });
        break;
      case 7:
        if (w.bv < 0) return;
        trace += "v *= z; ", w.v *= z, w.f[w.bv] = each(w.f[w.bv], [&](Val const &x) { return scale(x, z); });
        break;
      case 8:
        if (w.bv < 0) return;
        trace += "a += v; ", a += w.v, fa = zip(fa, w.f[w.bv], [](Val const &x, Val const &y) { return add(x, y, 1); });
        break;
      case 9: {
        trace += "b[first] = matrix; ";
        mat q{{cplx(1, 2), cplx(3, 4)}, {cplx(5, 6), cplx(7, 9)}};
        b[*w.m.begin()] = q;
        fb[0].x = {cplx(1, 2), cplx(3, 4), cplx(5, 6), cplx(7, 9)};
        break;
      }
      case 10:
        if (w.bv < 0) return;
        trace += "v[last](1, 0) = 7; ", w.v[*std::next(w.m.begin())](1, 0) = 7, w.f[w.bv][1].x[2] = 7;
        break;
      case 11:
        if (w.bs < 0) return;
        trace += "s = 3 * s; ", w.s = 3 * w.s, setrow(w.bs, w.row, each(w.rows(w.bs, w.row), [](Val const &x) { return scale(x, 3); }));
        break;
      case 12: trace += "s.rebind(second row of b); ", w.s.rebind(slice_target(b(), nda::range(1, 2), nda::range(0, 2))), w.bs = 1, w.row = 1; break;
      case 13:
        if (w.bs < 0) return;
        trace += "s = first row of b; ", w.s = slice_target(b, nda::range(0, 1), nda::range(0, 2)), setrow(w.bs, w.row, w.rows(1, 0));
        break;
      case 14: trace += "c.rebind(a); ", w.c.rebind(gf_const_view<imfreq, matrix_valued>{a}), w.bc = 0; break;
      case 15:
        if (w.bc < 0) return;
        trace += "b = a * c; ";
        {
          auto fc = w.f[w.bc];
          b = a * w.c, fb = zip(fa, fc, mul);
        }
        break;
      case 16:
        if (w.bv < 0) return;
        trace += "v = 1.5; ", w.v = 1.5, w.f[w.bv] = each(w.f[w.bv], [](Val x) { x.x = {1.5, 0, 0, 1.5}; return x; });
        break;
      case 17:
        if (w.bv < 0) return;
        trace += "v = inverse(v) ; ", w.f[w.bv][0].x = {2, 1, 0, 1}, w.f[w.bv][1].x = {1, 3, 1, 2}, w.v[*w.m.begin()] = mat{{2, 1}, {0, 1}}, w.v[*std::next(w.m.begin())] = mat{{1, 3}, {1, 2}};
        w.v = inverse(w.v), w.f[w.bv] = each(w.f[w.bv], inv);
        break;
      case 18: {
        trace += "x = copy of v and s, both cleared; ";
        if (w.bv < 0 || w.bs < 0) return;
        World::G x{w.v}, y{w.s};
        auto fx = w.f[w.bv], fy = w.rows(w.bs, w.row);
        w.v = 0, w.s *= 0;
        w.f[w.bv] = each(w.f[w.bv], [](Val q) { q.x = {0, 0, 0, 0}; return q; });
        setrow(w.bs, w.row, each(w.rows(w.bs, w.row), [](Val q) { return scale(q, 0); }));
        expect(x, w.m, fx, "program-copy", trace), expect(y, w.m, fy, "program-copy", trace);
        break;
      }
    }
    w.check(trace);
    if (ex::failed()) return;
  }
}
// ---------------------------------------------------------------- fills
template <typename M, typename F> Fun fill_values(M const &m, int n, F f) { // f(value of the point) -> n numbers
  Fun r;
  for (auto w : m) {
    Val v{n, n, {}};
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) v.x.push_back(f(w, i, j));
    r.push_back(v);
  }
  return r;
}
template <typename M> void fill_job(std::string const &name, int k) {
  nda::clef::placeholder<0> w_;
  nda::clef::placeholder<1> i_;
  nda::clef::placeholder<2> j_;
  M m = mesh_of<M>(k);
  using S = gf<M, scalar_valued>;
  using G = gf<M, matrix_valued>;
  auto x = [](auto const &w) { return cplx(w); };
  int e = ex::choose(7), dst = ex::choose(3);
  S s{m}, h{m};
  G g{m, {2, 2}}, hm{m, {2, 2}};
  fill(h, 3), fill(hm, 4), fill(g, 5), fill(s, 6);
  auto fh = content(h);
  auto into = [&](auto &f, auto const &expr) {
    if (dst == 0) f(w_) << expr;
    else if (dst == 1) f[w_] << expr;
    else {
      auto v = f();
      v(w_) << expr;
    }
  };
  std::string what = name + ", expression " + std::to_string(e) + ", destination " + std::to_string(dst);
  switch (e) {
    case 0: into(s, 1 / (w_ + cplx(2.3, 1))), expect(s, m, fill_values(m, 1, [&](auto w, int, int) { return 1.0 / (x(w) + cplx(2.3, 1)); }), "fill", what); break;
    case 1: into(s, w_ * w_ - 3 * w_), expect(s, m, fill_values(m, 1, [&](auto w, int, int) { return x(w) * x(w) - 3.0 * x(w); }), "fill", what); break;
    case 2: {
      into(s, h[w_] * 2.0 - w_);
      long i = 0;
      expect(s, m, fill_values(m, 1, [&](auto w, int, int) { return 2.0 * fh[i++].x[0] - x(w); }), "fill", what);
      break;
    }
    case 3: into(s, w_ + 0.0), expect(s, m, fill_values(m, 1, [&](auto w, int, int) { return x(w); }), "fill", what); break;
    case 4: into(g, 1 / (w_ + cplx(2.3, 1))), expect(g, m, fill_values(m, 2, [&](auto w, int i, int j) { return i == j ? 1.0 / (x(w) + cplx(2.3, 1)) : 0.0; }), "fill", what + ": a multiple of the identity"); break;
    case 5:
      if (dst == 0) g(w_)(i_, j_) << w_ * (i_ + 2.0) + 0.25 * j_;
      else if (dst == 1) g[w_](i_, j_) << w_ * (i_ + 2.0) + 0.25 * j_;
      else {
        auto v = g();
        v[w_](i_, j_) << w_ * (i_ + 2.0) + 0.25 * j_;
      }
      expect(g, m, fill_values(m, 2, [&](auto w, int i, int j) { return x(w) * (i + 2.0) + 0.25 * j; }), "fill-matrix", what);
      break;
    case 6: { // with a matrix function and itself
      auto fg = content(g), fm = content(hm);
      into(g, hm[w_] * g[w_] + hm[w_]);
      expect(g, m, zip(fg, fm, [](Val const &p, Val const &q) { return add(mul(q, p), q, 1); }), "fill-with-itself", what);
      break;
    }
  }
}
JOB_SHARDED(fills, 5) {
  switch (ex::choose(5)) {
    case 0: return fill_job<imfreq>("imfreq", ex::choose(3));
    case 1: return fill_job<imtime>("imtime", ex::choose(3));
    case 2: return fill_job<refreq>("refreq", ex::choose(3));
    case 3: return fill_job<retime>("retime", ex::choose(3));
    case 4: { // two variables
      nda::clef::placeholder<0> w_;
      nda::clef::placeholder<1> k_;
      nda::clef::placeholder<2> t_;
      nda::clef::placeholder<3> i_;
      nda::clef::placeholder<4> j_;
      int k = ex::choose(3), e = ex::choose(6);
      if (e < 3) {
        auto m = mesh_of<prod<brzone, refreq>>(k);
        gf<prod<brzone, refreq>, scalar_valued> g{m};
        gf<brzone, scalar_valued> eps{std::get<0>(m)};
        fill(g, 1), fill(eps, 2);
        Fun want;
        for (auto kk : std::get<0>(m))
          for (auto w : std::get<1>(m)) {
            auto kv = kk.value();
            cplx ek = e == 0 ? std::cos(kv[0]) * std::cos(kv[1]) : e == 1 ? cplx(eps[kk]) : 0.0;
            want.push_back(Val{1, 1, {e == 2 ? cplx(kv[0] - 2 * kv[1]) : 1.0 / (w.value() - ek - cplx(0, 0.5))}});
          }
        if (e == 0) g(k_, w_) << 1 / (w_ - cos(k_[0]) * cos(k_[1]) - cplx(0, 0.5));
        if (e == 1) g[k_, w_] << 1 / (w_ - eps[k_] - cplx(0, 0.5));
        if (e == 2) g(k_, w_) << k_[0] - 2 * k_[1] + 0 * w_;
        expect(g, m, want, "fill-product", ex::cat("brzone x refreq, expression ", e));
      } else {
        auto m = mesh_of<prod<imfreq, imtime>>(k);
        gf<prod<imfreq, imtime>, matrix_valued> g{m, {2, 2}}, h{m, {2, 2}};
        fill(g, 1), fill(h, 2);
        auto fg = content(g), fh = content(h);
        Fun want;
        for (auto w : std::get<0>(m))
          for (auto t : std::get<1>(m)) {
            Val v{2, 2, {}};
            for (int i = 0; i < 2; ++i)
              for (int j = 0; j < 2; ++j) v.x.push_back(e == 3 ? (i == j ? 1.0 / (cplx(w) + double(t)) : 0.0) : cplx(w) * double(i + 1) - double(t) * j);
            want.push_back(v);
          }
        if (e == 3) g(w_, t_) << 1 / (w_ + t_);
        if (e == 4) g[w_, t_](i_, j_) << w_ * (i_ + 1.0) - t_ * j_;
        if (e == 5) g[w_, t_] << h[w_, t_] * g[w_, t_] - h[w_, t_], want = zip(fg, fh, [](Val const &p, Val const &q) { return add(mul(q, p), q, -1); });
        expect(g, m, want, "fill-product", ex::cat("imfreq x imtime, expression ", e));
      }
    }
  }
}
