// Compile-time lazy expressions (the clef part of nda)
#pragma once
#include <cmath>
#include <complex>
#include <functional>
#include <iostream>
#include <tuple>
#include <type_traits>
#include <utility>

namespace nda::clef {
  template <typename Tag, typename... T> struct expr;
  template <int N, typename T> struct pair {
    T rhs; // T may be a reference
    static constexpr int p = N;
    using value_type = std::decay_t<T>;
  };
  template <typename T> struct is_lazy_impl : std::false_type {};
  template <typename T> constexpr bool is_clef_expression_impl = false;
  template <typename... T> constexpr bool is_any_lazy = (is_lazy_impl<std::remove_cvref_t<T>>::value || ... || false);
  template <typename... T> constexpr bool is_clef_expression = is_any_lazy<T...>;
  template <typename T> constexpr bool is_lazy = is_lazy_impl<std::remove_cvref_t<T>>::value;
  template <typename T> constexpr bool force_copy_in_expr = false;
  template <typename T> concept Lazy = is_lazy<T>;

  namespace tags {
    struct function {};
    struct subscript {};
    struct terminal {};
    struct if_else {};
    struct unaryplus {};
    struct negate {};
    struct loginot {};
    struct plus {};
    struct minus {};
    struct multiplies {};
    struct divides {};
    struct greater {};
    struct less {};
    struct leq {};
    struct geq {};
    struct eq {};
  } // namespace tags

  // storage in an expression: references for lvalues, values for rvalues and lightweight objects
  template <typename T> struct storage {
    using type = T;
  };
  template <typename T> struct storage<T &> {
    using D    = std::remove_const_t<T>;
    using type = std::conditional_t<is_lazy<D> || force_copy_in_expr<D> || std::is_arithmetic_v<D>, D, std::reference_wrapper<T>>;
  };
  template <typename T> using storage_t = typename storage<T>::type;

  template <int N> struct placeholder {
    static_assert(N >= 0 && N < 64);
    static constexpr int index = N;
    template <typename RHS> pair<N, RHS> operator=(RHS &&rhs) const { return {std::forward<RHS>(rhs)}; }
    template <typename... T> auto operator()(T &&...x) const { return expr<tags::function, placeholder, storage_t<T>...>{tags::function{}, *this, std::forward<T>(x)...}; }
    template <typename T> auto operator[](T &&x) const { return expr<tags::subscript, placeholder, storage_t<T>>{tags::subscript{}, *this, std::forward<T>(x)}; }
  };
  template <int N> struct is_lazy_impl<placeholder<N>> : std::true_type {};

  template <typename Tag, typename... T> struct expr {
    std::tuple<T...> childs;
    using childs_t = std::tuple<T...>;
    expr(expr const &) = default;
    expr(expr &&)      = default;
    template <typename... Args> explicit expr(Tag, Args &&...a) : childs(std::forward<Args>(a)...) {}
    expr &operator=(expr const &) = delete;
    template <typename... Args> auto operator()(Args &&...a) const { return expr<tags::function, expr, storage_t<Args>...>{tags::function{}, *this, std::forward<Args>(a)...}; }
    template <typename A> auto operator[](A &&a) const { return expr<tags::subscript, expr, storage_t<A>>{tags::subscript{}, *this, std::forward<A>(a)}; }
  };
  template <typename Tag, typename... T> struct is_lazy_impl<expr<Tag, T...>> : std::true_type {};

  // ---- operations
  template <typename Tag> struct operation;
  template <typename T> decltype(auto) unref(T &&x) { return std::forward<T>(x); }
  template <typename T> T &unref(std::reference_wrapper<T> x) { return x.get(); }
#define CLEF_STANDIN_BIN(TAG, OP)                                                                                                                    \
  template <> struct operation<tags::TAG> {                                                                                                          \
    template <typename L, typename R> decltype(auto) operator()(L &&l, R &&r) const { return std::forward<L>(l) OP std::forward<R>(r); }             \
  };                                                                                                                                                 \
  template <typename L, typename R> requires(is_any_lazy<L, R>) auto operator OP(L &&l, R &&r) {                                                     \
    return expr<tags::TAG, storage_t<L>, storage_t<R>>{tags::TAG{}, std::forward<L>(l), std::forward<R>(r)};                                         \
  }
  CLEF_STANDIN_BIN(plus, +)
  CLEF_STANDIN_BIN(minus, -)
  CLEF_STANDIN_BIN(multiplies, *)
  CLEF_STANDIN_BIN(divides, /)
  CLEF_STANDIN_BIN(greater, >)
  CLEF_STANDIN_BIN(less, <)
  CLEF_STANDIN_BIN(leq, <=)
  CLEF_STANDIN_BIN(geq, >=)
  CLEF_STANDIN_BIN(eq, ==)
#define CLEF_STANDIN_UN(TAG, OP)                                                                                                                     \
  template <> struct operation<tags::TAG> {                                                                                                          \
    template <typename L> decltype(auto) operator()(L &&l) const { return OP std::forward<L>(l); }                                                   \
  };                                                                                                                                                 \
  template <typename L> requires(is_any_lazy<L>) auto operator OP(L &&l) { return expr<tags::TAG, storage_t<L>>{tags::TAG{}, std::forward<L>(l)}; }
  CLEF_STANDIN_UN(unaryplus, +)
  CLEF_STANDIN_UN(negate, -)
  CLEF_STANDIN_UN(loginot, !)
  template <> struct operation<tags::function> {
    template <typename F, typename... A> decltype(auto) operator()(F &&f, A &&...a) const { return std::forward<F>(f)(std::forward<A>(a)...); }
  };
  template <> struct operation<tags::subscript> {
    template <typename F, typename... A> decltype(auto) operator()(F &&f, A &&...a) const {
      if constexpr (requires { f.operator[](std::forward<A>(a)...); })
        return f.operator[](std::forward<A>(a)...);
      else
        return (f[a], ...);
    }
  };
  template <> struct operation<tags::terminal> {
    template <typename L> L operator()(L &&l) const { return std::forward<L>(l); }
  };
  template <> struct operation<tags::if_else> {
    template <typename C, typename A, typename B> auto operator()(C const &c, A const &a, B const &b) const -> std::common_type_t<std::decay_t<A>, std::decay_t<B>> {
      if (c) return a;
      return b;
    }
  };
  template <typename C, typename A, typename B> auto if_else(C &&c, A &&a, B &&b) {
    return expr<tags::if_else, storage_t<C>, storage_t<A>, storage_t<B>>{tags::if_else{}, std::forward<C>(c), std::forward<A>(a), std::forward<B>(b)};
  }

  template <typename Obj, typename... Args> auto make_expr_call(Obj &&obj, Args &&...args) {
    return expr<tags::function, storage_t<Obj>, storage_t<Args>...>{tags::function{}, std::forward<Obj>(obj), std::forward<Args>(args)...};
  }
  template <typename Obj, typename... Args> auto make_expr_subscript(Obj &&obj, Args &&...args) {
    return expr<tags::subscript, storage_t<Obj>, storage_t<Args>...>{tags::subscript{}, std::forward<Obj>(obj), std::forward<Args>(args)...};
  }
  template <typename T> auto make_expr(T &&x) { return expr<tags::terminal, storage_t<T>>{tags::terminal{}, std::forward<T>(x)}; }
  template <typename Tag, typename... T> auto make_expr_from_tag(T &&...x) { return expr<Tag, storage_t<T>...>{Tag{}, std::forward<T>(x)...}; }

  // ---- evaluation
  template <typename T> struct evaluator {
    template <typename... P> T const &operator()(T const &x, P const &...) const { return x; }
  };
  template <typename T, typename... P> decltype(auto) eval(T const &x, P const &...p) { return evaluator<T>{}(x, p...); }
  template <typename T> struct evaluator<std::reference_wrapper<T>> {
    template <typename... P> decltype(auto) operator()(std::reference_wrapper<T> const &x, P const &...p) const {
      if constexpr (is_lazy<T>)
        return eval(x.get(), p...);
      else
        return (x.get());
    }
  };
  namespace details {
    template <int N, typename P0, typename... P> decltype(auto) pick(P0 const &p0, P const &...p) {
      if constexpr (P0::p == N) {
        using R = decltype(p0.rhs);
        if constexpr (std::is_reference_v<R>)
          return static_cast<std::remove_reference_t<R> const &>(p0.rhs);
        else
          return R(p0.rhs); // held by value in the pair: a copy, the pair may not outlive the result
      } else
        return pick<N>(p...);
    }
  } // namespace details
  template <int N> struct evaluator<placeholder<N>> {
    template <typename... P> decltype(auto) operator()(placeholder<N> const &x, P const &...p) const {
      if constexpr (((P::p == N) || ... || false))
        return details::pick<N>(p...);
      else
        return placeholder<N>(x);
    }
  };
  namespace details {
    template <typename Tag, typename... C> decltype(auto) op_or_expr(C &&...c) {
      if constexpr (is_any_lazy<C...>)
        return expr<Tag, storage_t<C>...>{Tag{}, std::forward<C>(c)...};
      else
        return operation<Tag>{}(std::forward<C>(c)...);
    }
  } // namespace details
  template <typename Tag, typename... T> struct evaluator<expr<Tag, T...>> {
    template <typename... P> decltype(auto) operator()(expr<Tag, T...> const &x, P const &...p) const {
      return std::apply([&](auto const &...c) -> decltype(auto) { return details::op_or_expr<Tag>(eval(c, p...)...); }, x.childs);
    }
  };

  // ---- functions out of expressions
  template <typename Expr, int... Is> struct make_fun_impl {
    Expr ex;
    template <typename... A> decltype(auto) operator()(A &&...a) const { return eval(ex, pair<Is, A>{std::forward<A>(a)}...); }
  };
  template <typename Expr, int... Is> struct is_lazy_impl<make_fun_impl<Expr, Is...>> : std::false_type {};
  template <typename Expr, int... Is> struct evaluator<make_fun_impl<Expr, Is...>> {
    template <typename... P> decltype(auto) operator()(make_fun_impl<Expr, Is...> const &f, P const &...p) const {
      auto e = eval(f.ex, p...);
      return make_fun_impl<std::decay_t<decltype(e)>, Is...>{std::move(e)};
    }
  };
  template <typename Expr, int... Is> auto make_function(Expr &&e, placeholder<Is>...) { return make_fun_impl<std::decay_t<Expr>, Is...>{std::forward<Expr>(e)}; }
  template <int N, typename Expr> requires(is_any_lazy<Expr> || true) auto operator>>(placeholder<N>, Expr const &e) { return make_fun_impl<Expr, N>{e}; }

  template <typename... P> struct ph_list {};
  template <int... Is> struct var_list {
    template <typename Expr> auto operator>>(Expr const &e) const { return make_fun_impl<Expr, Is...>{e}; }
  };
  template <int... Is> var_list<Is...> var(placeholder<Is>...) { return {}; }

  // ---- auto assignment
  namespace details {
    template <typename L, typename R> void assign_or_recurse(L &&l, R &&r);
    template <typename T> struct is_fun : std::false_type {};
    template <typename E, int... Is> struct is_fun<make_fun_impl<E, Is...>> : std::true_type {};
    template <typename L, typename R> void assign_or_recurse(L &&l, R &&r) {
      if constexpr (is_fun<std::decay_t<R>>::value)
        clef_auto_assign(std::forward<L>(l), std::forward<R>(r));
      else
        std::forward<L>(l) = std::forward<R>(r);
    }
    template <typename RHS, int... Is> auto rhs_function(RHS const &rhs, placeholder<Is>...) { return make_fun_impl<RHS, Is...>{rhs}; }
    template <typename RHS, int... Is> auto rhs_function_tuple(RHS const &rhs, std::tuple<placeholder<Is>...>) { return make_fun_impl<RHS, Is...>{rhs}; }
  } // namespace details
  // f(x_, y_) << expr ; nested calls f(x_)(y_) assign recursively
  namespace details {
    template <typename T> decltype(auto) strip(T &x) {
      if constexpr (requires { x.get(); typename T::type; })
        return (x.get());
      else
        return (x);
    }
    template <typename E, typename RHS> void auto_assign(E const &ex, RHS &&rhs);
    template <typename Tag, typename F, typename RHS, int... Is> void auto_assign_one(expr<Tag, F, placeholder<Is>...> const &ex, RHS &&rhs) {
      auto fun = make_fun_impl<std::decay_t<RHS>, Is...>{rhs};
      auto &f  = const_cast<std::decay_t<F> &>(std::get<0>(ex.childs));
      if constexpr (is_lazy<F>)
        auto_assign_one(f, std::move(fun));
      else if constexpr (std::is_same_v<Tag, tags::function>)
        clef_auto_assign(strip(f), std::move(fun));
      else
        clef_auto_assign_subscript(strip(f), std::move(fun));
    }
  } // namespace details
  template <typename F, typename RHS, int... Is> auto operator<<(expr<tags::function, F, placeholder<Is>...> const &ex, RHS &&rhs) {
    details::auto_assign_one(ex, std::forward<RHS>(rhs));
    return ex;
  }
  template <typename F, typename RHS, int... Is> auto operator<<(expr<tags::subscript, F, placeholder<Is>...> const &ex, RHS &&rhs) {
    details::auto_assign_one(ex, std::forward<RHS>(rhs));
    return ex;
  }
  template <typename T, typename RHS> void clef_auto_assign(std::reference_wrapper<T> r, RHS &&rhs) { clef_auto_assign(r.get(), std::forward<RHS>(rhs)); }

  // ---- literals
  namespace literals {
    inline constexpr placeholder<0> i_{};
    inline constexpr placeholder<1> j_{};
    inline constexpr placeholder<2> k_{};
    inline constexpr placeholder<3> l_{};
    inline constexpr placeholder<4> bl_{};
    inline constexpr placeholder<5> w_{};
    inline constexpr placeholder<6> iw_{};
    inline constexpr placeholder<7> t_{};
    inline constexpr placeholder<8> tau_{};
  } // namespace literals

  // ---- lazy functions
#define CLEF_MAKE_FNT_LAZY(name)                                                                                                                     \
  struct name##_lazy_impl {                                                                                                                          \
    template <typename... A> decltype(auto) operator()(A &&...a) const { return name(std::forward<A>(a)...); }                                       \
  };                                                                                                                                                 \
  template <typename... A> requires(nda::clef::is_any_lazy<A...>) auto name(A &&...__a) {                                                            \
    return nda::clef::make_expr_call(name##_lazy_impl{}, std::forward<A>(__a)...);                                                                   \
  }
#define CLEF_IMPLEMENT_LAZY_METHOD(TY, name)                                                                                                         \
  struct __clef_lazy_method_impl_##TY##_##name {                                                                                                     \
    TY *_x;                                                                                                                                          \
    template <typename... A> decltype(auto) operator()(A &&...__a) const { return (*_x).name(std::forward<A>(__a)...); }                             \
  };                                                                                                                                                 \
  template <typename... A> requires(nda::clef::is_any_lazy<A...>) auto name(A &&...__a) {                                                            \
    return nda::clef::make_expr_call(__clef_lazy_method_impl_##TY##_##name{this}, std::forward<A>(__a)...);                                          \
  }
#define CLEF_IMPLEMENT_LAZY_CALL(...)                                                                                                                \
  template <typename... Args> requires(nda::clef::is_any_lazy<Args...>) auto operator()(Args &&...args) const & {                                    \
    return nda::clef::make_expr_call(*this, std::forward<Args>(args)...);                                                                            \
  }                                                                                                                                                  \
  template <typename... Args> requires(nda::clef::is_any_lazy<Args...>) auto operator()(Args &&...args) & {                                          \
    return nda::clef::make_expr_call(*this, std::forward<Args>(args)...);                                                                            \
  }                                                                                                                                                  \
  template <typename... Args> requires(nda::clef::is_any_lazy<Args...>) auto operator()(Args &&...args) && {                                         \
    return nda::clef::make_expr_call(std::move(*this), std::forward<Args>(args)...);                                                                 \
  }
} // namespace nda::clef
