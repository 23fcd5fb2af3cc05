#pragma once
#include "clef.hpp"
namespace nda::clef {
  namespace details {
    template <typename F, typename D> auto sum_f_domain(F const &f, D const &d) {
      auto it = d.begin(), ite = d.end();
      if (it == ite) throw std::runtime_error("Sum over an empty domain");
      auto res = make_regular(f(*it));
      ++it;
      for (; it != ite; ++it) res = res + f(*it);
      return res;
    }
  } // namespace details
  template <typename F, typename D> auto sum_f_domain(F const &f, D const &d) { return details::sum_f_domain(f, d); }
  struct sum_f_domain_op {
    template <typename F, typename D> auto operator()(F const &f, D const &d) const { return details::sum_f_domain(f, d); }
  };
  // the sum over one variable; other variables may still be free in f, the sum is then evaluated once they are bound
  template <int N, typename Expr, typename D> struct partial_sum {
    Expr ex;
    D d;
  };
  template <int N, typename Expr, typename D> struct is_lazy_impl<partial_sum<N, Expr, D>> : std::true_type {};
  template <int N, typename Expr, typename D> struct evaluator<partial_sum<N, Expr, D>> {
    template <typename... P> auto operator()(partial_sum<N, Expr, D> const &x, P const &...p) const {
      auto e = eval(x.ex, p...);
      using E = decltype(e);
      using R = decltype(make_fun_impl<E, N>{e}(*x.d.begin()));
      if constexpr (is_any_lazy<R>)
        return partial_sum<N, E, D>{e, x.d};
      else
        return details::sum_f_domain(make_fun_impl<E, N>{e}, x.d);
    }
  };
  template <typename Expr, int N, typename D> auto sum(Expr const &f, pair<N, D> d) {
    auto fun = make_fun_impl<Expr, N>{f};
    using R  = decltype(fun(*d.rhs.begin()));
    if constexpr (is_any_lazy<R>)
      return partial_sum<N, Expr, std::decay_t<D>>{f, d.rhs};
    else
      return details::sum_f_domain(fun, d.rhs);
  }
  template <typename Expr, typename A0, typename A1, typename... A> auto sum(Expr const &f, A0 a0, A1 a1, A... a) { return sum(sum(f, a0), a1, a...); }
} // namespace nda::clef
