// Stand-in for the nda library: same observable behaviour for what TRIQS uses, with eager arithmetic,
// run-time strides everywhere, bounds always checked, and unset floating-point memory filled with NaN.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <concepts>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <itertools/itertools.hpp>
#include "macros.hpp"
#include "stdutil/array.hpp"
#include "stdutil/complex.hpp"

namespace nda {
  using dcomplex = std::complex<double>;
  template <auto V> struct value_c {};

  struct runtime_error : std::runtime_error {
    using std::runtime_error::runtime_error;
  };
#define NDA_STANDIN_ERROR(msg)                                                                                                                       \
  do {                                                                                                                                               \
    std::ostringstream fs_;                                                                                                                          \
    fs_ << msg;                                                                                                                                      \
    throw ::nda::runtime_error(fs_.str());                                                                                                           \
  } while (0)

  // ------------------------------------------------ range, ellipsis
  class range : public itertools::range {
    public:
    using itertools::range::range;
    struct all_t {
      friend std::ostream &operator<<(std::ostream &o, all_t) { return o << ":"; }
    };
    static constexpr all_t all{};
  };
  struct ellipsis {};
  template <typename... T> auto product_range(T &&...x) { return itertools::product_range(std::forward<T>(x)...); }

  // ------------------------------------------------ scalars
  template <typename T> struct is_complex_impl : std::false_type {};
  template <typename T> struct is_complex_impl<std::complex<T>> : std::true_type {};
  template <typename T> constexpr bool is_complex_v = is_complex_impl<std::remove_cvref_t<T>>::value;
  template <typename T> constexpr bool is_scalar_v  = std::is_arithmetic_v<std::remove_cvref_t<T>> || is_complex_v<T>;
  template <typename T> concept Scalar = is_scalar_v<T>;

  // ------------------------------------------------ layouts (tags) and index map
  struct C_layout;
  struct C_stride_layout {
    using with_lowest_guarantee_t = C_stride_layout;
    using contiguous_t            = C_layout;
  };
  struct C_layout {
    using with_lowest_guarantee_t = C_stride_layout;
    using contiguous_t            = C_layout;
  };
  struct F_layout {
    using with_lowest_guarantee_t = C_stride_layout;
    using contiguous_t            = F_layout;
  };
  struct F_stride_layout {
    using with_lowest_guarantee_t = F_stride_layout;
    using contiguous_t            = F_layout;
  };

  enum class layout_prop_e : uint64_t { none = 0x0, strided_1d = 0x1, smallest_stride_is_one = 0x2, contiguous = 0x3 };
  // every memory order is stored in C order here (the order of the data is not observable by index)
  template <uint64_t StaticExtents, uint64_t StrideOrder, layout_prop_e P> struct basic_layout {
    using with_lowest_guarantee_t = C_stride_layout;
    using contiguous_t            = C_layout;
  };

  // compile-time encoded permutations (4 bits per index)
  template <size_t N> constexpr uint64_t encode(std::array<int, N> const &a) {
    uint64_t r = 0;
    for (int i = 0; i < int(N); ++i) r += uint64_t(a[i]) << (4 * i);
    return r;
  }
  template <int N> constexpr std::array<int, N> decode(uint64_t b) {
    std::array<int, N> r{};
    for (int i = 0; i < N; ++i) r[i] = (b >> (4 * i)) & 0xF;
    return r;
  }
  namespace permutations {
    template <int N> constexpr std::array<int, N> identity() {
      std::array<int, N> r{};
      for (int i = 0; i < N; ++i) r[i] = i;
      return r;
    }
    template <int N> constexpr std::array<int, N> transposition(int i, int j) {
      auto r = identity<N>();
      r[i]   = j;
      r[j]   = i;
      return r;
    }
    // cycle p of the first `pos` (all if negative) indices
    template <int N> constexpr std::array<int, N> cycle(int p, int pos = -1) {
      std::array<int, N> r{};
      pos = (pos < 0 ? N : pos);
      for (int i = 0; i < N; ++i) r[i] = (i < pos ? (pos + i + p) % pos : i);
      return r;
    }
    template <int N> constexpr std::array<int, N> reverse_identity() {
      std::array<int, N> r{};
      for (int i = 0; i < N; ++i) r[i] = N - 1 - i;
      return r;
    }
  } // namespace permutations

  template <int R> struct idx_map {
    std::array<long, R> len{}, str{};
    idx_map() = default;
    explicit idx_map(std::array<long, R> const &l, bool fortran = false) : len(l) {
      long s = 1;
      if (fortran)
        for (int i = 0; i < R; ++i) {
          str[i] = s;
          s *= len[i];
        }
      else
        for (int i = R - 1; i >= 0; --i) {
          str[i] = s;
          s *= len[i];
        }
    }
    idx_map(std::array<long, R> const &l, std::array<long, R> const &s) : len(l), str(s) {}
    static constexpr int rank() { return R; }
    auto const &lengths() const { return len; }
    auto const &strides() const { return str; }
    long size() const {
      long s = 1;
      for (auto x : len) s *= x;
      return s;
    }
    bool is_contiguous() const { return str == idx_map(len).str || size() <= 1; }
    long min_stride() const { return str[R - 1]; }
    bool operator==(idx_map const &) const = default;
  };

  template <typename T> struct handle {
    T *p = nullptr;
    T *data() const { return p; }
  };

  // ------------------------------------------------ traits
  struct array_tag {};
  template <typename A> constexpr bool is_arr = std::is_base_of_v<array_tag, std::remove_cvref_t<A>>;
  template <typename A> constexpr bool is_array_or_view_v = is_arr<A> && requires { std::remove_cvref_t<A>::is_memory; };
  template <typename A> constexpr int get_rank = std::remove_cvref_t<A>::rank;
  template <typename A> constexpr char get_algebra = std::remove_cvref_t<A>::algebra;
  template <typename A> using get_value_t = std::remove_cv_t<typename std::remove_cvref_t<A>::value_type>;
  template <typename A> concept Array = is_arr<A>;
  template <typename A> concept MemoryArray = is_array_or_view_v<A>;
  template <typename A, int R> concept ArrayOfRank = Array<A> && (get_rank<A> == R);
  template <typename A, int R> concept MemoryArrayOfRank = MemoryArray<A> && (get_rank<A> == R);
  template <typename A> concept Matrix = Array<A> && (get_rank<A> == 2);
  template <typename A> concept MemoryMatrix = MemoryArray<A> && (get_rank<A> == 2);
  template <typename A> concept Vector = Array<A> && (get_rank<A> == 1);
  template <typename A> concept MemoryVector = MemoryArray<A> && (get_rank<A> == 1);
  // something that can fill an array: the MPI lazies
  struct array_initializer_tag {};
  template <typename A> constexpr bool is_initializer = std::is_base_of_v<array_initializer_tag, std::remove_cvref_t<A>>;

  template <typename... T> struct heap {};
  template <long... N> struct stack_alloc {};

  template <typename T, int R, typename Layout, char A, typename CP> class basic_array;
  template <typename T, int R, typename Layout = C_stride_layout, char A = 'A'> class basic_array_view;

  template <typename T, int R, typename L = C_layout, typename CP = heap<>> using array = basic_array<T, R, L, 'A', CP>;
  template <typename T, typename L = C_layout, typename CP = heap<>> using matrix = basic_array<T, 2, L, 'M', CP>;
  template <typename T, typename CP = heap<>> using vector = basic_array<T, 1, C_layout, 'V', CP>;
  template <typename T, int R, typename L = C_stride_layout> using array_view = basic_array_view<T, R, L, 'A'>;
  template <typename T, int R, typename L = C_stride_layout> using array_const_view = basic_array_view<T const, R, L, 'A'>;
  template <typename T, int R, typename L = C_layout> using array_contiguous_view = basic_array_view<T, R, L, 'A'>;
  template <typename T, int R, typename L = C_layout> using array_contiguous_const_view = basic_array_view<T const, R, L, 'A'>;
  template <typename T, typename L = C_stride_layout> using matrix_view = basic_array_view<T, 2, L, 'M'>;
  template <typename T, typename L = C_stride_layout> using matrix_const_view = basic_array_view<T const, 2, L, 'M'>;
  template <typename T, typename L = C_stride_layout> using vector_view = basic_array_view<T, 1, L, 'V'>;
  template <typename T, typename L = C_stride_layout> using vector_const_view = basic_array_view<T const, 1, L, 'V'>;
  template <typename T, long N> using stack_vector = basic_array<T, 1, C_layout, 'V', stack_alloc<N>>;
  template <typename T, long N, long M> using stack_matrix = basic_array<T, 2, C_layout, 'M', stack_alloc<N, M>>;
  template <typename T, long... N> using stack_array = basic_array<T, int(sizeof...(N)), C_layout, 'A', stack_alloc<N...>>;

  template <typename A> using get_regular_t = basic_array<get_value_t<A>, get_rank<A>, C_layout, get_algebra<A>, heap<>>;

  // ------------------------------------------------ for_each, in row-major order
  namespace details {
    template <size_t N, typename I, typename F, typename... X> void for_each_impl(std::array<I, N> const &s, F &f, X... x) {
      if constexpr (sizeof...(X) == N)
        f(x...);
      else
        for (long i = 0; i < long(s[sizeof...(X)]); ++i) for_each_impl(s, f, x..., i);
    }
  } // namespace details
  template <typename I, size_t N, typename F> void for_each(std::array<I, N> const &s, F &&f) { details::for_each_impl(s, f); }

  // ------------------------------------------------ slices
  namespace details {
    template <typename T> constexpr bool is_all = std::is_same_v<std::remove_cvref_t<T>, range::all_t>;
    template <typename T> constexpr bool is_ell = std::is_same_v<std::remove_cvref_t<T>, ellipsis>;
    template <typename T> constexpr bool is_rng = std::is_base_of_v<itertools::range, std::remove_cvref_t<T>>;
    template <typename T> constexpr bool is_idx = !is_all<T> && !is_ell<T> && !is_rng<T>;
    constexpr char sub_algebra(char A, int R) {
      if (A == 'M') return R == 2 ? 'M' : (R == 1 ? 'V' : 'A');
      if (A == 'V') return R == 1 ? 'V' : 'A';
      return A;
    }
    inline void check_bound(long i, long n, int d) {
      if (i < 0 || i >= n) NDA_STANDIN_ERROR("nda : index " << i << " out of bounds: dimension " << d << " has length " << n);
    }
    template <int R, typename... Args> struct slicer {
      static constexpr int nell = (0 + ... + int(is_ell<Args>));
      static constexpr int nidx = (0 + ... + int(is_idx<Args>));
      static constexpr int narg = sizeof...(Args);
      static_assert(nell <= 1, "several ellipsis");
      static_assert(nell ? narg - 1 <= R : narg == R, "wrong number of arguments");
      static constexpr int Rout = R - nidx;
      idx_map<Rout> out;
      long offset = 0;
      int d = 0, o = 0;
      template <typename T> void one(idx_map<R> const &L, T const &a) {
        if constexpr (is_all<T>) {
          out.len[o]   = L.len[d];
          out.str[o++] = L.str[d++];
        } else if constexpr (is_ell<T>) {
          for (int k = 0; k < R - (narg - 1); ++k) {
            out.len[o]   = L.len[d];
            out.str[o++] = L.str[d++];
          }
        } else if constexpr (is_rng<T>) {
          long n = a.size();
          if (n > 0) {
            check_bound(a.first(), L.len[d], d);
            check_bound(a.first() + (n - 1) * a.step(), L.len[d], d);
            offset += a.first() * L.str[d];
          }
          out.len[o]   = n;
          out.str[o++] = L.str[d++] * a.step();
        } else {
          long i = static_cast<long>(a);
          check_bound(i, L.len[d], d);
          offset += i * L.str[d++];
        }
      }
      slicer(idx_map<R> const &L, Args const &...a) { (one(L, a), ...); }
    };
  } // namespace details

  namespace clef {
    template <typename... T> constexpr bool is_any_lazy_fwd(); // defined in clef
    template <typename Obj, typename... Args> auto make_expr_call(Obj &&obj, Args &&...args);
    template <typename Obj, typename... Args> auto make_expr_subscript(Obj &&obj, Args &&...args);
  } // namespace clef
} // namespace nda
#include "clef/clef.hpp"
namespace nda {

  // ------------------------------------------------ iterator over an array, in row-major order
  template <typename T, int R> struct array_iterator {
    using value_type        = std::remove_cv_t<T>;
    using reference         = T &;
    using pointer           = T *;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::random_access_iterator_tag;
    T *base = nullptr;
    idx_map<R> lay;
    long pos = 0;
    long offset(long p) const {
      long off = 0;
      for (int d = R - 1; d >= 0; --d) {
        off += (p % lay.len[d]) * lay.str[d];
        p /= lay.len[d];
      }
      return off;
    }
    std::array<long, R> indices() const {
      std::array<long, R> r;
      long p = pos;
      for (int d = R - 1; d >= 0; --d) {
        r[d] = p % lay.len[d];
        p /= lay.len[d];
      }
      return r;
    }
    T &operator*() const { return base[offset(pos)]; }
    T *operator->() const { return &base[offset(pos)]; }
    T &operator[](long n) const { return base[offset(pos + n)]; }
    array_iterator &operator++() { return ++pos, *this; }
    array_iterator &operator--() { return --pos, *this; }
    array_iterator operator++(int) {
      auto c = *this;
      ++pos;
      return c;
    }
    array_iterator operator--(int) {
      auto c = *this;
      --pos;
      return c;
    }
    array_iterator &operator+=(long n) { return pos += n, *this; }
    array_iterator &operator-=(long n) { return pos -= n, *this; }
    friend array_iterator operator+(array_iterator a, long n) { return a += n; }
    friend array_iterator operator-(array_iterator a, long n) { return a -= n; }
    friend array_iterator operator+(long n, array_iterator a) { return a += n; }
    friend long operator-(array_iterator const &a, array_iterator const &b) { return a.pos - b.pos; }
    bool operator==(array_iterator const &o) const { return pos == o.pos; }
    auto operator<=>(array_iterator const &o) const { return pos <=> o.pos; }
  };

  // ------------------------------------------------ common part of containers and views
  template <typename Self, typename T, int R, char A> struct array_base : array_tag {
    using value_type              = T;
    static constexpr int rank     = R;
    static constexpr char algebra = A;
    static constexpr bool is_memory = true;
    using layout_t                = idx_map<R>;
    using mutable_value           = std::remove_cv_t<T>;

    private:
    Self &self() { return static_cast<Self &>(*this); }
    Self const &self() const { return static_cast<Self const &>(*this); }

    public:
    auto const &indexmap() const { return self().lay_; }
    auto const &shape() const { return self().lay_.len; }
    auto const &strides() const { return self().lay_.str; }
    long shape(int i) const { return self().lay_.len[i]; }
    long extent(int i) const {
      details::check_bound(i, R, -1);
      return self().lay_.len[i];
    }
    long size() const { return self().lay_.size(); }
    bool empty() const { return size() == 0; }
    bool is_empty() const { return size() == 0; }
    bool is_contiguous() const { return self().lay_.is_contiguous(); }
    static constexpr bool is_stride_order_C() { return true; }
    static constexpr bool is_stride_order_Fortran() { return false; }
    static constexpr int iterator_rank = R;

    // the access: a reference or a view
    template <char ResA, bool SkipCheck, typename S, typename... Args> static decltype(auto) call(S &&s, Args const &...args) {
      using U = std::remove_pointer_t<decltype(s.data())>;
      if constexpr (sizeof...(Args) == 0) {
        return basic_array_view<U, R, C_stride_layout, ResA>{s.indexmap(), s.data()};
      } else {
        details::slicer<R, Args...> sl(s.indexmap(), args...);
        constexpr int Ro = details::slicer<R, Args...>::Rout;
        if constexpr (Ro == 0) {
          if constexpr (Self::is_owner && !std::is_lvalue_reference_v<S>)
            return std::remove_cv_t<U>(s.data()[sl.offset]);
          else
            return (s.data()[sl.offset]);
        } else {
          return basic_array_view<U, Ro, C_stride_layout, details::sub_algebra(ResA, Ro)>{sl.out, s.data() + sl.offset};
        }
      }
    }

    template <typename... Args> decltype(auto) operator()(Args &&...args) const & {
      if constexpr ((clef::is_any_lazy<Args> || ... || false))
        return clef::make_expr_call(self(), std::forward<Args>(args)...);
      else
        return call<A, false>(self(), args...);
    }
    template <typename... Args> decltype(auto) operator()(Args &&...args) & {
      if constexpr ((clef::is_any_lazy<Args> || ... || false))
        return clef::make_expr_call(self(), std::forward<Args>(args)...);
      else
        return call<A, false>(self(), args...);
    }
    template <typename... Args> decltype(auto) operator()(Args &&...args) && {
      if constexpr ((clef::is_any_lazy<Args> || ... || false))
        return clef::make_expr_call(std::move(self()), std::forward<Args>(args)...);
      else
        return call<A, false>(std::move(self()), args...);
    }
    template <typename X> decltype(auto) operator[](X &&x) const & {
      static_assert(R == 1, "operator[] is for rank 1");
      if constexpr (clef::is_any_lazy<X>)
        return clef::make_expr_subscript(self(), std::forward<X>(x));
      else
        return call<A, false>(self(), x);
    }
    template <typename X> decltype(auto) operator[](X &&x) & {
      static_assert(R == 1, "operator[] is for rank 1");
      if constexpr (clef::is_any_lazy<X>)
        return clef::make_expr_subscript(self(), std::forward<X>(x));
      else
        return call<A, false>(self(), x);
    }
    template <typename X> decltype(auto) operator[](X &&x) && {
      static_assert(R == 1, "operator[] is for rank 1");
      if constexpr (clef::is_any_lazy<X>)
        return clef::make_expr_subscript(std::move(self()), std::forward<X>(x));
      else
        return call<A, false>(std::move(self()), x);
    }

    auto begin() { return make_it(self().data(), 0); }
    auto end() { return make_it(self().data(), size()); }
    auto begin() const { return make_it(self().data(), 0); }
    auto end() const { return make_it(self().data(), size()); }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }

    auto as_array_view() { return basic_array_view<std::remove_pointer_t<decltype(self().data())>, R, C_stride_layout, 'A'>{self().lay_, self().data()}; }
    auto as_array_view() const {
      return basic_array_view<std::remove_pointer_t<decltype(self().data())>, R, C_stride_layout, 'A'>{self().lay_, self().data()};
    }

    template <typename S> decltype(auto) operator+=(S const &x) & { return compound(x, [](auto &a, auto const &b) { a += b; }, true); }
    template <typename S> decltype(auto) operator-=(S const &x) & { return compound(x, [](auto &a, auto const &b) { a -= b; }, true); }
    template <typename S> decltype(auto) operator*=(S const &x) & {
      if constexpr (A == 'M' && is_arr<S>) {
        auto r = self() * x;
        assign_elements(self(), r);
        return self();
      } else
        return compound(x, [](auto &a, auto const &b) { a *= b; }, false);
    }
    template <typename S> decltype(auto) operator/=(S const &x) & { return compound(x, [](auto &a, auto const &b) { a /= b; }, false); }
    template <typename S> decltype(auto) operator+=(S const &x) && { return self() += x; }
    template <typename S> decltype(auto) operator-=(S const &x) && { return self() -= x; }
    template <typename S> decltype(auto) operator*=(S const &x) && { return self() *= x; }
    template <typename S> decltype(auto) operator/=(S const &x) && { return self() /= x; }

    private:
    template <typename U> auto make_it(U *p, long pos) const { return array_iterator<U, R>{p, self().lay_, pos}; }
    template <typename S, typename F> Self &compound(S const &x, F f, bool diag) {
      if constexpr (is_arr<S>) {
        static_assert(get_rank<S> == R, "rank mismatch");
        if (std::array<long, R>(x.shape()) != shape()) NDA_STANDIN_ERROR("nda : shape mismatch in a compound assignment");
        for_each(shape(), [&](auto... i) { f(self()(i...), x(i...)); });
      } else {
        if (A == 'M' && diag) {
          if constexpr (R == 2) {
            if (shape()[0] != shape()[1]) NDA_STANDIN_ERROR("nda : adding a scalar to a rectangular matrix");
            for (long i = 0; i < shape()[0]; ++i) f(self()(i, i), x);
          }
        } else
          for_each(shape(), [&](auto... i) { f(self()(i...), x); });
      }
      return self();
    }

    public:
    template <typename RHS> static void assign_elements(Self &s, RHS const &rhs) {
      if constexpr (is_arr<RHS>) {
        static_assert(get_rank<RHS> == R, "rank mismatch in an assignment");
        if (std::array<long, R>(rhs.shape()) != s.shape()) NDA_STANDIN_ERROR("nda : shape mismatch in an assignment: " << s.shape() << " = " << rhs.shape());
        for_each(s.shape(), [&](auto... i) { s(i...) = rhs(i...); });
      } else {
        if constexpr (A == 'M') { // a scalar is scalar * identity
          for_each(s.shape(), [&](auto i, auto j) {
            if (i == j)
              s(i, j) = rhs;
            else
              s(i, j) = mutable_value{};
          });
        } else
          for_each(s.shape(), [&](auto... i) { s(i...) = rhs; });
      }
    }
  };

  // ------------------------------------------------ view
  template <typename T, int R, typename Layout, char A> class basic_array_view : public array_base<basic_array_view<T, R, Layout, A>, T, R, A> {
    using base = array_base<basic_array_view<T, R, Layout, A>, T, R, A>;
    friend base;
    template <typename, int, typename, char> friend class basic_array_view;
    idx_map<R> lay_;
    T *p_ = nullptr;

    public:
    static constexpr bool is_owner = false, is_view = true, is_const = std::is_const_v<T>;
    using layout_policy_t = Layout;
    using regular_type    = basic_array<std::remove_const_t<T>, R, C_layout, A, heap<>>;
    using view_type       = basic_array_view<T, R, C_stride_layout, A>;
    using const_view_type = basic_array_view<T const, R, C_stride_layout, A>;
    using storage_t       = handle<T>;

    basic_array_view() = default;
    basic_array_view(basic_array_view const &) = default;
    basic_array_view(basic_array_view &&)      = default;
    basic_array_view(idx_map<R> const &l, T *p) : lay_(l), p_(p) {}
    basic_array_view(idx_map<R> const &l, handle<T> h) : lay_(l), p_(h.p) {}
    basic_array_view(std::array<long, R> const &shape, T *p) : lay_(shape), p_(p) {}
    // from another memory array (a container must not be a temporary: lvalue only, except for const data)
    template <MemoryArray B>
    requires(!std::is_same_v<std::remove_cvref_t<B>, basic_array_view> && get_rank<B> == R && std::is_same_v<get_value_t<B>, std::remove_cv_t<T>>
             && std::is_convertible_v<decltype(std::declval<B &>().data()), T *>)
    basic_array_view(B &&b) : lay_(b.indexmap()), p_(b.data()) {}
    // from std::array, std::vector, span
    template <typename C>
    requires(!is_arr<C> && R == 1 && requires(C &c) { { std::data(c) } -> std::convertible_to<T *>; std::size(c); } && !std::is_same_v<std::remove_cvref_t<C>, std::initializer_list<std::remove_cv_t<T>>>)
    explicit basic_array_view(C &c) : lay_(std::array<long, R>{long(std::size(c))}), p_(std::data(c)) {}

    T *data() const { return p_; }
    handle<T> storage() const { return {p_}; }

    void rebind(basic_array_view b) {
      lay_ = b.lay_;
      p_   = b.p_;
    }
    basic_array_view &operator=(basic_array_view const &rhs) {
      base::assign_elements(*this, rhs);
      return *this;
    }
    template <typename RHS> basic_array_view &operator=(RHS const &rhs) {
      if constexpr (is_initializer<RHS>) {
        if (std::array<long, R>(rhs.shape()) != this->shape()) NDA_STANDIN_ERROR("nda : shape mismatch in an assignment to a view");
        rhs.invoke(basic_array_view(*this));
      } else
        base::assign_elements(*this, rhs);
      return *this;
    }
    template <typename U> requires(R == 1) basic_array_view &operator=(std::initializer_list<U> l) {
      if (long(l.size()) != this->size()) NDA_STANDIN_ERROR("nda : shape mismatch in an assignment from a list");
      long i = 0;
      for (auto const &x : l) (*this)(i++) = x;
      return *this;
    }
    friend void swap(basic_array_view &a, basic_array_view &b) noexcept { // swaps the views, not the data
      std::swap(a.lay_, b.lay_);
      std::swap(a.p_, b.p_);
    }
    friend void deep_swap(basic_array_view a, basic_array_view b) {
      if (a.shape() != b.shape()) NDA_STANDIN_ERROR("nda : shape mismatch in deep_swap");
      for_each(a.shape(), [&](auto... i) {
        using std::swap;
        swap(a(i...), b(i...));
      });
    }
  };
  template <MemoryArray B>
  basic_array_view(B &&b) -> basic_array_view<std::remove_pointer_t<decltype(std::declval<B &>().data())>, get_rank<B>, C_stride_layout, get_algebra<B>>;
  template <typename V, size_t N> basic_array_view(std::array<V, N> &) -> basic_array_view<V, 1, C_layout, 'V'>;
  template <typename V, size_t N> basic_array_view(std::array<V, N> const &) -> basic_array_view<V const, 1, C_layout, 'V'>;
  template <typename V> basic_array_view(std::vector<V> &) -> basic_array_view<V, 1, C_layout, 'V'>;
  template <typename V> basic_array_view(std::vector<V> const &) -> basic_array_view<V const, 1, C_layout, 'V'>;

  // ------------------------------------------------ container
  namespace details {
    template <typename CP, int R> struct static_shape {
      static constexpr bool fixed = false;
      static std::array<long, R> get() { return {}; }
    };
    template <long... N, int R> struct static_shape<stack_alloc<N...>, R> {
      static constexpr bool fixed = true;
      static std::array<long, R> get() { return {N...}; }
    };
    template <typename T> void fill_unset(T *p, long n) {
      if constexpr (std::is_floating_point_v<T>)
        for (long i = 0; i < n; ++i) p[i] = std::numeric_limits<T>::quiet_NaN();
      else if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>)
        for (long i = 0; i < n; ++i) p[i] = T(0x5a5a5a5a5a5a5a5aull);
    }
  } // namespace details

  template <typename T, int R, typename Layout, char A, typename CP> class basic_array : public array_base<basic_array<T, R, Layout, A, CP>, T, R, A> {
    using base = array_base<basic_array<T, R, Layout, A, CP>, T, R, A>;
    friend base;
    using SS = details::static_shape<CP, R>;
    static constexpr bool fortran = std::is_same_v<Layout, F_layout>;
    idx_map<R> lay_{SS::get(), fortran};
    std::unique_ptr<T[]> buf_;
    void alloc() {
      long n = lay_.size();
      buf_.reset(n > 0 ? new T[n] : nullptr);
      if (n > 0) details::fill_unset(buf_.get(), n);
    }

    public:
    static constexpr bool is_owner = true, is_view = false, is_const = false;
    using layout_policy_t     = Layout;
    using container_policy_t  = CP;
    using regular_type        = basic_array;
    using view_type           = basic_array_view<T, R, C_stride_layout, A>;
    using const_view_type     = basic_array_view<T const, R, C_stride_layout, A>;
    using storage_t           = handle<T>;

    basic_array() {
      if constexpr (SS::fixed) alloc();
    }
    basic_array(basic_array const &o) : lay_(o.lay_) {
      alloc();
      std::copy(o.buf_.get(), o.buf_.get() + lay_.size(), buf_.get());
    }
    basic_array(basic_array &&o) noexcept : lay_(o.lay_), buf_(std::move(o.buf_)) {
      if constexpr (SS::fixed) {
        o.alloc();
      } else
        o.lay_ = idx_map<R>{};
    }
    template <std::integral... I> requires(sizeof...(I) == R) explicit basic_array(I... i) : lay_(std::array<long, R>{long(i)...}, fortran) { alloc(); }
    explicit basic_array(std::array<long, R> const &s) : lay_(s, fortran) { alloc(); }
    template <std::integral I> requires(!std::is_same_v<I, long>) explicit basic_array(std::array<I, R> const &s) : lay_(stdutil::make_std_array<long>(s), fortran) { alloc(); }
    template <std::integral I> requires(R == 1) basic_array(I n, T const &val) : basic_array(n) {
      for (long k = 0; k < long(n); ++k) buf_[k] = val;
    }
    // any array, or MPI lazy
    template <Array B>
    requires(!std::is_same_v<std::remove_cvref_t<B>, basic_array> && get_rank<B> == R && std::is_convertible_v<get_value_t<B>, T>)
    basic_array(B const &b) : lay_(std::array<long, R>(b.shape()), fortran) {
      alloc();
      base::assign_elements(*this, b);
    }
    template <Array B>
    requires(!std::is_same_v<std::remove_cvref_t<B>, basic_array> && get_rank<B> == R && !std::is_convertible_v<get_value_t<B>, T> && std::is_constructible_v<T, get_value_t<B>>)
    explicit basic_array(B const &b) : lay_(std::array<long, R>(b.shape()), fortran) {
      alloc();
      for_each(this->shape(), [&](auto... i) { (*this)(i...) = T(b(i...)); });
    }
    template <typename I> requires(is_initializer<I>) basic_array(I const &l) : lay_(std::array<long, R>(l.shape()), fortran) {
      alloc();
      l.invoke(view_type(*this));
    }
    basic_array(std::initializer_list<T> l) requires(R == 1) : lay_(std::array<long, 1>{long(l.size())}) {
      alloc();
      std::copy(l.begin(), l.end(), buf_.get());
    }
    basic_array(std::initializer_list<std::initializer_list<T>> l) requires(R == 2)
       : lay_(std::array<long, 2>{long(l.size()), l.size() ? long(l.begin()->size()) : 0l}, fortran) {
      alloc();
      long i = 0;
      for (auto const &r : l) {
        if (long(r.size()) != lay_.len[1]) NDA_STANDIN_ERROR("nda : ragged initializer list");
        long j = 0;
        for (auto const &x : r) (*this)(i, j++) = x;
        ++i;
      }
    }
    basic_array(std::initializer_list<std::initializer_list<std::initializer_list<T>>> l) requires(R == 3)
       : lay_(std::array<long, 3>{long(l.size()), long(l.begin()->size()), long(l.begin()->begin()->size())}, fortran) {
      alloc();
      long i = 0;
      for (auto const &r : l) {
        long j = 0;
        for (auto const &s : r) {
          long k = 0;
          for (auto const &x : s) (*this)(i, j, k++) = x;
          ++j;
        }
        ++i;
      }
    }
    template <char A2, typename CP2, typename L2> requires(A2 != A) explicit basic_array(basic_array<T, R, L2, A2, CP2> &&o) : basic_array(std::as_const(o)) {}

    static basic_array zeros(std::array<long, R> const &s) requires(std::is_standard_layout_v<T> || is_scalar_v<T>) {
      basic_array r(s);
      std::fill(r.buf_.get(), r.buf_.get() + r.size(), T{});
      return r;
    }
    template <std::integral... I> requires(sizeof...(I) == R) static basic_array zeros(I... i) { return zeros(std::array<long, R>{long(i)...}); }
    template <std::integral I> requires(!std::is_same_v<I, long>) static basic_array zeros(std::array<I, R> const &s) { return zeros(stdutil::make_std_array<long>(s)); }
    static basic_array ones(std::array<long, R> const &s) {
      basic_array r(s);
      std::fill(r.buf_.get(), r.buf_.get() + r.size(), T(1));
      return r;
    }
    template <std::integral... I> requires(sizeof...(I) == R) static basic_array ones(I... i) { return ones(std::array<long, R>{long(i)...}); }
    static basic_array rand(std::array<long, R> const &s) {
      static std::mt19937_64 gen(42);
      std::uniform_real_distribution<double> u(0, 1);
      basic_array r(s);
      for (long k = 0; k < r.size(); ++k) r.buf_[k] = u(gen);
      return r;
    }
    template <std::integral... I> requires(sizeof...(I) == R) static basic_array rand(I... i) { return rand(std::array<long, R>{long(i)...}); }

    T *data() { return buf_.get(); }
    T const *data() const { return buf_.get(); }
    handle<T> storage() & { return {buf_.get()}; }
    handle<T> storage() && { return {buf_.get()}; }
    handle<T const> storage() const & { return {buf_.get()}; }

    void resize(std::array<long, R> const &s) {
      if (s == this->shape() && (buf_ || lay_.size() == 0)) return;
      if constexpr (SS::fixed) NDA_STANDIN_ERROR("nda : resize of a stack array");
      lay_ = idx_map<R>(s, fortran);
      alloc();
    }
    template <std::integral I> requires(!std::is_same_v<I, long>) void resize(std::array<I, R> const &s) { resize(stdutil::make_std_array<long>(s)); }
    template <std::integral... I> requires(sizeof...(I) == R) void resize(I... i) { resize(std::array<long, R>{long(i)...}); }

    basic_array &operator=(basic_array const &o) {
      if (this == &o) return *this;
      resize(o.shape());
      std::copy(o.buf_.get(), o.buf_.get() + lay_.size(), buf_.get());
      return *this;
    }
    basic_array &operator=(basic_array &&o) noexcept {
      std::swap(lay_, o.lay_);
      std::swap(buf_, o.buf_);
      return *this;
    }
    template <typename RHS> requires(!std::is_same_v<std::remove_cvref_t<RHS>, basic_array>) basic_array &operator=(RHS const &rhs) {
      if constexpr (is_initializer<RHS>) {
        resize(std::array<long, R>(rhs.shape()));
        rhs.invoke(view_type(*this));
      } else if constexpr (is_arr<RHS>) {
        if (std::array<long, R>(rhs.shape()) != this->shape()) {
          basic_array tmp(std::array<long, R>(rhs.shape())); // rhs may be a view of this
          base::assign_elements(tmp, rhs);
          *this = std::move(tmp);
        } else
          base::assign_elements(*this, rhs);
      } else
        base::assign_elements(*this, rhs);
      return *this;
    }
    friend void swap(basic_array &a, basic_array &b) noexcept {
      std::swap(a.lay_, b.lay_);
      std::swap(a.buf_, b.buf_);
    }
    friend void deep_swap(basic_array &a, basic_array &b) { swap(a, b); }
  };
  template <Array B> basic_array(B const &b) -> basic_array<get_value_t<B>, get_rank<B>, C_layout, get_algebra<B>, heap<>>;
  template <typename T> basic_array(std::initializer_list<T>) -> basic_array<T, 1, C_layout, 'A', heap<>>;

  // ------------------------------------------------ adapter: a lambda seen as an array
  template <int R, typename F> struct array_adapter : array_tag {
    std::array<long, R> s;
    F f;
    static constexpr int rank     = R;
    static constexpr char algebra = 'A';
    using value_type              = std::decay_t<decltype([](auto &g) {
      return [&]<size_t... I>(std::index_sequence<I...>) { return g((long(I) * 0)...); }(std::make_index_sequence<R>{});
    }(std::declval<F &>()))>;
    template <typename I> array_adapter(std::array<I, R> const &s_, F f_) : s(stdutil::make_std_array<long>(s_)), f(f_) {}
    auto const &shape() const { return s; }
    long size() const {
      long n = 1;
      for (auto x : s) n *= x;
      return n;
    }
    template <typename... X> auto operator()(X const &...x) const { return f(x...); }
  };
  template <typename I, size_t R, typename F> array_adapter(std::array<I, R>, F) -> array_adapter<int(R), F>;

  // ------------------------------------------------ regular
  template <typename A> auto make_regular(A &&a) {
    if constexpr (is_arr<A>)
      return get_regular_t<A>(std::forward<A>(a));
    else
      return std::decay_t<A>(std::forward<A>(a));
  }
  template <typename A> using regular_t = decltype(make_regular(std::declval<A>()));
  template <typename A> decltype(auto) make_const_view(A const &a) { return typename A::const_view_type(a); }

  // ------------------------------------------------ maps
  namespace details {
    template <char Alg, typename F, typename A> auto map1(F f, A const &a) {
      constexpr int R = get_rank<A>;
      using V         = std::decay_t<decltype(f(std::declval<get_value_t<A> const &>()))>;
      basic_array<V, R, C_layout, Alg, heap<>> r(std::array<long, R>(a.shape()));
      for_each(r.shape(), [&](auto... i) { r(i...) = f(a(i...)); });
      return r;
    }
    template <char Alg, typename F, typename A, typename B> auto map2(F f, A const &a, B const &b) {
      constexpr int R = get_rank<A>;
      static_assert(R == get_rank<B>, "rank mismatch in an operation on arrays");
      if (std::array<long, R>(a.shape()) != std::array<long, R>(b.shape())) NDA_STANDIN_ERROR("nda : shape mismatch in an operation: " << a.shape() << " and " << b.shape());
      using V = std::decay_t<decltype(f(std::declval<get_value_t<A> const &>(), std::declval<get_value_t<B> const &>()))>;
      basic_array<V, R, C_layout, Alg, heap<>> r(std::array<long, R>(a.shape()));
      for_each(r.shape(), [&](auto... i) { r(i...) = f(a(i...), b(i...)); });
      return r;
    }
    template <typename S, typename A> constexpr bool scal = !is_arr<S> && (is_scalar_v<S> || std::is_same_v<std::remove_cvref_t<S>, get_value_t<A>>);
    template <typename V, typename A, typename S, typename F> auto diag_op(A const &a, S const &, F f) {
      constexpr int R = get_rank<A>;
      basic_array<V, R, C_layout, get_algebra<A>, heap<>> r(a);
      if (r.shape()[0] != r.shape()[1]) NDA_STANDIN_ERROR("nda : scalar and rectangular matrix");
      for (long i = 0; i < r.shape()[0]; ++i) r(i, i) = f(r(i, i));
      return r;
    }
  } // namespace details
  template <typename F> struct mapped {
    F f;
    template <typename A, typename... B> auto operator()(A const &a, B const &...b) const {
      if constexpr (sizeof...(B) == 0)
        return details::map1<get_algebra<A>>(f, a);
      else
        return details::map2<get_algebra<A>>(f, a, b...);
    }
  };
  template <typename F> mapped<F> map(F f) { return {f}; }

  // ------------------------------------------------ linear algebra kernels
  namespace details {
    template <typename A, typename B> auto matmul(A const &a, B const &b) {
      using V = std::decay_t<decltype(std::declval<get_value_t<A>>() * std::declval<get_value_t<B>>())>;
      if (a.shape()[1] != b.shape()[0]) NDA_STANDIN_ERROR("nda : dimension mismatch in a matrix product: " << a.shape() << " x " << b.shape());
      if constexpr (get_rank<B> == 2) {
        basic_array<V, 2, C_layout, 'M', heap<>> r(a.shape()[0], b.shape()[1]);
        for (long i = 0; i < a.shape()[0]; ++i)
          for (long j = 0; j < b.shape()[1]; ++j) {
            V s = V{};
            for (long k = 0; k < a.shape()[1]; ++k) s += a(i, k) * b(k, j);
            r(i, j) = s;
          }
        return r;
      } else {
        basic_array<V, 1, C_layout, 'V', heap<>> r(a.shape()[0]);
        for (long i = 0; i < a.shape()[0]; ++i) {
          V s = V{};
          for (long k = 0; k < a.shape()[1]; ++k) s += a(i, k) * b(k);
          r(i) = s;
        }
        return r;
      }
    }
    // LU with partial pivoting, in place; returns the sign of the permutation, 0 if a pivot is exactly zero
    template <typename M> int lu(M &a, std::vector<long> &perm) {
      long n   = a.shape()[0];
      int sign = 1, sing = 0;
      perm.resize(n);
      for (long i = 0; i < n; ++i) perm[i] = i;
      for (long k = 0; k < n; ++k) {
        long p = k;
        for (long i = k + 1; i < n; ++i)
          if (std::abs(a(i, k)) > std::abs(a(p, k))) p = i;
        if (p != k) {
          for (long j = 0; j < n; ++j) std::swap(a(p, j), a(k, j));
          std::swap(perm[p], perm[k]);
          sign = -sign;
        }
        if (a(k, k) == get_value_t<M>{}) {
          sing = 1;
          continue;
        }
        for (long i = k + 1; i < n; ++i) {
          a(i, k) = a(i, k) / a(k, k);
          for (long j = k + 1; j < n; ++j) a(i, j) -= a(i, k) * a(k, j);
        }
      }
      return sing ? 0 : sign;
    }
  } // namespace details

  template <typename A> auto determinant(A const &m) {
    using V = get_value_t<A>;
    static_assert(get_rank<A> == 2);
    if (m.shape()[0] != m.shape()[1]) NDA_STANDIN_ERROR("nda : determinant of a rectangular matrix");
    matrix<V> a(m);
    std::vector<long> p;
    int s = details::lu(a, p);
    if (s == 0) return V{};
    V d = V(double(s));
    for (long i = 0; i < a.shape()[0]; ++i) d *= a(i, i);
    return d;
  }
  template <typename A> auto determinant_in_place(A const &m) { return determinant(m); }
  template <typename A> auto inverse(A const &m) {
    using V = get_value_t<A>;
    static_assert(get_rank<A> == 2);
    if (m.shape()[0] != m.shape()[1]) NDA_STANDIN_ERROR("nda : inverse of a rectangular matrix");
    matrix<V> a(m);
    long n = a.shape()[0];
    std::vector<long> p;
    if (details::lu(a, p) == 0 && n > 0) NDA_STANDIN_ERROR("Inverse/Det error : matrix is not invertible");
    basic_array<V, 2, C_layout, get_algebra<A>, heap<>> r(n, n);
    std::vector<V> y(n);
    for (long c = 0; c < n; ++c) {
      for (long i = 0; i < n; ++i) {
        y[i] = (p[i] == c ? V(1) : V(0));
        for (long k = 0; k < i; ++k) y[i] -= a(i, k) * y[k];
      }
      for (long i = n - 1; i >= 0; --i) {
        for (long k = i + 1; k < n; ++k) y[i] -= a(i, k) * y[k];
        y[i] /= a(i, i);
      }
      for (long i = 0; i < n; ++i) r(i, c) = y[i];
    }
    return r;
  }
  template <typename A> void inverse_in_place(A &&m) {
    auto r = inverse(m);
    for_each(r.shape(), [&](auto i, auto j) { m(i, j) = r(i, j); });
  }

  // ------------------------------------------------ arithmetic
  template <Array L, Array R> auto operator+(L const &l, R const &r) {
    return details::map2<get_algebra<L>>([](auto const &a, auto const &b) { return a + b; }, l, r);
  }
  template <Array L, Array R> auto operator-(L const &l, R const &r) {
    return details::map2<get_algebra<L>>([](auto const &a, auto const &b) { return a - b; }, l, r);
  }
  template <Array L, Array R> auto operator*(L const &l, R const &r) {
    if constexpr (get_algebra<L> == 'M') {
      static_assert(get_algebra<R> != 'A', "product of a matrix and an array");
      return details::matmul(l, r);
    } else
      return details::map2<get_algebra<L>>([](auto const &a, auto const &b) { return a * b; }, l, r);
  }
  template <Array L, Array R> auto operator/(L const &l, R const &r) {
    if constexpr (get_algebra<L> == 'M')
      return details::matmul(l, inverse(r));
    else
      return details::map2<get_algebra<L>>([](auto const &a, auto const &b) { return a / b; }, l, r);
  }
  template <Array L> auto operator-(L const &l) {
    return details::map1<get_algebra<L>>([](auto const &a) { return -a; }, l);
  }
  template <Array L, typename S> requires(details::scal<S, L>) auto operator*(L const &l, S const &s) {
    return details::map1<get_algebra<L>>([&](auto const &a) { return a * s; }, l);
  }
  template <Array L, typename S> requires(details::scal<S, L>) auto operator*(S const &s, L const &l) {
    return details::map1<get_algebra<L>>([&](auto const &a) { return s * a; }, l);
  }
  template <Array L, typename S> requires(details::scal<S, L>) auto operator/(L const &l, S const &s) {
    return details::map1<get_algebra<L>>([&](auto const &a) { return a / s; }, l);
  }
  template <Array L, typename S> requires(details::scal<S, L>) auto operator/(S const &s, L const &l) {
    if constexpr (get_algebra<L> == 'M')
      return s * inverse(l);
    else
      return details::map1<get_algebra<L>>([&](auto const &a) { return s / a; }, l);
  }
  template <Array L, typename S> requires(details::scal<S, L>) auto operator+(L const &l, S const &s) {
    if constexpr (get_algebra<L> == 'M')
      return details::diag_op<std::decay_t<decltype(std::declval<get_value_t<L>>() + s)>>(l, s, [&](auto const &a) { return a + s; });
    else
      return details::map1<get_algebra<L>>([&](auto const &a) { return a + s; }, l);
  }
  template <Array L, typename S> requires(details::scal<S, L>) auto operator+(S const &s, L const &l) { return l + s; }
  template <Array L, typename S> requires(details::scal<S, L>) auto operator-(L const &l, S const &s) {
    if constexpr (get_algebra<L> == 'M')
      return details::diag_op<std::decay_t<decltype(std::declval<get_value_t<L>>() - s)>>(l, s, [&](auto const &a) { return a - s; });
    else
      return details::map1<get_algebra<L>>([&](auto const &a) { return a - s; }, l);
  }
  template <Array L, typename S> requires(details::scal<S, L>) auto operator-(S const &s, L const &l) {
    if constexpr (get_algebra<L> == 'M')
      return details::diag_op<std::decay_t<decltype(s - std::declval<get_value_t<L>>())>>(-l, s, [&](auto const &a) { return s + a; });
    else
      return details::map1<get_algebra<L>>([&](auto const &a) { return s - a; }, l);
  }
  template <Array L, Array R> requires(get_rank<L> == get_rank<R>) bool operator==(L const &l, R const &r) {
    if (std::array<long, get_rank<L>>(l.shape()) != std::array<long, get_rank<R>>(r.shape())) return false;
    bool eq = true;
    for_each(l.shape(), [&](auto... i) {
      if (!(l(i...) == r(i...))) eq = false;
    });
    return eq;
  }

  // ------------------------------------------------ element-wise functions
#define NDA_STANDIN_MAP(NAME, EXPR)                                                                                                                  \
  template <Array A> auto NAME(A const &a) {                                                                                                         \
    return details::map1<get_algebra<A>>([](auto const &x) { return EXPR; }, a);                                                                     \
  }
  namespace details {
    template <typename T> auto sreal(T const &x) {
      if constexpr (is_complex_v<T>)
        return x.real();
      else
        return x;
    }
    template <typename T> auto simag(T const &x) {
      if constexpr (is_complex_v<T>)
        return x.imag();
      else
        return T{};
    }
    template <typename T> T sconj(T const &x) {
      if constexpr (is_complex_v<T>)
        return std::conj(x);
      else
        return x;
    }
  } // namespace details
  template <Scalar T> auto real(T x) { return details::sreal(x); }
  template <Scalar T> auto imag(T x) { return details::simag(x); }
  template <Scalar T> T conj(T x) { return details::sconj(x); }
  template <Scalar T> auto abs2(T x) { return details::sreal(x) * details::sreal(x) + details::simag(x) * details::simag(x); }
  template <Scalar T> bool isnan(T x) { return std::isnan(details::sreal(x)) || std::isnan(details::simag(x)); }
  NDA_STANDIN_MAP(real, details::sreal(x))
  NDA_STANDIN_MAP(imag, details::simag(x))
  NDA_STANDIN_MAP(conj, details::sconj(x))
  NDA_STANDIN_MAP(abs2, nda::abs2(x))
  NDA_STANDIN_MAP(isnan, nda::isnan(x))
  NDA_STANDIN_MAP(abs, std::abs(x))
  NDA_STANDIN_MAP(floor, std::floor(x))
  template <Array A> auto hadamard(A const &a, A const &b) {
    return details::map2<get_algebra<A>>([](auto const &x, auto const &y) { return x * y; }, a, b);
  }
#define NDA_STANDIN_MATH(NAME)                                                                                                                       \
  template <Array A> auto NAME(A const &a) {                                                                                                         \
    static_assert(get_algebra<A> != 'M', "element-wise function of a matrix");                                                                       \
    using std::NAME;                                                                                                                                 \
    return details::map1<get_algebra<A>>([](auto const &x) { return NAME(x); }, a);                                                                  \
  }
  NDA_STANDIN_MATH(exp)
  NDA_STANDIN_MATH(cos)
  NDA_STANDIN_MATH(sin)
  NDA_STANDIN_MATH(tan)
  NDA_STANDIN_MATH(cosh)
  NDA_STANDIN_MATH(sinh)
  NDA_STANDIN_MATH(tanh)
  NDA_STANDIN_MATH(acos)
  NDA_STANDIN_MATH(asin)
  NDA_STANDIN_MATH(atan)
  NDA_STANDIN_MATH(log)
  NDA_STANDIN_MATH(sqrt)
  template <Array A, typename B> auto pow(A const &a, B const &b) {
    return details::map1<get_algebra<A>>([&](auto const &x) { return std::pow(x, b); }, a);
  }

  // ------------------------------------------------ reductions
  template <Array A> auto sum(A const &a) {
    get_value_t<A> s{};
    for_each(a.shape(), [&](auto... i) { s = s + a(i...); });
    return s;
  }
  template <Array A> auto product(A const &a) {
    get_value_t<A> s(1);
    for_each(a.shape(), [&](auto... i) { s = s * a(i...); });
    return s;
  }
  template <Array A> auto max_element(A const &a) {
    bool first = true;
    get_value_t<A> s{};
    for_each(a.shape(), [&](auto... i) {
      if (first || s < a(i...)) s = a(i...);
      first = false;
    });
    return s;
  }
  template <Array A> auto min_element(A const &a) {
    bool first = true;
    get_value_t<A> s{};
    for_each(a.shape(), [&](auto... i) {
      if (first || a(i...) < s) s = a(i...);
      first = false;
    });
    return s;
  }
  template <Array A> bool any(A const &a) {
    bool r = false;
    for_each(a.shape(), [&](auto... i) { r = r || a(i...); });
    return r;
  }
  template <Array A> bool all(A const &a) {
    bool r = true;
    for_each(a.shape(), [&](auto... i) { r = r && a(i...); });
    return r;
  }
  template <Array A> double frobenius_norm(A const &a) {
    double s = 0;
    for_each(a.shape(), [&](auto... i) { s += nda::abs2(a(i...)); });
    return std::sqrt(s);
  }
  template <Array A> double norm(A const &a, double p = 2.0) {
    static_assert(get_rank<A> == 1);
    if (p == 2.0) return frobenius_norm(a);
    double s = 0;
    for_each(a.shape(), [&](auto... i) { s = std::isinf(p) ? std::max(s, double(std::abs(a(i...)))) : s + std::pow(std::abs(a(i...)), p); });
    return std::isinf(p) ? s : std::pow(s, 1 / p);
  }
  template <Array A> auto trace(A const &a) {
    static_assert(get_rank<A> == 2);
    get_value_t<A> s{};
    for (long i = 0; i < a.shape()[0]; ++i) s = s + a(i, i);
    return s;
  }
  template <Array A> bool is_matrix_diagonal(A const &a, double precision = 1e-13) {
    bool r = a.shape()[0] == a.shape()[1];
    for_each(a.shape(), [&](auto i, auto j) {
      if (i != j && !(std::abs(a(i, j)) == 0)) r = false;
    });
    return r;
  }
  template <Array A> long first_dim(A const &a) { return a.shape()[0]; }
  template <Array A> long second_dim(A const &a) { return a.shape()[1]; }
  template <Array A> long third_dim(A const &a) { return a.shape()[2]; }

  // ------------------------------------------------ factories
  template <typename T, std::integral I, size_t R> auto zeros(std::array<I, R> const &s) {
    if constexpr (R == 0)
      return T{};
    else
      return array<T, int(R)>::zeros(stdutil::make_std_array<long>(s));
  }
  template <typename T, std::integral... I> auto zeros(I... i) {
    if constexpr (sizeof...(I) == 0)
      return T{};
    else
      return array<T, int(sizeof...(I))>::zeros(std::array<long, sizeof...(I)>{long(i)...});
  }
  template <typename T, std::integral I, size_t R> auto ones(std::array<I, R> const &s) { return array<T, int(R)>::ones(stdutil::make_std_array<long>(s)); }
  template <typename T, std::integral... I> auto ones(I... i) { return array<T, int(sizeof...(I))>::ones(std::array<long, sizeof...(I)>{long(i)...}); }
  template <typename T = double, std::integral I, size_t R> auto rand(std::array<I, R> const &s) { return array<T, int(R)>::rand(stdutil::make_std_array<long>(s)); }
  template <typename T = double> T rand() { return (*array<T, 1>::rand(std::array<long, 1>{1}).begin()); }
  template <typename T = double, std::integral... I> requires(sizeof...(I) > 0) auto rand(I... i) { return array<T, int(sizeof...(I))>::rand(std::array<long, sizeof...(I)>{long(i)...}); }
  template <typename T = double> matrix<T> eye(long n) {
    matrix<T> m(n, n);
    m = T(1);
    return m;
  }
  template <typename T, size_t N> requires(std::is_arithmetic_v<T>) matrix<T> diag(std::array<T, N> const &v) {
    auto m = matrix<T>::zeros(long(N), long(N));
    for (long i = 0; i < long(N); ++i) m(i, i) = v[i];
    return m;
  }
  template <Array V> auto diag(V const &v) {
    long n = v.shape()[0];
    auto m = matrix<get_value_t<V>>::zeros(n, n);
    for (long i = 0; i < n; ++i) m(i, i) = v(i);
    return m;
  }
  template <std::integral I = long> array<long, 1> arange(long first, long last, long step = 1) {
    range r(first, last, step);
    array<long, 1> a(r.size());
    long k = 0;
    for (auto i : r) a(k++) = i;
    return a;
  }
  inline array<long, 1> arange(long last) { return arange(0, last); }

  // ------------------------------------------------ views with other indexing
  template <uint64_t P, MemoryArray A> auto permuted_indices_view(A &&a) {
    constexpr int R    = get_rank<A>;
    constexpr auto p   = decode<R>(P); // index n of the input is index p^-1... : element (i_0,...) of the result is a with i_{n} at position p[n]
    idx_map<R> const &m = a.indexmap();
    idx_map<R> r;
    for (int n = 0; n < R; ++n) {
      r.len[n] = m.len[p[n]];
      r.str[n] = m.str[p[n]];
    }
    using U = std::remove_pointer_t<decltype(a.data())>;
    return basic_array_view<U, R, C_stride_layout, get_algebra<A>>{r, a.data()};
  }
  template <int I, int J, MemoryArray A> auto transposed_view(A &&a) {
    return permuted_indices_view<encode(permutations::transposition<get_rank<A>>(I, J))>(std::forward<A>(a));
  }
  template <Array A> auto transpose(A &&a) {
    static_assert(get_rank<A> == 2);
    if constexpr (MemoryArray<A>) {
      if constexpr (std::remove_cvref_t<A>::is_owner && !std::is_lvalue_reference_v<A>)
        return std::remove_cvref_t<get_regular_t<A>>(transposed_view<0, 1>(a));
      else
        return transposed_view<0, 1>(a);
    } else
      return transpose(get_regular_t<A>(a));
  }
  template <Array A> auto dagger(A const &a) { return conj(transpose(a)); }
  template <MemoryArray A> auto diagonal(A &&m) {
    using U = std::remove_pointer_t<decltype(m.data())>;
    return basic_array_view<U, 1, C_stride_layout, 'V'>{idx_map<1>{std::array<long, 1>{std::min(m.shape()[0], m.shape()[1])}, std::array<long, 1>{m.strides()[0] + m.strides()[1]}}, m.data()};
  }
  template <MemoryArray A> auto make_matrix_view(A &&a) {
    static_assert(get_rank<A> == 2);
    using U = std::remove_pointer_t<decltype(a.data())>;
    return basic_array_view<U, 2, C_stride_layout, 'M'>{a.indexmap(), a.data()};
  }
  template <MemoryArray A> auto make_array_const_view(A const &a) {
    return basic_array_view<get_value_t<A> const, get_rank<A>, C_stride_layout, 'A'>{a.indexmap(), a.data()};
  }
  template <MemoryArray A> auto make_array_view(A &&a) {
    using U = std::remove_pointer_t<decltype(a.data())>;
    return basic_array_view<U, get_rank<A>, C_stride_layout, 'A'>{a.indexmap(), a.data()};
  }
  template <int N, MemoryArray A> auto reinterpret_add_fast_dims_of_size_one(A &&a) {
    constexpr int R = get_rank<A>;
    idx_map<R + N> r;
    for (int i = 0; i < R + N; ++i) {
      r.len[i] = i < R ? a.indexmap().len[i] : 1;
      r.str[i] = i < R ? a.indexmap().str[i] : 1;
    }
    if constexpr (std::remove_cvref_t<A>::is_owner && !std::is_lvalue_reference_v<A>) {
      basic_array<get_value_t<A>, R + N, C_layout, get_algebra<A>, heap<>> res(r.len);
      std::copy(a.begin(), a.end(), res.begin());
      return res;
    } else {
      using U = std::remove_pointer_t<decltype(a.data())>;
      return basic_array_view<U, R + N, C_stride_layout, details::sub_algebra(get_algebra<A>, R + N)>{r, a.data()};
    }
  }
  template <MemoryArray A, std::integral I, size_t N> auto reshape(A &&a, std::array<I, N> const &s) {
    auto sh = stdutil::make_std_array<long>(s);
    idx_map<int(N)> m(sh);
    if (m.size() != a.size()) NDA_STANDIN_ERROR("nda : reshape to a different size");
    if (!a.is_contiguous()) NDA_STANDIN_ERROR("nda : reshape of a non contiguous array");
    constexpr char alg = details::sub_algebra(get_algebra<A>, int(N)) == 'V' && N != 1 ? 'A' : (get_algebra<A> == 'M' && N == 2 ? 'M' : 'A');
    if constexpr (std::remove_cvref_t<A>::is_owner && !std::is_lvalue_reference_v<A>) {
      basic_array<get_value_t<A>, int(N), C_layout, alg, heap<>> r(sh);
      std::copy(a.begin(), a.end(), r.begin());
      return r;
    } else {
      using U = std::remove_pointer_t<decltype(a.data())>;
      return basic_array_view<U, int(N), C_layout, alg>{m, a.data()};
    }
  }
  template <MemoryArray A, std::integral... I> auto reshape(A &&a, I... i) { return reshape(std::forward<A>(a), std::array<long, sizeof...(I)>{long(i)...}); }
  template <MemoryArray A> auto flatten(A &&a) { return reshape(std::forward<A>(a), std::array<long, 1>{a.size()}); }
  template <MemoryArray A> auto vectorize(A &&a) { return flatten(std::forward<A>(a)); }
  template <MemoryArray A> auto group_indices_view_last2(A &&a); // unused

  // ------------------------------------------------ printing
  namespace details {
    template <typename A> void print(std::ostream &o, A const &a) {
      if constexpr (get_rank<A> == 1) {
        o << "[";
        for (long i = 0; i < a.shape()[0]; ++i) o << (i ? "," : "") << a(i);
        o << "]";
      } else {
        o << (get_rank<A> == 2 ? "\n[" : "[");
        for (long i = 0; i < a.shape()[0]; ++i) {
          if (i) o << "\n ";
          auto s = a(i, ellipsis{});
          print(o, s);
        }
        o << "]";
      }
    }
  } // namespace details
  template <MemoryArray A> std::ostream &operator<<(std::ostream &o, A const &a) {
    details::print(o, a);
    return o;
  }

  // ------------------------------------------------ auto assignment (a(i_,j_) << expr)
  template <typename A, typename RHS> requires(is_arr<A>) void clef_auto_assign(A &&a, RHS &&rhs) {
    for_each(a.shape(), [&](auto... i) { clef::details::assign_or_recurse(a(i...), rhs(i...)); });
  }
  template <typename A, typename RHS> requires(is_arr<A>) void clef_auto_assign_subscript(A &&a, RHS &&rhs) { clef_auto_assign(a, rhs); }
  template <typename T, int R, typename L, char A> struct force_copy_dummy {};

  // ------------------------------------------------ blas
  namespace blas {
    template <typename X, typename Y> auto dot(X const &x, Y const &y) {
      using V = std::decay_t<decltype(std::declval<get_value_t<X>>() * std::declval<get_value_t<Y>>())>;
      if (x.shape()[0] != y.shape()[0]) NDA_STANDIN_ERROR("nda : dot of vectors of different sizes");
      V s{};
      for (long i = 0; i < x.shape()[0]; ++i) s += x(i) * y(i);
      return s;
    }
    template <typename X, typename Y> auto dotc(X const &x, Y const &y) {
      using V = std::decay_t<decltype(std::declval<get_value_t<X>>() * std::declval<get_value_t<Y>>())>;
      if (x.shape()[0] != y.shape()[0]) NDA_STANDIN_ERROR("nda : dot of vectors of different sizes");
      V s{};
      for (long i = 0; i < x.shape()[0]; ++i) s += details::sconj(x(i)) * y(i);
      return s;
    }
    template <typename X, typename Y> auto dot_generic(X const &x, Y const &y) { return dot(x, y); }
    template <typename X, typename Y> auto dotc_generic(X const &x, Y const &y) { return dotc(x, y); }
    template <typename S, typename A, typename B, typename C> void gemm(S alpha, A const &a, B const &b, S beta, C &&c) {
      if (a.shape()[1] != b.shape()[0] || c.shape()[0] != a.shape()[0] || c.shape()[1] != b.shape()[1]) NDA_STANDIN_ERROR("nda : dimension mismatch in gemm");
      for (long i = 0; i < c.shape()[0]; ++i)
        for (long j = 0; j < c.shape()[1]; ++j) {
          get_value_t<C> s{};
          for (long k = 0; k < a.shape()[1]; ++k) s += a(i, k) * b(k, j);
          c(i, j) = alpha * s + (beta == S(0) ? get_value_t<C>{} : get_value_t<C>(beta * c(i, j)));
        }
    }
    template <typename S, typename A, typename B, typename C> void gemm_generic(S alpha, A const &a, B const &b, S beta, C &&c) { gemm(alpha, a, b, beta, c); }
    template <typename S, typename A, typename X, typename Y> void gemv(S alpha, A const &a, X const &x, S beta, Y &&y) {
      if (a.shape()[1] != x.shape()[0] || a.shape()[0] != y.shape()[0]) NDA_STANDIN_ERROR("nda : dimension mismatch in gemv");
      for (long i = 0; i < a.shape()[0]; ++i) {
        get_value_t<Y> s{};
        for (long k = 0; k < a.shape()[1]; ++k) s += a(i, k) * x(k);
        y(i) = alpha * s + (beta == S(0) ? get_value_t<Y>{} : get_value_t<Y>(beta * y(i)));
      }
    }
    template <typename S, typename X, typename Y, typename M> void ger(S alpha, X const &x, Y const &y, M &&m) {
      if (m.shape()[0] != x.shape()[0] || m.shape()[1] != y.shape()[0]) NDA_STANDIN_ERROR("nda : dimension mismatch in ger");
      for (long i = 0; i < m.shape()[0]; ++i)
        for (long j = 0; j < m.shape()[1]; ++j) m(i, j) += alpha * x(i) * y(j);
    }
    template <typename X, typename Y> auto outer_product(X const &x, Y const &y) {
      using V = std::decay_t<decltype(std::declval<get_value_t<X>>() * std::declval<get_value_t<Y>>())>;
      constexpr int RX = get_rank<X>, RY = get_rank<Y>;
      std::array<long, RX + RY> sh;
      for (int i = 0; i < RX; ++i) sh[i] = x.shape()[i];
      for (int i = 0; i < RY; ++i) sh[RX + i] = y.shape()[i];
      basic_array<V, RX + RY, C_layout, (RX + RY == 2 ? 'M' : 'A'), heap<>> m(sh);
      auto *p = m.data();
      for_each(x.shape(), [&](auto... i) { for_each(y.shape(), [&](auto... j) { *p++ = x(i...) * y(j...); }); });
      return m;
    }
    template <typename X> void scal(get_value_t<X> a, X &&x) {
      for (auto &v : x) v *= a;
    }
  } // namespace blas

  // ------------------------------------------------ symmetry groups
  struct operation {
    bool sgn = false, cc = false; // sign flip, complex conjugation
    friend operation operator*(operation const &a, operation const &b) { return {bool(a.sgn xor b.sgn), bool(a.cc xor b.cc)}; }
    template <typename T> T operator()(T const &x) const {
      if constexpr (is_complex_v<T>) return sgn ? (cc ? -std::conj(x) : -x) : (cc ? std::conj(x) : x);
      else return sgn ? -x : x;
    }
  };
} // namespace nda

// names which TRIQS uses unqualified
namespace triqs::gfs {
  using nda::MemoryArray;
}
