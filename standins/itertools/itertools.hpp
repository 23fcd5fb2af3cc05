// Stand-in for the itertools library (same observable behaviour for what TRIQS uses).
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <functional>
#include <iterator>
#include <optional>
#include <tuple>
#include <utility>
#include <vector>
#include <iostream>

namespace itertools {

  template <class EndIter> struct sentinel_t {
    EndIter it;
  };
  template <class EndIter> sentinel_t<EndIter> make_sentinel(EndIter it) { return {it}; }

  template <typename Iter, typename Value, typename Tag = std::forward_iterator_tag, typename Reference = Value &, typename Difference = std::ptrdiff_t>
  struct iterator_facade;
  template <typename Iter, typename Value, typename Reference, typename Difference>
  struct iterator_facade<Iter, Value, std::forward_iterator_tag, Reference, Difference> {
    private:
    [[nodiscard]] Iter &self() { return static_cast<Iter &>(*this); }
    [[nodiscard]] Iter const &self() const { return static_cast<const Iter &>(*this); }

    public:
    using value_type        = Value;
    using reference         = Reference;
    using pointer           = Value *;
    using difference_type   = Difference;
    using iterator_category = std::forward_iterator_tag;
    Iter &operator++() {
      self().increment();
      return self();
    }
    Iter operator++(int) {
      Iter c = self();
      self().increment();
      return c;
    }
    template <typename U> friend bool operator==(Iter const &it1, U const &it2) requires(requires { it1.equal(it2); }) { return it1.equal(it2); }
    template <typename U> friend bool operator!=(Iter const &it1, U const &it2) requires(requires { it1.equal(it2); }) { return !(it1.equal(it2)); }
    decltype(auto) operator*() const { return self().dereference(); }
    decltype(auto) operator->() const { return &(operator*()); }
  };

  // ---- range
  class range {
    long first_ = 0, last_ = 0, step_ = 1;

    public:
    using value_type = long;
    range()          = default;
    template <typename I> requires std::is_integral_v<I> range(I i) : range(i, i + 1, 1) { first_ = 0; last_ = i; }
    range(long f, long l, long s = 1) : first_(f), last_(l), step_(s) {}
    bool operator==(range const &) const = default;
    [[nodiscard]] long first() const { return first_; }
    [[nodiscard]] long last() const { return last_; }
    [[nodiscard]] long step() const { return step_; }
    [[nodiscard]] long size() const { return std::max(0l, (last_ - first_ + step_ - (step_ > 0 ? 1 : -1)) / step_); }
    [[nodiscard]] range operator+(long s) const { return {first_ + s, last_ + s, step_}; }
    struct const_iterator {
      using value_type        = long;
      using iterator_category = std::forward_iterator_tag;
      using pointer           = long *;
      using difference_type   = std::ptrdiff_t;
      using reference         = long const &;
      long pos = 0, last = 0, step = 1;
      const_iterator &operator++() {
        pos += step;
        return *this;
      }
      const_iterator operator++(int) {
        auto c = *this;
        pos += step;
        return c;
      }
      bool atend() const { return step > 0 ? pos >= last : pos <= last; }
      bool operator==(const_iterator const &o) const { return (atend() && o.atend()) || pos == o.pos; }
      bool operator!=(const_iterator const &o) const { return !(*this == o); }
      long operator*() const { return pos; }
    };
    [[nodiscard]] const_iterator begin() const { return {first_, last_, step_}; }
    [[nodiscard]] const_iterator cbegin() const { return begin(); }
    [[nodiscard]] const_iterator end() const { return {last_, last_, step_}; }
    [[nodiscard]] const_iterator cend() const { return end(); }
  };
  template <typename Int> range product_range_one(Int n) { return range(long(n)); }

  namespace details {
    template <typename T> struct hold { // lvalue -> reference, rvalue -> value
      using type = T;
    };
    template <typename R> using it_t  = decltype(std::begin(std::declval<R &>()));
    template <typename R> using cit_t = decltype(std::cbegin(std::declval<R &>()));
    template <typename R> using end_t = decltype(std::end(std::declval<R &>()));
  } // namespace details

  // ---- enumerate
  namespace details {
    template <typename It> struct enum_iter {
      using value_type        = std::tuple<long, decltype(*std::declval<It &>())>;
      using reference         = value_type;
      using pointer           = value_type *;
      using difference_type   = std::ptrdiff_t;
      using iterator_category = std::forward_iterator_tag;
      It it{};
      long i = 0;
      enum_iter() = default;
      enum_iter(It it) : it(it) {}
      enum_iter &operator++() {
        ++it;
        ++i;
        return *this;
      }
      enum_iter operator++(int) {
        auto c = *this;
        ++(*this);
        return c;
      }
      bool operator==(enum_iter const &o) const { return it == o.it; }
      bool operator!=(enum_iter const &o) const { return !(it == o.it); }
      template <typename E> bool operator==(sentinel_t<E> const &o) const { return it == o.it; }
      template <typename E> bool operator!=(sentinel_t<E> const &o) const { return !(it == o.it); }
      value_type operator*() const { return {i, *const_cast<It &>(it)}; }
    };
    template <typename R> struct enumerated {
      R r;
      auto begin() { return enum_iter<decltype(std::begin(r))>{std::begin(r)}; }
      auto begin() const { return enum_iter<decltype(std::cbegin(r))>{std::cbegin(r)}; }
      auto cbegin() const { return begin(); }
      auto end() { return make_sentinel(std::end(r)); }
      auto end() const { return make_sentinel(std::cend(r)); }
      auto cend() const { return end(); }
    };
  } // namespace details
  template <typename R> details::enumerated<R> enumerate(R &&r) { return {std::forward<R>(r)}; }

  // ---- transform
  namespace details {
    // a callable held by value, copy-assignable whatever it captures
    template <typename L> struct callable_box {
      std::optional<L> l;
      callable_box() = default;
      callable_box(L const &x) : l(x) {}
      callable_box(callable_box const &) = default;
      callable_box &operator=(callable_box const &o) {
        if (this != &o) {
          if (o.l) l.emplace(*o.l);
          else l.reset();
        }
        return *this;
      }
    };
    template <typename It, typename L> struct transform_iter {
      using value_type        = std::decay_t<decltype(std::declval<L &>()(*std::declval<It &>()))>;
      using reference         = decltype(std::declval<L &>()(*std::declval<It &>()));
      using pointer           = value_type *;
      using difference_type   = std::ptrdiff_t;
      using iterator_category = std::forward_iterator_tag;
      It it;
      callable_box<L> l;
      transform_iter &operator++() {
        ++it;
        return *this;
      }
      transform_iter operator++(int) {
        auto c = *this;
        ++it;
        return c;
      }
      bool operator==(transform_iter const &o) const { return it == o.it; }
      template <typename E> bool operator==(sentinel_t<E> const &o) const { return it == o.it; }
      decltype(auto) operator*() const { return (*l.l)(*it); }
    };
    template <typename R, typename L> struct transformed {
      R r;
      L l;
      auto begin() const { return transform_iter<decltype(std::cbegin(r)), L>{std::cbegin(r), l}; }
      auto cbegin() const { return begin(); }
      auto end() const { return make_sentinel(std::cend(r)); }
      auto cend() const { return end(); }
    };
  } // namespace details
  template <typename R, typename L> details::transformed<R, L> transform(R &&r, L l) { return {std::forward<R>(r), l}; }

  // ---- zip
  namespace details {
    template <typename... It> struct zip_iter {
      using value_type        = std::tuple<decltype(*std::declval<It &>())...>;
      using reference         = value_type;
      using pointer           = value_type *;
      using difference_type   = std::ptrdiff_t;
      using iterator_category = std::forward_iterator_tag;
      std::tuple<It...> its;
      zip_iter &operator++() {
        std::apply([](auto &...x) { (++x, ...); }, its);
        return *this;
      }
      template <typename T> bool operator==(T const &o) const {
        return [&]<size_t... I>(std::index_sequence<I...>) { return ((std::get<I>(its) == std::get<I>(o.it)) || ...); }(std::index_sequence_for<It...>{});
      }
      value_type operator*() const {
        return std::apply([](auto &...x) { return value_type{*x...}; }, const_cast<std::tuple<It...> &>(its));
      }
    };
    template <typename... R> struct zipped {
      std::tuple<R...> rs;
      auto begin() {
        return std::apply([](auto &...r) { return zip_iter<decltype(std::begin(r))...>{{std::begin(r)...}}; }, rs);
      }
      auto begin() const {
        return std::apply([](auto &...r) { return zip_iter<decltype(std::cbegin(r))...>{{std::cbegin(r)...}}; }, rs);
      }
      auto end() {
        return std::apply([](auto &...r) { return sentinel_t<std::tuple<decltype(std::end(r))...>>{{std::end(r)...}}; }, rs);
      }
      auto end() const {
        return std::apply([](auto &...r) { return sentinel_t<std::tuple<decltype(std::cend(r))...>>{{std::cend(r)...}}; }, rs);
      }
    };
  } // namespace details
  template <typename... R> details::zipped<R...> zip(R &&...r) { return {std::tuple<R...>{std::forward<R>(r)...}}; }

  // ---- product: last range runs fastest
  namespace details {
    template <typename... R> struct multiplied {
      std::tuple<R...> rs;
      template <typename Its, typename Ends> struct iter;
      template <typename... It, typename Ends> struct iter<std::tuple<It...>, Ends> {
        using value_type        = std::tuple<decltype(*std::declval<It &>())...>;
        using reference         = value_type;
        using pointer           = value_type *;
        using difference_type   = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;
        std::tuple<It...> begs, its;
        Ends ends;
        template <int N> void incr() {
          ++std::get<N>(its);
          if constexpr (N > 0)
            if (std::get<N>(its) == std::get<N>(ends)) {
              std::get<N>(its) = std::get<N>(begs);
              incr<N - 1>();
            }
        }
        bool atend() const { return std::get<0>(its) == std::get<0>(ends); }
        iter &operator++() {
          incr<int(sizeof...(It)) - 1>();
          return *this;
        }
        iter operator++(int) {
          auto c = *this;
          ++(*this);
          return c;
        }
        bool operator==(iter const &o) const { return its == o.its; }
        bool operator==(std::default_sentinel_t) const { return atend(); }
        template <typename E> bool operator==(sentinel_t<E> const &) const { return atend(); }
        value_type operator*() const {
          return std::apply([](auto &...x) { return value_type{*x...}; }, its);
        }
      };
      auto begin() const {
        return std::apply(
           [](auto const &...r) {
             using B = std::tuple<std::decay_t<decltype(std::begin(r))>...>;
             using E = std::tuple<std::decay_t<decltype(std::end(r))>...>;
             iter<B, E> i{B{std::begin(r)...}, B{std::begin(r)...}, E{std::end(r)...}};
             bool empty = ((std::begin(r) == std::end(r)) || ...);
             if (empty) {
               auto &first = std::get<0>(i.its);
               while (!(first == std::get<0>(i.ends))) ++first;
             }
             return i;
           },
           rs);
      }
      auto cbegin() const { return begin(); }
      auto end() const { return std::default_sentinel; }
      auto cend() const { return end(); }
    };
  } // namespace details
  template <typename... R> details::multiplied<R...> product(R &&...r) { return {std::tuple<R...>{std::forward<R>(r)...}}; }

  namespace details {
    template <typename T> range to_range(T const &t) {
      if constexpr (std::is_integral_v<T>)
        return range(long(t));
      else
        return range(t.first(), t.last(), t.step());
    }
  } // namespace details
  template <typename... I> auto product_range(I... i) requires((std::is_integral_v<I> || requires { i.first(); }) && ...) { return product(details::to_range(i)...); }
  template <typename I, size_t N> auto product_range(std::array<I, N> const &a) {
    return [&]<size_t... Is>(std::index_sequence<Is...>) { return product(range(long(a[Is]))...); }(std::make_index_sequence<N>{});
  }

  // ---- slice
  template <typename R> auto slice(R &&r, long a, long b) {
    std::vector<std::decay_t<decltype(*std::begin(r))>> v;
    long i = 0;
    for (auto const &x : r) {
      if (i >= a && i < b) v.push_back(x);
      ++i;
    }
    return v;
  }
  template <typename R> auto make_vector_from_range(R const &r) {
    std::vector<std::decay_t<decltype(*std::begin(r))>> v;
    for (auto const &x : r) v.push_back(x);
    return v;
  }
  // the part of [start, end) which falls to one of n_chunks ranks
  inline std::pair<std::ptrdiff_t, std::ptrdiff_t> chunk_range(std::ptrdiff_t start, std::ptrdiff_t end, long n_chunks, long rank) {
    long n = end - start, q = n / n_chunks, r = n % n_chunks;
    auto first = start + rank * q + (rank < r ? rank : r);
    return {first, first + q + (rank < r ? 1 : 0)};
  }
  template <class F> void foreach_index(F) {}
} // namespace itertools

namespace std {
  template <class E, class I> bool operator!=(itertools::sentinel_t<E> const &s, I const &i) { return !(i == s); }
} // namespace std
