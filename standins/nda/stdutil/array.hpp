#pragma once
#include <array>
#include <iostream>
#include <type_traits>
#include <utility>
#include <cstddef>

namespace std {
  template <typename T, size_t R> std::ostream &operator<<(std::ostream &out, std::array<T, R> const &a) {
    out << "(";
    for (size_t i = 0; i < R; ++i) out << (i ? " " : "") << a[i];
    return out << ")";
  }
  template <typename T, size_t R> std::string to_string(std::array<T, R> const &a) {
    std::string r = "(";
    for (size_t i = 0; i < R; ++i) r += (i ? " " : "") + std::to_string(a[i]);
    return r + ")";
  }
  template <typename T, size_t R> constexpr std::array<T, R> operator+(std::array<T, R> const &a, std::array<T, R> const &b) {
    std::array<T, R> r{};
    for (size_t i = 0; i < R; ++i) r[i] = a[i] + b[i];
    return r;
  }
  template <typename T, size_t R> constexpr std::array<T, R> operator-(std::array<T, R> const &a, std::array<T, R> const &b) {
    std::array<T, R> r{};
    for (size_t i = 0; i < R; ++i) r[i] = a[i] - b[i];
    return r;
  }
  template <typename T, size_t R> constexpr std::array<T, R> operator-(std::array<T, R> const &a) {
    std::array<T, R> r{};
    for (size_t i = 0; i < R; ++i) r[i] = -a[i];
    return r;
  }
  template <typename T, size_t R> constexpr std::array<T, R> operator*(T x, std::array<T, R> const &a) {
    std::array<T, R> r{};
    for (size_t i = 0; i < R; ++i) r[i] = x * a[i];
    return r;
  }
} // namespace std

namespace nda::stdutil {
  template <size_t R, typename T> constexpr std::array<T, R> make_initialized_array(T v) {
    std::array<T, R> r{};
    for (auto &x : r) x = v;
    return r;
  }
  template <typename T, typename U, size_t R> constexpr std::array<T, R> make_std_array(std::array<U, R> const &a) {
    std::array<T, R> r{};
    for (size_t i = 0; i < R; ++i) r[i] = T(a[i]);
    return r;
  }
  template <typename T, typename A> auto make_std_array(A const &a) requires(requires { A::rank; }) {
    std::array<T, A::static_size> r{};
    return r;
  }
  template <typename T, typename U, size_t R> constexpr std::array<T, R + 1> append(std::array<T, R> const &a, U const &x) {
    std::array<T, R + 1> r{};
    for (size_t i = 0; i < R; ++i) r[i] = a[i];
    r[R] = x;
    return r;
  }
  template <typename T, typename U, size_t R> constexpr std::array<T, R + 1> front_append(std::array<T, R> const &a, U const &x) {
    std::array<T, R + 1> r{};
    r[0] = x;
    for (size_t i = 0; i < R; ++i) r[i + 1] = a[i];
    return r;
  }
  template <int N, typename T, size_t R> constexpr std::array<T, R - N> mpop(std::array<T, R> const &a) {
    std::array<T, R - N> r{};
    for (size_t i = 0; i < R - N; ++i) r[i] = a[i];
    return r;
  }
  template <typename T, size_t R> constexpr auto pop(std::array<T, R> const &a) { return mpop<1>(a); }
  template <int N, typename T, size_t R> constexpr std::array<T, R - N> front_mpop(std::array<T, R> const &a) {
    std::array<T, R - N> r{};
    for (size_t i = 0; i < R - N; ++i) r[i] = a[i + N];
    return r;
  }
  template <typename T, size_t R> constexpr auto front_pop(std::array<T, R> const &a) { return front_mpop<1>(a); }
  template <typename T, typename U, size_t R, size_t S> constexpr std::array<T, R + S> join(std::array<T, R> const &a, std::array<U, S> const &b) {
    std::array<T, R + S> r{};
    for (size_t i = 0; i < R; ++i) r[i] = a[i];
    for (size_t i = 0; i < S; ++i) r[R + i] = b[i];
    return r;
  }
  template <typename T, size_t R> constexpr auto sum(std::array<T, R> const &a) {
    T r{};
    for (auto x : a) r += x;
    return r;
  }
  template <typename T, size_t R> constexpr auto product(std::array<T, R> const &a) {
    T r(1);
    for (auto x : a) r *= x;
    return r;
  }
  template <typename T, typename U, size_t R> constexpr auto dot_product(std::array<T, R> const &a, std::array<U, R> const &b) {
    decltype(T{} * U{}) r{};
    for (size_t i = 0; i < R; ++i) r += a[i] * b[i];
    return r;
  }
} // namespace nda::stdutil
