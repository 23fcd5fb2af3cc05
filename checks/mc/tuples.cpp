// C20: tuple, variant, signature, bracket and iterator helpers against element-wise loops
#include "explore.hpp"
#include <list>
#include <memory>
#include <optional>
#include <triqs/utility/tuple_tools.hpp>
#include <triqs/utility/tuple_serialize.hpp>
#include <triqs/utility/variant_extensions.hpp>
#include <triqs/utility/function_arg_ret_type.hpp>
#include <triqs/utility/lazy_bracket.hpp>
#include <triqs/utility/dressed_iterator.hpp>
#include <triqs/utility/concept_tools.hpp>
#include <triqs/utility/typeid_name.hpp>
namespace tt = triqs::tuple;
using std::string;

// an element which counts its copies and knows that it was moved from
struct elem {
  static inline int copies = 0, live = 0;
  string v;
  elem(string s) : v(std::move(s)) { ++live; }
  elem(elem const &e) : v(e.v) { ++copies, ++live; }
  elem(elem &&e) noexcept : v(std::move(e.v)) { e.v = "moved", ++live; }
  elem &operator=(elem const &e) = default;
  ~elem() { --live; }
  bool operator==(elem const &) const = default;
};
static std::ostream &operator<<(std::ostream &o, elem const &e) { return o << e.v; }
static string str(elem const &e) { return e.v; }
static string str(string const &e) { return e; }
static string str(int e) { return std::to_string(e); }
static string str(long e) { return std::to_string(e); }
static string str(size_t e) { return std::to_string(e); }
static string str(double e) { return ex::cat(e); }
static string str(char e) { return string(1, e); }
template <typename T> static string str(std::unique_ptr<T> const &p) { return p ? str(*p) : "null"; }
template <typename T> T make(int i);
template <> int make<int>(int i) { return 10 + i; }
template <> double make<double>(int i) { return i + 0.5; }
template <> string make<string>(int i) { return string(1, 'a' + i); }
template <> elem make<elem>(int i) { return elem(string("e") + char('0' + i)); }
template <> char make<char>(int i) { return 'A' + i; }
template <> std::unique_ptr<int> make<std::unique_ptr<int>>(int i) { return std::make_unique<int>(i); }

static std::vector<string> join(std::vector<string> a) { return a; }
static string flat(std::vector<string> const &v) {
  string r;
  for (auto &x : v) r += x + ";";
  return r;
}
template <typename T> static std::vector<string> list(T const &t) { // the elements of a tuple, without the code under test
  std::vector<string> r;
  [&]<size_t... I>(std::index_sequence<I...>) { (r.push_back(str(std::get<I>(t))), ...); }(std::make_index_sequence<std::tuple_size_v<std::decay_t<T>>>{});
  return r;
}
static void same(std::vector<string> const &a, std::vector<string> const &b, string const &what) {
  ex::check(a == b, "tuple:" + what.substr(0, what.find(' ')), what, " gives ", flat(a), " instead of ", flat(b));
}
template <typename T> struct tag {
  using type = T;
};
// call f(tag<tuple>) for a tuple type chosen among the lengths 0..5 and several element types
template <typename F> static void with_tuple(F f) {
  static const int n = 12;
  switch (ex::choose(n)) {
    case 0: f(tag<std::tuple<>>{}); break;
    case 1: f(tag<std::tuple<int>>{}); break;
    case 2: f(tag<std::tuple<elem>>{}); break;
    case 3: f(tag<std::tuple<int, string>>{}); break;
    case 4: f(tag<std::tuple<elem, elem>>{}); break;
    case 5: f(tag<std::tuple<int, double, string>>{}); break;
    case 6: f(tag<std::tuple<elem, int, elem>>{}); break;
    case 7: f(tag<std::tuple<int, int, int>>{}); break;
    case 8: f(tag<std::tuple<string, elem, char, int>>{}); break;
    case 9: f(tag<std::tuple<double, double, double, double>>{}); break;
    case 10: f(tag<std::tuple<int, string, double, elem, char>>{}); break;
    case 11: f(tag<std::tuple<elem, elem, elem, elem, elem>>{}); break;
  }
}
template <typename Tu> static Tu mk(int base = 0) {
  return [&]<size_t... I>(std::index_sequence<I...>) { return Tu{make<std::tuple_element_t<I, Tu>>(base + I)...}; }(std::make_index_sequence<std::tuple_size_v<Tu>>{});
}
JOB_SHARDED(basic, 12) {
  with_tuple([](auto tg) {
    using Tu = typename decltype(tg)::type;
    constexpr int n = std::tuple_size_v<Tu>;
    int base        = ex::choose(3);
    Tu t            = mk<Tu>(base);
    auto const &ct  = t;
    auto L = list(t), R = L;
    std::reverse(R.begin(), R.end());
    ex::step();
    ex::state(ex::hash(flat(L) + std::to_string(n) + typeid(Tu).name()));
    string w = ex::cat(" on a tuple of length ", n, ", ", flat(L));
    std::vector<string> got;
    elem::copies = 0;
    auto rec     = [&](auto const &x) { got.push_back(str(x)); };
    got.clear(), tt::for_each(t, rec), same(got, L, "for_each" + w);
    got.clear(), tt::for_each(ct, rec), same(got, L, "for_each const" + w);
    got.clear(), tt::for_each(reverse(t), rec), same(got, R, "for_each reverse" + w);
    got.clear(), tt::for_each(reverse(ct), rec), same(got, R, "for_each reverse const" + w);
    got.clear(), tt::for_each_enumerate(t, [&](int i, auto const &x) { got.push_back(ex::cat(i, str(x))); });
    auto LE = L;
    for (int i = 0; i < n; ++i) LE[i] = ex::cat(i, L[i]);
    same(got, LE, "for_each_enumerate" + w);
    if constexpr (n > 0) {
      auto call = [&](auto const &...x) {
        got = {str(x)...};
        return int(sizeof...(x));
      };
      ex::check(tt::apply(call, t) == n, "apply", "result of apply"), same(got, L, "apply" + w);
      ex::check(tt::apply(call, ct) == n, "apply", "result of apply"), same(got, L, "apply const" + w);
      ex::check(tt::apply(call, reverse(t)) == n, "apply", "result of apply"), same(got, R, "apply reverse" + w);
      ex::check(tt::called_on_tuple(call)(t) == n, "apply", "result of called_on_tuple"), same(got, L, "called_on_tuple" + w);
    } else
      ex::check(tt::apply([] { return 3; }, t) == 3, "apply", "apply on the empty tuple");
    // fold
    auto f = [](auto const &x, string r) { return r + "<" + str(x); };
    string fw = "i", fr = "i";
    for (auto &x : L) fw += "<" + x;
    for (auto &x : R) fr += "<" + x;
    ex::check(tt::fold(f, t, string("i")) == fw, "fold", "fold", w, " is ", tt::fold(f, t, string("i")));
    ex::check(tt::fold(f, ct, string("i")) == fw, "fold", "fold", w);
    ex::check(tt::fold(f, reverse(t), string("i")) == fr, "fold", "fold on the reversed tuple", w);
    // two tuples
    Tu u    = mk<Tu>(base + 1);
    auto LU = list(u);
    auto f2 = [](auto const &x, auto const &y, string r) { return r + "<" + str(x) + "|" + str(y); };
    fw      = "i";
    std::vector<string> LZ;
    for (int i = 0; i < n; ++i) fw += "<" + L[i] + "|" + LU[i], LZ.push_back(L[i] + "|" + LU[i]);
    ex::check(tt::fold(f2, t, u, string("i")) == fw, "fold2", "fold over two tuples", w);
    if constexpr (n > 0) {
      got.clear(), tt::for_each_zip([&](auto const &x, auto const &y) { got.push_back(str(x) + "|" + str(y)); }, t, u), same(got, LZ, "for_each_zip" + w);
      auto mz = tt::map_on_zip([&](auto const &x, auto const &y) { return str(x) + "|" + str(y); }, t, u);
      static_assert(std::tuple_size_v<decltype(mz)> == n);
      same(list(mz), LZ, "map_on_zip" + w);
      auto m3 = tt::map_on_zip([&](auto const &x, auto const &y, auto const &z) { return str(x) + "|" + str(y) + "|" + str(z); }, t, u, t);
      auto L3 = LZ;
      for (int i = 0; i < n; ++i) L3[i] += "|" + L[i];
      same(list(m3), L3, "map_on_zip three" + w);
    }
    auto mp = tt::map([](auto const &x) { return "m" + str(x); }, t);
    static_assert(std::tuple_size_v<decltype(mp)> == n);
    auto LM = L;
    for (auto &x : LM) x = "m" + x;
    same(list(mp), LM, "map" + w);
    if constexpr (n > 0) {
      auto mr = tt::map([](auto const &x) { return "m" + str(x); }, ct);
      same(list(mr), LM, "map const" + w);
    }
    ex::check(elem::copies == 0, "no-copy", "reading the elements makes ", elem::copies, " copies", w);
    // printing
    std::ostringstream o, want;
    o << t;
    want << "(";
    for (int i = 0; i < n; ++i) want << (i ? "," : "") << L[i];
    want << ")";
    ex::check(o.str() == want.str(), "print", "a tuple is printed as ", o.str(), " instead of ", want.str());
    std::ostringstream o2;
    o2 << std::make_pair(base, string("x"));
    ex::check(o2.str() == ex::cat("(", base, ", x)"), "print", "a pair is printed as ", o2.str());
    same(list(t), L, "after" + w);
    // push, pop
    auto pb = tt::push_back(t, make<string>(7));
    auto LB = L;
    LB.push_back("h");
    same(list(pb), LB, "push_back" + w);
    auto pf = tt::push_front(t, 5);
    auto LF = L;
    LF.insert(LF.begin(), "5");
    same(list(pf), LF, "push_front" + w);
    if constexpr (n > 0) {
      auto pp = tt::pop_front(t);
      same(list(pp), std::vector<string>(L.begin() + 1, L.end()), "pop_front" + w);
    }
    auto rp = tt::make_tuple_repeat<n>(string("r"));
    same(list(rp), std::vector<string>(n, "r"), "make_tuple_repeat" + w);
    same(list(t), L, "after" + w);
  });
}
JOB_SHARDED(modify, 12) { // through references, and by moving
  with_tuple([](auto tg) {
    using Tu        = typename decltype(tg)::type;
    constexpr int n = std::tuple_size_v<Tu>;
    int what        = ex::choose(7);
    Tu t            = mk<Tu>();
    auto L          = list(t);
    ex::step();
    ex::state(ex::hash(ex::cat(n, typeid(Tu).name(), what)));
    string w     = ex::cat(" on ", flat(L));
    elem::copies = 0;
    int i        = 0;
    auto set     = [&]<typename T>(T &x) { x = make<T>(5 + i++); };
    auto want    = list(mk<Tu>(5));
    if (what == 0) tt::for_each(t, set), same(list(t), want, "for_each modifying" + w);
    if (what == 1) {
      tt::for_each(reverse(t), set);
      std::vector<string> r;
      [&]<size_t... I>(std::index_sequence<I...>) { (r.push_back(str(make<std::tuple_element_t<I, Tu>>(5 + n - 1 - I))), ...); }(std::make_index_sequence<n>{});
      same(list(t), r, "for_each reverse modifying" + w);
    }
    if (what == 2) tt::for_each_enumerate(t, [&]<typename T>(int k, T &x) { x = make<T>(5 + k); }), same(list(t), want, "for_each_enumerate modifying" + w);
    if constexpr (n > 0) {
      if (what == 3) tt::apply([&](auto &...x) { (set(x), ...); }, t), same(list(t), want, "apply modifying" + w);
      if (what == 4) {
        Tu u = mk<Tu>(1);
        tt::for_each_zip([&](auto &x, auto &y) { std::swap(x, y); }, t, u);
        same(list(u), L, "for_each_zip swapping" + w), same(list(t), list(mk<Tu>(1)), "for_each_zip swapping" + w);
      }
    }
    if (what == 5) { // apply on a temporary moves the elements
      std::vector<string> got;
      tt::apply([&](auto &&...x) { (got.push_back(str(std::decay_t<decltype(x)>(std::forward<decltype(x)>(x)))), ...); }, std::move(t));
      same(got, L, "apply moving" + w);
      ex::check(elem::copies == 0, "no-copy", "apply on a temporary copies", w);
    }
    if (what == 6) {
      auto m = tt::push_back(std::move(t), 1);
      auto B = L;
      B.push_back("1");
      same(list(m), B, "push_back moving" + w);
      ex::check(elem::copies == 0, "no-copy", "push_back of a temporary copies", w);
    }
  });
  ex::check(elem::live == 0, "leak", "elements are lost");
}
// every subset of positions of a tuple of length 4 for filter, filter_out and replace
template <int mask, int n, typename F> static void with_subset(F f) {
  constexpr int k = std::popcount((unsigned)mask);
  [&]<size_t... I>(std::index_sequence<I...>) {
    constexpr auto pos = [] {
      std::array<int, n + 1> r{};
      int c = 0;
      for (int i = 0; i < n; ++i)
        if (mask & (1 << i)) r[c++] = i;
      return r;
    }();
    f(std::integer_sequence<int, pos[I]...>{});
  }(std::make_index_sequence<k>{});
}
template <typename Tu, int mask> static void subset() {
  constexpr int n = std::tuple_size_v<Tu>;
  with_subset<mask, n>([]<int... I>(std::integer_sequence<int, I...>) {
    Tu t   = mk<Tu>();
    auto L = list(t);
    std::vector<string> in, out, rep = L;
    for (int i = 0; i < n; ++i) (mask & (1 << i) ? in : out).push_back(L[i]);
    ((rep[I] = "X"), ...);
    string w = ex::cat(" of positions ", mask, " (bits) of ", flat(L));
    ex::step();
    ex::state(ex::hash(w));
    same(list(tt::filter<size_t(I)...>(t)), in, "filter" + w);
    same(list(tt::filter(t, std::index_sequence<size_t(I)...>{})), in, "filter by sequence" + w);
    same(list(tt::filter_out<I...>(t)), out, "filter_out" + w);
    static_assert(std::is_same_v<tt::filter_out_t<Tu, I...>, std::decay_t<decltype(tt::filter_out<I...>(t))>>);
    same(list(tt::replace<I...>(t, string("X"))), rep, "replace" + w);
    same(list(t), L, "after" + w);
  });
}
JOB(subsets) {
  [&]<size_t... M>(std::index_sequence<M...>) {
    int m = ex::choose(sizeof...(M)), ty = ex::choose(3);
    ((m == int(M) ? (ty == 0 ? subset<std::tuple<int, string, double, elem>, M>() : ty == 1 ? subset<std::tuple<string, string, string, string>, M>() : subset<std::tuple<elem, int, elem, int>, M>()) : void()), ...);
  }(std::make_index_sequence<16>{});
}
JOB(construct) {
  struct agg {
    int a;
    string b;
    double c;
  };
  struct cls {
    string s;
    cls(int a, string b, double c) : s(ex::cat(a, b, c)) {}
  };
  int base = ex::choose(3), how = ex::choose(2);
  auto t = mk<std::tuple<int, string, double>>(base);
  ex::step();
  ex::state(base * 2 + how);
  if (how == 0) {
    auto a = tt::apply_construct<agg>(t);
    ex::check(a.a == 10 + base && a.b == make<string>(base + 1) && a.c == base + 2.5, "construct", "apply_construct");
    auto v = tt::apply_construct<std::vector<int>>(std::make_tuple(base, 7));
    ex::check(v == std::vector<int>{base, 7}, "construct", "apply_construct uses braces");
  } else {
    auto a = tt::apply_construct_parenthesis<cls>(t);
    ex::check(a.s == ex::cat(10 + base, make<string>(base + 1), base + 2.5), "construct", "apply_construct_parenthesis");
    auto v = tt::apply_construct_parenthesis<std::vector<int>>(std::make_tuple(base + 1, 7));
    ex::check(v == std::vector<int>(base + 1, 7), "construct", "apply_construct_parenthesis uses parentheses");
  }
  // move only elements
  auto p = tt::apply([](std::unique_ptr<int> a, std::unique_ptr<int> b) { return *a + 10 * *b; }, mk<std::tuple<std::unique_ptr<int>, std::unique_ptr<int>>>(base));
  ex::check(p == base + 10 * (base + 1), "construct", "apply on move only elements");
}
// ------------------------------------------------------------------------- serialization of tuples
struct oarch {
  std::vector<string> *s;
  template <typename T> oarch &operator&(T &x) {
    s->push_back(str(x));
    return *this;
  }
};
struct iarch {
  int i = 0;
  template <typename T> iarch &operator&(T &x) {
    x = make<T>(++i);
    return *this;
  }
};
JOB(serialize) {
  int c    = ex::choose(4);
  auto run = [](auto t) {
    using Tu = decltype(t);
    std::vector<string> s;
    oarch o{&s};
    boost::serialization::serialize(o, t, 0u);
    same(s, list(t), "serialize writes");
    iarch i;
    boost::serialization::serialize(i, t, 0u);
    same(list(t), list(mk<Tu>(1)), "serialize reads");
    ex::step();
  };
  ex::state(c);
  if (c == 0) run(mk<std::tuple<int>>());
  if (c == 1) run(mk<std::tuple<int, string>>());
  if (c == 2) run(mk<std::tuple<elem, double, int>>());
  if (c == 3) run(mk<std::tuple<char, string, double, elem, int>>());
}
// ------------------------------------------------------------------------- variants
JOB(variants) {
  using V = std::variant<long, string>;
  std::vector<V> alphabet{0l, -3l, 42l, string(""), string("up"), string("7"), string("a b")};
  auto pr = [](V const &v) { return v.index() == 0 ? std::to_string(std::get<0>(v)) : std::get<1>(v); };
  int n   = ex::choose(4);
  std::vector<V> fs;
  string want;
  for (int i = 0; i < n; ++i) {
    fs.push_back(ex::pick(alphabet));
    want += (i ? "," : "") + pr(fs.back());
  }
  ex::step();
  ex::state(ex::hash(want) + n);
  std::ostringstream o;
  using std::operator<<;
  o << fs;
  ex::check(o.str() == want, "variant-print", "printed ", o.str(), " instead of ", want);
  for (auto &v : fs) {
    std::ostringstream p;
    p << v;
    ex::check(p.str() == pr(v) && std::to_string(v) == pr(v), "variant-print", "variant printed ", p.str(), " instead of ", pr(v));
  }
  ex::check(std::to_string(string("xy")) == "xy", "variant-print", "to_string of a string");
  std::variant<int, double, char, string> w;
  w = 2.5;
  std::ostringstream q;
  q << w;
  w = 'c';
  q << w;
  w = 3;
  q << w;
  w = string("s");
  q << w;
  ex::check(q.str() == "2.5c3s", "variant-print", "variant of four types printed as ", q.str());
}
// ------------------------------------------------------------------------- signatures
struct fo1 {
  double operator()(int, double const &, string &&) const { return 0; }
};
struct fo2 {
  void operator()() {}
};
struct fo3 {
  elem &operator()(elem *, const char (&)[3], elem const) { throw 1; }
};
template <typename F, typename R, typename... A> static void sig(F const &, string const &what) {
  using S = triqs::utility::function_arg_ret_type<F>;
  ex::check(S::arity == sizeof...(A), "signature", "arity of ", what);
  ex::check(std::is_same_v<typename S::result_type, R>, "signature", "result type of ", what);
  [&]<size_t... I>(std::index_sequence<I...>) {
    ex::check((true && ... && std::is_same_v<typename S::template arg<I>::type, std::tuple_element_t<I, std::tuple<A...>>>), "signature", "argument types of ", what);
    ex::check((true && ... && std::is_same_v<typename S::template decay_arg<I>::type, std::decay_t<std::tuple_element_t<I, std::tuple<A...>>>>), "signature", "decayed argument types of ", what);
  }(std::make_index_sequence<sizeof...(A)>{});
  ex::step();
}
JOB(signatures) {
  ex::state(1);
  sig<fo1, double, int, double const &, string &&>({}, "const operator");
  sig<fo2, void>({}, "operator without arguments");
  sig<fo3, elem &, elem *, const char (&)[3], elem>({}, "mutable operator");
  int x   = 0;
  auto l0 = [] {};
  auto l1 = [x](long a, long &b) mutable { return &b; };
  auto l2 = [&](std::vector<int> const &, int, int, int, int) -> std::vector<int> const & { throw 1; };
  sig<decltype(l0), void>(l0, "lambda");
  sig<decltype(l1), long *, long, long &>(l1, "mutable lambda");
  sig<decltype(l2), std::vector<int> const &, std::vector<int> const &, int, int, int, int>(l2, "lambda of five arguments");
  sig<std::function<char(double)>, char, double>({}, "std::function");
}
// ------------------------------------------------------------------------- brackets
struct grid3 {
  int d[24];
  grid3() {
    for (int i = 0; i < 24; ++i) d[i] = 100 + i;
  }
  int &_call(int i, int j, int k) { return d[6 * i + 2 * j + k]; }
  template <typename T> decltype(auto) operator[](T &&x) {
    return triqs::utility::make_lazy_bracket<3>([this](auto &&...y) -> decltype(auto) { return this->_call(y...); }, x);
  }
};
struct grid2 {
  string _call(string const &a, long b) const { return a + std::to_string(b); }
  template <typename T> decltype(auto) operator[](T &&x) const {
    return triqs::utility::make_lazy_bracket<2>([this](auto &&...y) -> decltype(auto) { return this->_call(y...); }, x);
  }
};
struct grid1 {
  int d[4] = {7, 8, 9, 10};
  template <typename T> decltype(auto) operator[](T &&x) {
    return triqs::utility::make_lazy_bracket<1>([this](auto &&...y) -> decltype(auto) { return (this->d[y], ...); }, x);
  }
};
JOB(brackets) {
  grid3 g;
  int i = ex::choose(4), j = ex::choose(3), k = ex::choose(2), n = ex::choose(3);
  ex::step();
  ex::state(((i * 3 + j) * 2 + k) * 3 + n);
  ex::check(g[i][j][k] == 100 + 6 * i + 2 * j + k, "bracket", "g[", i, "][", j, "][", k, "] is ", int(g[i][j][k]));
  g[i][j][k] += 1000;
  int s = 0;
  for (int m = 0; m < 24; ++m) s += (g.d[m] != 100 + m);
  ex::check(g.d[6 * i + 2 * j + k] == 1100 + 6 * i + 2 * j + k && s == 1, "bracket", "assignment through g[", i, "][", j, "][", k, "]");
  grid2 h;
  string a(n, 'z');
  ex::check(h[a][long(i)] == a + std::to_string(i), "bracket", "two brackets of different types give ", string(h[a][long(i)]));
  grid1 o;
  o[i] = 5;
  ex::check(o.d[i] == 5 && o.d[(i + 1) % 4] == 7 + (i + 1) % 4, "bracket", "one bracket");
}
// ------------------------------------------------------------------------- dressed iterators
struct cont {
  typedef std::map<double, int> m_t;
  m_t m;
  struct _cdress {
    double const &tau;
    int const &a;
    _cdress(m_t::const_iterator const &it) : tau(it->first), a(it->second) {}
  };
  struct _dress {
    double const &tau;
    int &a;
    _dress(m_t::iterator const &it) : tau(it->first), a(it->second) {}
  };
  struct _adress {
    double const &tau;
    int const &a;
    m_t const *c;
    _adress(m_t::const_iterator const &it, m_t const *mm) : tau(it->first), a(it->second), c(mm) {}
  };
  using cit = triqs::utility::dressed_iterator<m_t::const_iterator, _cdress>;
  using it  = triqs::utility::dressed_iterator<m_t::iterator, _dress>;
  using ait = triqs::utility::dressed_iterator<m_t::const_iterator, _adress, m_t const>;
};
template <typename I, typename Begin, typename End> static void walk(cont &c, cont &other, Begin begin, End end, bool mut, int depth) {
  // two iterators into containers of known keys; every walk of ++, --, post-increments, assignments, swaps and reads
  std::vector<double> K;
  for (auto &p : c.m) K.push_back(p.first);
  int n = K.size();
  I a = begin(c), b = end(c);
  int pa = 0, pb = n;
  string tr = ex::cat(n, " elements:");
  auto value = [&](I const &x, int p, string const &what) {
    ex::check((x == end(c)) == (p == n) && (x != end(c)) == (p != n) && (x == begin(c)) == (p == 0), "walk-compare", "after", tr, ": comparison of ", what, " with the ends");
    if (p < n) {
      ex::check((*x).tau == K[p] && (*x).a == c.m[K[p]] && x->tau == K[p] && x.get()->first == K[p], "walk-value", "after", tr, ": ", what, " points to ", (*x).tau, " instead of ", K[p]);
      ex::check(&(*x).tau == &c.m.find(K[p])->first, "walk-copy", "the dressed element is a copy");
      if constexpr (std::is_same_v<I, cont::ait>) ex::check((*x).c == &c.m && x.get_aux() == &c.m, "walk-aux", "after", tr, ": auxiliary pointer of ", what);
    }
  };
  for (int d = 0; d < depth; ++d) {
    int op = ex::choose(9);
    tr += ex::cat(" ", op);
    ex::step();
    if (op == 0) {
      if (pa == n) return;
      ex::check(&++a == &a, "walk-return", "++ does not return the iterator"), ++pa;
    } else if (op == 1) {
      if (pa == 0) return;
      --a, --pa;
    } else if (op == 2) {
      if (pa == n) return;
      I o = a++;
      value(o, pa, "the result of a++");
      ++pa;
    } else if (op == 3) {
      if (pa == 0) return;
      I o = a--;
      value(o, pa, "the result of a--");
      --pa;
    } else if (op == 4) b = a, pb = pa;
    else if (op == 5) {
      I o = b;
      a   = std::move(o);
      pa  = pb;
    } else if (op == 6) std::swap(a, b), std::swap(pa, pb);
    else if (op == 7) {
      if (pa == n) return;
      if constexpr (std::is_same_v<I, cont::it>) {
        int v = c.m[K[pa]] * 2 + 1;
        (*a).a = v;
        ex::check(c.m[K[pa]] == v, "walk-write", "writing through a dressed element does not change the container");
        a->a += 1;
        ex::check(c.m[K[pa]] == v + 1, "walk-write", "writing through -> does not change the container");
      }
    } else {
      // the rest of the container by a range loop
      std::vector<double> got;
      for (I x = a; x != end(c); ++x) got.push_back(x->tau);
      ex::check(got == std::vector<double>(K.begin() + pa, K.end()), "walk-loop", "after", tr, ": a loop visits ", got.size(), " elements instead of ", n - pa);
      ex::check(std::distance(a, end(c)) == n - pa, "walk-loop", "distance");
    }
    value(a, pa, "a"), value(b, pb, "b");
    ex::check((a == b) == (pa == pb), "walk-compare", "after", tr, ": a == b");
    if (ex::seen(ex::mix(n, pa * 64 + pb), depth - d) && op != 7) return;
  }
}
JOB_SHARDED(dressed, 4) {
  int n = ex::choose(4), kind = ex::choose(3), depth = ex::tier(6, 8);
  cont c, other;
  for (int i = 0; i < n; ++i) c.m[1.5 * i - 1] = 10 + i;
  if (kind == 0) walk<cont::cit>(c, other, [](cont &c) { return cont::cit(c.m.cbegin()); }, [](cont &c) { return cont::cit(c.m.cend()); }, false, depth);
  if (kind == 1) walk<cont::it>(c, other, [](cont &c) { return cont::it(c.m.begin()); }, [](cont &c) { return cont::it(c.m.end()); }, true, depth);
  if (kind == 2) walk<cont::ait>(c, other, [](cont &c) { return cont::ait(c.m.cbegin(), &c.m); }, [](cont &c) { return cont::ait(c.m.cend(), &c.m); }, false, depth);
}
// ------------------------------------------------------------------------- concepts and names
TRIQS_DEFINE_CONCEPT_AND_ASSOCIATED_TRAIT(Base1);
TRIQS_DEFINE_CONCEPT_AND_ASSOCIATED_TRAIT(Base2);
TRIQS_DEFINE_CONCEPT_AND_ASSOCIATED_TRAIT_R(Derived12, (Base1)(Base2));
struct isb1 : TRIQS_CONCEPT_TAG_NAME(Base1) {};
struct isd : TRIQS_CONCEPT_TAG_NAME(Derived12) {};
struct isnone {};
struct foo_named {};
JOB(concepts) {
  ex::state(1), ex::step();
  ex::check(Base1<isb1>::value && !Base2<isb1>::value && !Derived12<isb1>::value, "concept", "a model of one concept");
  ex::check(Base1<isd>::value && Base2<isd>::value && Derived12<isd>::value, "concept", "a model of a refined concept");
  ex::check(!Base1<isnone>::value && !Base1<int>::value && !Derived12<isnone>::value, "concept", "no model");
  ex::check(Base1<isb1 const>::value && Base1<isb1 &>::value && Base1<isb1 const &>::value && Base1<isb1 &&>::value && Base1_v<isb1 const &> && !Base1_v<isnone const &> && Derived12<isd const &>::value && !Derived12<isb1 const &>::value, "concept", "references and const");
  ex::check(triqs::utility::typeid_name<int>() == "int" && triqs::utility::typeid_name(2.5) == "double" && triqs::utility::typeid_name<foo_named>() == "foo_named" && triqs::utility::get_name(typeid(std::pair<int, char>)) == "std::pair<int, char>", "typeid-name", "names of types: ", triqs::utility::typeid_name<foo_named>(), " ", triqs::utility::get_name(typeid(std::pair<int, char>)));
  ex::check(triqs::utility::demangle("not a mangled name") == "not a mangled name" && triqs::utility::demangle(string(typeid(std::vector<long>).name())).substr(0, 16) == "std::vector<long", "typeid-name", "demangle");
}
