// Stand-in for the TRIQS h5 library: a thin layer over libhdf5 (files live in memory, by name, within the process).
#pragma once
#include <fstream>
#include <hdf5.h>
#include <array>
#include <complex>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <variant>
#include <vector>
#include <iostream>

namespace h5 {
  using dcomplex = std::complex<double>;
  using v_t      = std::vector<hsize_t>;

  inline void quiet() {
    static bool once = [] { H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); return true; }();
    (void)once;
  }

  // refcounted handle
  class object {
    protected:
    hid_t id = 0;

    public:
    object() { quiet(); }
    object(hid_t i) : id(i) {
      if (i < 0) throw std::runtime_error("h5 : invalid HDF5 id");
    }
    object(object const &o) : id(o.id) { if (id > 0 && H5Iis_valid(id) == 1) H5Iinc_ref(id); }
    object(object &&o) noexcept : id(o.id) { o.id = 0; }
    object &operator=(object const &o) { return *this = object(o); }
    object &operator=(object &&o) noexcept {
      std::swap(id, o.id);
      return *this;
    }
    ~object() { close(); }
    void close() {
      if (id > 0 && H5Iis_valid(id) == 1 && H5Iget_ref(id) > 0) H5Idec_ref(id);
      id = 0;
    }
    static object from_borrowed(hid_t i) {
      if (i > 0) H5Iinc_ref(i);
      return object(i);
    }
    operator hid_t() const { return id; }
    bool is_valid() const { return id > 0 && H5Iis_valid(id) == 1; }
  };
  using dataset = object;
  using dataspace = object;
  using datatype = object;
  using proplist = object;
  using attribute = object;

  namespace details {
    // "files" are kept in memory for the life of the process
    inline std::map<std::string, object> &fs() {
      static auto *m = new std::map<std::string, object>;
      return *m;
    }
  } // namespace details

  class file : public object {
    std::string name_;

    public:
    file() { *this = file("::anonymous::" + std::to_string((unsigned long)this), 'w'); }
    file(std::string const &name, char mode) : name_(name) {
      quiet();
      auto &fs = details::fs();
      auto it  = fs.find(name);
      if (mode == 'w' || (mode == 'a' && it == fs.end())) {
        object pl(H5Pcreate(H5P_FILE_ACCESS));
        H5Pset_fapl_core(pl, 1 << 16, false);
        H5Pset_libver_bounds(pl, H5F_LIBVER_LATEST, H5F_LIBVER_LATEST);
        static long n = 0;
        object f(H5Fcreate(("mem" + std::to_string(n++)).c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, pl));
        fs[name] = f;
        object::operator=(f);
      } else if (it == fs.end() && mode == 'r' && std::ifstream(name).good()) { // a file of the real file system: read only
        object f(H5Fopen(name.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT));
        object::operator=(f);
      } else if (it == fs.end())
        throw std::runtime_error("h5 : cannot open the file " + name);
      else
        object::operator=(it->second);
    }
    file(const char *name, char mode) : file(std::string(name), mode) {}
    std::string name() const { return name_; }
    void flush() {}
    static void remove(std::string const &n) { details::fs().erase(n); }
  };

  class group : public object {
    object parent_file;

    public:
    group() = default;
    group(file f) : object(H5Gopen2(f, "/", H5P_DEFAULT)), parent_file(f) {}
    group(object o) : object(o) {}
    std::string name() const {
      char b[1024] = {0};
      H5Iget_name(id, b, 1000);
      return b;
    }
    bool has_key(std::string const &k) const { return H5Lexists(id, k.c_str(), H5P_DEFAULT) > 0; }
    bool has_subgroup(std::string const &k) const {
      if (!has_key(k)) return false;
      object o(H5Oopen(id, k.c_str(), H5P_DEFAULT));
      return H5Iget_type(o) == H5I_GROUP;
    }
    bool has_dataset(std::string const &k) const {
      if (!has_key(k)) return false;
      object o(H5Oopen(id, k.c_str(), H5P_DEFAULT));
      return H5Iget_type(o) == H5I_DATASET;
    }
    void unlink(std::string const &k, bool error_if_absent = false) const {
      if (!has_key(k)) {
        if (error_if_absent) throw std::runtime_error("h5 : no key " + k);
        return;
      }
      H5Ldelete(id, k.c_str(), H5P_DEFAULT);
    }
    group open_group(std::string const &k) const {
      if (k.empty()) return *this;
      if (!has_key(k)) throw std::runtime_error("h5 : no subgroup " + k + " in the group");
      if (!has_subgroup(k)) throw std::runtime_error("h5 : " + k + " is not a group");
      return object(H5Gopen2(id, k.c_str(), H5P_DEFAULT));
    }
    group create_group(std::string const &k, bool delete_if_exists = true) const {
      if (k.empty()) return *this;
      if (delete_if_exists) unlink(k);
      if (has_key(k)) return open_group(k);
      return object(H5Gcreate2(id, k.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
    }
    object open_dataset(std::string const &k) const {
      if (!has_key(k)) throw std::runtime_error("h5 : no dataset " + k + " in the group");
      if (!has_dataset(k)) throw std::runtime_error("h5 : " + k + " is not a dataset");
      return object(H5Dopen2(id, k.c_str(), H5P_DEFAULT));
    }
    object create_dataset(std::string const &k, hid_t ty, hid_t sp) const {
      unlink(k);
      return object(H5Dcreate2(id, k.c_str(), ty, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
    }
    private:
    static herr_t cb(hid_t, const char *n, const H5L_info_t *, void *d) {
      ((std::vector<std::string> *)d)->push_back(n);
      return 0;
    }
    public:
    std::vector<std::string> get_all_subgroup_dataset_names() const {
      std::vector<std::string> v;
      H5Literate(id, H5_INDEX_NAME, H5_ITER_INC, nullptr, cb, &v);
      return v;
    }
    std::vector<std::string> get_all_subgroup_names() const {
      std::vector<std::string> r;
      for (auto &k : get_all_subgroup_dataset_names())
        if (has_subgroup(k)) r.push_back(k);
      return r;
    }
    std::vector<std::string> get_all_dataset_names() const {
      std::vector<std::string> r;
      for (auto &k : get_all_subgroup_dataset_names())
        if (has_dataset(k)) r.push_back(k);
      return r;
    }
  };

  // ---------------------------------------------------------- native types
  template <typename T> constexpr bool is_num = std::is_arithmetic_v<T>;
  template <typename T> struct is_cplx : std::false_type {};
  template <typename T> struct is_cplx<std::complex<T>> : std::true_type {};
  template <typename T> hid_t native() {
    if constexpr (std::is_same_v<T, bool>) return H5T_NATIVE_HBOOL;
    else if constexpr (std::is_same_v<T, float>) return H5T_NATIVE_FLOAT;
    else if constexpr (std::is_same_v<T, double>) return H5T_NATIVE_DOUBLE;
    else if constexpr (std::is_same_v<T, long double>) return H5T_NATIVE_LDOUBLE;
    else if constexpr (std::is_same_v<T, std::byte>) return H5T_NATIVE_UCHAR;
    else if constexpr (sizeof(T) == 1) return std::is_signed_v<T> ? H5T_NATIVE_SCHAR : H5T_NATIVE_UCHAR;
    else if constexpr (sizeof(T) == 2) return std::is_signed_v<T> ? H5T_NATIVE_SHORT : H5T_NATIVE_USHORT;
    else if constexpr (sizeof(T) == 4) return std::is_signed_v<T> ? H5T_NATIVE_INT : H5T_NATIVE_UINT;
    else return std::is_signed_v<T> ? H5T_NATIVE_LONG : H5T_NATIVE_ULONG;
  }
  inline datatype str_type() {
    datatype t(H5Tcopy(H5T_C_S1));
    H5Tset_size(t, H5T_VARIABLE);
    H5Tset_cset(t, H5T_CSET_UTF8);
    return t;
  }

  // ---------------------------------------------------------- raw blocks: datasets and attributes
  namespace details {
    inline dataspace make_space(std::vector<hsize_t> const &dims) {
      if (dims.empty()) return dataspace(H5Screate(H5S_SCALAR));
      return dataspace(H5Screate_simple(dims.size(), dims.data(), nullptr));
    }
    inline bool has_attr(hid_t o, std::string const &n) { return H5Aexists(o, n.c_str()) > 0; }
    inline void del_attr(hid_t o, std::string const &n) { if (has_attr(o, n)) H5Adelete(o, n.c_str()); }
    inline void attr_write_raw(hid_t o, std::string const &n, hid_t ty, std::vector<hsize_t> const &dims, void const *p) {
      del_attr(o, n);
      auto sp = make_space(dims);
      attribute a(H5Acreate2(o, n.c_str(), ty, sp, H5P_DEFAULT, H5P_DEFAULT));
      for (auto d : dims)
        if (d == 0) return; // nothing to write
      if (H5Awrite(a, ty, p) < 0) throw std::runtime_error("h5 : cannot write the attribute " + n);
    }
    inline void flag_complex(hid_t o) {
      const char *one = "1";
      auto t = str_type();
      attr_write_raw(o, "__complex__", t, {}, &one);
    }
    inline bool is_flag_complex(hid_t o) { return has_attr(o, "__complex__"); }
    inline std::vector<hsize_t> dims_of(hid_t sp) {
      int n = H5Sget_simple_extent_ndims(sp);
      std::vector<hsize_t> d(n);
      if (n > 0) H5Sget_simple_extent_dims(sp, d.data(), nullptr);
      return d;
    }
    inline void check_class(hid_t ty, bool want_string, std::string const &n) {
      bool is_string = H5Tget_class(ty) == H5T_STRING;
      auto cl        = H5Tget_class(ty);
      if (is_string != want_string || (!want_string && cl != H5T_INTEGER && cl != H5T_FLOAT && cl != H5T_ENUM && cl != H5T_BITFIELD))
        throw std::runtime_error("h5 : type mismatch reading " + n);
    }
    // contiguous C-ordered data
    template <typename T> void write_block(group const &g, std::string const &n, T const *p, std::vector<hsize_t> dims) {
      bool c = is_cplx<T>::value;
      if (c) dims.push_back(2);
      hid_t ty;
      if constexpr (is_cplx<T>::value) ty = native<typename T::value_type>();
      else ty = native<T>();
      auto sp = make_space(dims);
      auto ds = g.create_dataset(n, ty, sp);
      hsize_t tot = 1;
      for (auto d : dims) tot *= d;
      if (tot > 0 && H5Dwrite(ds, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, p) < 0) throw std::runtime_error("h5 : cannot write " + n);
      if (c) flag_complex(ds);
    }
    // returns the dims, without the complex one
    template <typename T> std::vector<hsize_t> block_dims(group const &g, std::string const &n, bool *file_complex = nullptr) {
      auto ds = g.open_dataset(n);
      auto d  = dims_of(dataspace(H5Dget_space(ds)));
      bool fc = is_flag_complex(ds);
      if (file_complex) *file_complex = fc;
      if (fc && !d.empty()) d.pop_back();
      return d;
    }
    template <typename T> void read_block(group const &g, std::string const &n, T *p) {
      auto ds = g.open_dataset(n);
      datatype ft(H5Dget_type(ds));
      check_class(ft, false, n);
      bool fc = is_flag_complex(ds);
      auto d  = dims_of(dataspace(H5Dget_space(ds)));
      hsize_t tot = 1;
      for (auto x : d) tot *= x;
      if (tot == 0) return;
      if constexpr (is_cplx<T>::value) {
        using R = typename T::value_type;
        if (fc) {
          if (H5Dread(ds, native<R>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, p) < 0) throw std::runtime_error("h5 : cannot read " + n);
        } else { // real data in a complex container
          std::vector<R> tmp(tot);
          if (H5Dread(ds, native<R>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, tmp.data()) < 0) throw std::runtime_error("h5 : cannot read " + n);
          for (hsize_t i = 0; i < tot; ++i) p[i] = tmp[i];
        }
      } else {
        if (fc) throw std::runtime_error("h5 : reading complex data into a real container: " + n);
        if (H5Dread(ds, native<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, p) < 0) throw std::runtime_error("h5 : cannot read " + n);
      }
    }
    inline void write_strings(group const &g, std::string const &n, std::vector<std::string> const &v, std::vector<hsize_t> dims) {
      auto ty = str_type();
      auto sp = make_space(dims);
      auto ds = g.create_dataset(n, ty, sp);
      std::vector<const char *> p;
      for (auto &s : v) p.push_back(s.c_str());
      if (!p.empty() && H5Dwrite(ds, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, p.data()) < 0) throw std::runtime_error("h5 : cannot write " + n);
    }
    // variable or fixed size strings
    template <typename F> std::vector<std::string> str_elements(hid_t file_type, hsize_t tot, std::string const &n, F read) {
      std::vector<std::string> r;
      if (tot == 0) return r;
      if (H5Tis_variable_str(file_type) > 0) {
        std::vector<char *> p(tot, nullptr);
        if (read(str_type(), p.data()) < 0) throw std::runtime_error("h5 : cannot read " + n);
        for (auto c : p) {
          r.push_back(c ? c : "");
          if (c) H5free_memory(c);
        }
      } else {
        size_t w = H5Tget_size(file_type);
        std::vector<char> buf(tot * w + 1, 0);
        if (read(file_type, buf.data()) < 0) throw std::runtime_error("h5 : cannot read " + n);
        for (hsize_t i = 0; i < tot; ++i) {
          std::string x(buf.data() + i * w, w);
          r.push_back(x.c_str());
        }
      }
      return r;
    }
    inline std::vector<std::string> read_strings(group const &g, std::string const &n, std::vector<hsize_t> &dims) {
      auto ds = g.open_dataset(n);
      datatype ft(H5Dget_type(ds));
      check_class(ft, true, n);
      dims        = dims_of(dataspace(H5Dget_space(ds)));
      hsize_t tot = 1;
      for (auto x : dims) tot *= x;
      return str_elements(ft, tot, n, [&](hid_t ty, void *buf) { return H5Dread(ds, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, buf); });
    }
  } // namespace details

  // ---------------------------------------------------------- attributes
  template <typename T> requires(is_num<T>) void h5_write_attribute(object o, std::string const &n, T const &x) { details::attr_write_raw(o, n, native<T>(), {}, &x); }
  template <typename T> requires(is_num<T>) void h5_read_attribute(object o, std::string const &n, T &x) {
    if (!details::has_attr(o, n)) throw std::runtime_error("h5 : no attribute " + n);
    attribute a(H5Aopen(o, n.c_str(), H5P_DEFAULT));
    datatype t(H5Aget_type(a));
    details::check_class(t, false, n);
    if (H5Aread(a, native<T>(), &x) < 0) throw std::runtime_error("h5 : cannot read attribute " + n);
  }
  inline void h5_write_attribute(object o, std::string const &n, std::string const &s) {
    auto t        = str_type();
    const char *p = s.c_str();
    details::attr_write_raw(o, n, t, {}, &p);
  }
  inline void h5_write_attribute(object o, std::string const &n, const char *s) { h5_write_attribute(o, n, std::string(s)); }
  inline std::vector<std::string> read_attr_strings(object o, std::string const &n, std::vector<hsize_t> &dims) {
    if (!details::has_attr(o, n)) throw std::runtime_error("h5 : no attribute " + n);
    attribute a(H5Aopen(o, n.c_str(), H5P_DEFAULT));
    datatype t(H5Aget_type(a));
    details::check_class(t, true, n);
    dims        = details::dims_of(dataspace(H5Aget_space(a)));
    hsize_t tot = 1;
    for (auto x : dims) tot *= x;
    return details::str_elements(t, tot, n, [&](hid_t ty, void *buf) { return H5Aread(a, ty, buf); });
  }
  inline void h5_read_attribute(object o, std::string const &n, std::string &s) {
    std::vector<hsize_t> d;
    s = read_attr_strings(o, n, d).at(0);
  }
  inline void h5_write_attribute(object o, std::string const &n, std::vector<std::string> const &v) {
    auto t = str_type();
    std::vector<const char *> p;
    for (auto &s : v) p.push_back(s.c_str());
    details::attr_write_raw(o, n, t, {p.size()}, p.data());
  }
  inline void h5_read_attribute(object o, std::string const &n, std::vector<std::string> &v) {
    std::vector<hsize_t> d;
    v = read_attr_strings(o, n, d);
  }
  // vector of vector of strings: a rectangular array padded with empty strings (as the real library)
  inline void h5_write_attribute(object o, std::string const &n, std::vector<std::vector<std::string>> const &v) {
    size_t w = 0;
    for (auto &x : v) w = std::max(w, x.size());
    auto t = str_type();
    std::vector<const char *> p;
    for (auto &x : v)
      for (size_t i = 0; i < w; ++i) p.push_back(i < x.size() ? x[i].c_str() : "");
    details::attr_write_raw(o, n, t, {v.size(), w}, p.data());
  }
  inline void h5_read_attribute(object o, std::string const &n, std::vector<std::vector<std::string>> &v) {
    std::vector<hsize_t> d;
    auto f = read_attr_strings(o, n, d);
    v.assign(d.at(0), std::vector<std::string>(d.at(1)));
    for (size_t i = 0; i < d[0]; ++i)
      for (size_t j = 0; j < d[1]; ++j) v[i][j] = f[i * d[1] + j];
  }
  template <typename T> void write_attribute(object o, std::string const &n, T const &x) { h5_write_attribute(o, n, x); }
  template <typename T> void read_attribute(object o, std::string const &n, T &x) { h5_read_attribute(o, n, x); }
  template <typename T> T read_attribute(object o, std::string const &n) {
    T x{};
    h5_read_attribute(o, n, x);
    return x;
  }

  // ---------------------------------------------------------- formats
  template <typename T, typename = void> struct hdf5_format_impl {
    static std::string invoke() { return T::hdf5_format(); }
  };
  template <> struct hdf5_format_impl<double> { static std::string invoke() { return "double"; } };
  template <> struct hdf5_format_impl<int> { static std::string invoke() { return "int"; } };
  template <> struct hdf5_format_impl<long> { static std::string invoke() { return "int"; } };
  template <> struct hdf5_format_impl<std::string> { static std::string invoke() { return "string"; } };
  template <> struct hdf5_format_impl<dcomplex> { static std::string invoke() { return "complex"; } };
  template <typename T> std::string get_hdf5_format() { return hdf5_format_impl<T>::invoke(); }
  template <typename T> std::string get_hdf5_format(T const &) { return hdf5_format_impl<T>::invoke(); }
  template <typename T> struct hdf5_format_impl<std::vector<T>> { static std::string invoke() { if constexpr (std::is_same_v<T, std::string>) return "vector<string>"; else return "List"; } };
  template <typename T> struct hdf5_format_impl<std::map<std::string, T>> { static std::string invoke() { return "Dict"; } };
  template <typename... T> struct hdf5_format_impl<std::tuple<T...>> { static std::string invoke() { return "PythonTupleWrap"; } };
  template <typename A, typename B> struct hdf5_format_impl<std::pair<A, B>> { static std::string invoke() { return "PythonTupleWrap"; } };
  inline void write_hdf5_format_as_string(object o, std::string const &s) { h5_write_attribute(o, "Format", s); }
  template <typename T> void write_hdf5_format(object o, T const &) { write_hdf5_format_as_string(o, get_hdf5_format<T>()); }
  inline std::string read_hdf5_format(object o) {
    std::string s;
    if (details::has_attr(o, "Format")) h5_read_attribute(o, "Format", s);
    else if (details::has_attr(o, "TRIQS_HDF5_data_scheme")) h5_read_attribute(o, "TRIQS_HDF5_data_scheme", s); // older archives
    return s;
  }
  inline void read_hdf5_format(object o, std::string &s) { s = read_hdf5_format(o); }
  inline std::string read_hdf5_format_from_key(group g, std::string const &k) { return read_hdf5_format(object(H5Oopen(g, k.c_str(), H5P_DEFAULT))); }
  inline void read_hdf5_format_from_key(group g, std::string const &k, std::string &s) { s = read_hdf5_format_from_key(g, k); }
  inline void assert_hdf5_format_as_string(group g, const char *tag, bool ignore_if_absent = false) {
    auto s = read_hdf5_format(g);
    if (ignore_if_absent && s.empty()) return;
    if (s != tag) throw std::runtime_error("h5_read : mismatch of the Format tag: found " + s + " expected " + tag);
  }
  template <typename T> bool has_hdf5_format(T const &) { return true; }
  template <typename T> void assert_hdf5_format(group g, T const &, bool ignore_if_absent = false) {
    assert_hdf5_format_as_string(g, get_hdf5_format<T>().c_str(), ignore_if_absent);
  }

  // ---------------------------------------------------------- generic read/write
  template <typename T> T h5_read(group g, std::string const &key) {
    if constexpr (requires { T::h5_read_construct(g, key); })
      return T::h5_read_construct(g, key);
    else {
      T x{};
      h5_read(g, key, x);
      return x;
    }
  }
  template <typename T> T read(group g, std::string const &key);
  template <typename T> void read(group g, std::string const &key, T &x);
  template <typename T> void write(group g, std::string const &key, T const &x);
  template <typename T> bool try_read(group g, std::string const &key, T &x);

  // scalars
  template <typename T> requires(is_num<T> || is_cplx<T>::value) void h5_write(group g, std::string const &n, T const &x) { details::write_block(g, n, &x, {}); }
  template <typename T> requires(is_num<T> || is_cplx<T>::value) void h5_read(group g, std::string const &n, T &x) {
    if constexpr (is_cplx<T>::value)
      if (g.has_subgroup(n)) { // older archives
        double re, im;
        auto gr = g.open_group(n);
        h5_read(gr, "r", re);
        h5_read(gr, "i", im);
        x = T(re, im);
        return;
      }
    auto d = details::block_dims<T>(g, n);
    if (!d.empty()) throw std::runtime_error("h5 : rank mismatch reading the scalar " + n);
    details::read_block(g, n, &x);
  }
  // strings
  inline void h5_write(group g, std::string const &n, std::string const &s) { details::write_strings(g, n, {s}, {}); }
  inline void h5_write(group g, std::string const &n, const char *s) { h5_write(g, n, std::string(s)); }
  inline void h5_read(group g, std::string const &n, std::string &s) {
    std::vector<hsize_t> d;
    auto v = details::read_strings(g, n, d);
    if (!d.empty() || v.size() != 1) throw std::runtime_error("h5 : rank mismatch reading the string " + n);
    s = v[0];
  }
  // vectors
  template <typename T> void h5_write(group g, std::string const &n, std::vector<T> const &v) {
    if constexpr (std::is_same_v<T, bool>) {
      std::vector<unsigned char> c(v.begin(), v.end());
      details::write_block(g, n, c.data(), {c.size()});
    } else if constexpr (is_num<T> || is_cplx<T>::value)
      details::write_block(g, n, v.data(), {v.size()});
    else if constexpr (std::is_same_v<T, std::string>)
      details::write_strings(g, n, v, {v.size()});
    else if constexpr (std::is_same_v<T, std::vector<std::string>>) {
      size_t w = 0;
      for (auto &x : v) w = std::max(w, x.size());
      std::vector<std::string> f;
      for (auto &x : v)
        for (size_t i = 0; i < w; ++i) f.push_back(i < x.size() ? x[i] : "");
      details::write_strings(g, n, f, {v.size(), w});
    } else {
      auto gr = g.create_group(n);
      write_hdf5_format(gr, v);
      for (size_t i = 0; i < v.size(); ++i) h5_write(gr, std::to_string(i), v[i]);
    }
  }
  template <typename T> void h5_read(group g, std::string const &n, std::vector<T> &v) {
    if constexpr (is_num<T> || is_cplx<T>::value) {
      auto d = details::block_dims<T>(g, n);
      if (d.size() != 1) throw std::runtime_error("h5 : rank mismatch reading the vector " + n);
      if constexpr (std::is_same_v<T, bool>) {
        std::vector<unsigned char> c(d[0]);
        details::read_block(g, n, c.data());
        v.assign(c.begin(), c.end());
      } else {
        v.resize(d[0]);
        details::read_block(g, n, v.data());
      }
    } else if constexpr (std::is_same_v<T, std::string>) {
      if (g.has_subgroup(n)) { // a list written by Python
        auto gr = g.open_group(n);
        v.resize(gr.get_all_subgroup_dataset_names().size());
        for (size_t i = 0; i < v.size(); ++i) h5_read(gr, std::to_string(i), v[i]);
        return;
      }
      std::vector<hsize_t> d;
      v = details::read_strings(g, n, d);
      if (d.size() != 1) throw std::runtime_error("h5 : rank mismatch reading the strings " + n);
    } else if constexpr (std::is_same_v<T, std::vector<std::string>>) {
      std::vector<hsize_t> d;
      auto f = details::read_strings(g, n, d);
      if (d.size() != 2) throw std::runtime_error("h5 : rank mismatch reading the strings " + n);
      v.assign(d[0], std::vector<std::string>(d[1]));
      for (size_t i = 0; i < d[0]; ++i)
        for (size_t j = 0; j < d[1]; ++j) v[i][j] = f[i * d[1] + j];
    } else {
      auto gr = g.open_group(n);
      v.resize(gr.get_all_subgroup_dataset_names().size());
      for (size_t i = 0; i < v.size(); ++i) h5_read(gr, std::to_string(i), v[i]);
    }
  }
  // arrays
  template <typename T, size_t N> void h5_write(group g, std::string const &n, std::array<T, N> const &v) {
    if constexpr (is_num<T> || is_cplx<T>::value)
      details::write_block(g, n, v.data(), {N});
    else
      h5_write(g, n, std::vector<T>(v.begin(), v.end()));
  }
  template <typename T, size_t N> void h5_read(group g, std::string const &n, std::array<T, N> &v) {
    std::vector<T> x;
    h5_read(g, n, x);
    if (x.size() != N) throw std::runtime_error("h5 : size mismatch reading the array " + n);
    std::copy(x.begin(), x.end(), v.begin());
  }
  // pair, tuple
  template <typename A, typename B> void h5_write(group g, std::string const &n, std::pair<A, B> const &p) {
    auto gr = g.create_group(n);
    write_hdf5_format(gr, p);
    h5_write(gr, "0", p.first);
    h5_write(gr, "1", p.second);
  }
  template <typename A, typename B> void h5_read(group g, std::string const &n, std::pair<A, B> &p) {
    auto gr = g.open_group(n);
    h5_read(gr, "0", p.first);
    h5_read(gr, "1", p.second);
  }
  template <typename... T> void h5_write(group g, std::string const &n, std::tuple<T...> const &t) {
    auto gr = g.create_group(n);
    write_hdf5_format(gr, t);
    [&]<size_t... I>(std::index_sequence<I...>) { (h5_write(gr, std::to_string(I), std::get<I>(t)), ...); }(std::index_sequence_for<T...>{});
  }
  template <typename... T> void h5_read(group g, std::string const &n, std::tuple<T...> &t) {
    auto gr = g.open_group(n);
    [&]<size_t... I>(std::index_sequence<I...>) { (h5_read(gr, std::to_string(I), std::get<I>(t)), ...); }(std::index_sequence_for<T...>{});
  }
  // map
  template <typename T> void h5_write(group g, std::string const &n, std::map<std::string, T> const &m) {
    auto gr = g.create_group(n);
    write_hdf5_format(gr, m);
    for (auto &[k, x] : m) h5_write(gr, k, x);
  }
  template <typename T> void h5_read(group g, std::string const &n, std::map<std::string, T> &m) {
    auto gr = g.open_group(n);
    m.clear();
    for (auto &k : gr.get_all_subgroup_dataset_names()) h5_read(gr, k, m[k]);
  }
  // optional
  template <typename T> void h5_write(group g, std::string const &n, std::optional<T> const &o) {
    if (o) h5_write(g, n, *o);
  }
  template <typename T> void h5_read(group g, std::string const &n, std::optional<T> &o) {
    o.reset();
    if (g.has_key(n)) {
      T x{};
      h5_read(g, n, x);
      o = x;
    }
  }
  // variant
  template <typename... T> void h5_write(group g, std::string const &n, std::variant<T...> const &v) {
    std::visit([&](auto const &x) { h5_write(g, n, x); }, v);
  }
  template <typename... T> void h5_read(group g, std::string const &n, std::variant<T...> &v) {
    bool ok = false;
    auto t  = [&]<typename U>(U *) {
      if (ok) return;
      if (g.has_subgroup(n)) {
        if constexpr (requires { U::hdf5_format(); })
          if (read_hdf5_format_from_key(g, n) != get_hdf5_format<U>()) return;
      }
      try {
        U x{};
        h5_read(g, n, x);
        v  = x;
        ok = true;
      } catch (...) {}
    };
    (t((T *)nullptr), ...);
    if (!ok) throw std::runtime_error("h5 : cannot read the variant " + n);
  }

  template <typename T> T read(group g, std::string const &key) { return h5_read<T>(g, key); }
  template <typename T> void read(group g, std::string const &key, T &x) { h5_read(g, key, x); }
  template <typename T> void write(group g, std::string const &key, T const &x) { h5_write(g, key, x); }
  template <typename T> void write(group g, std::string const &key, T const &x, bool) { h5_write(g, key, x); }
  template <typename T> bool try_read(group g, std::string const &key, T &x) {
    if (!g.has_key(key)) return false;
    h5_read(g, key, x);
    return true;
  }
  template <typename T> concept Storable = true;

  // ---- serialization: the image of an in-memory file
  template <typename T> std::vector<std::byte> serialize(T const &x) {
    object pl(H5Pcreate(H5P_FILE_ACCESS));
    H5Pset_fapl_core(pl, 1 << 16, false);
    static long n = 0;
    object f(H5Fcreate(("ser" + std::to_string(n++)).c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, pl));
    {
      group g{object(H5Gopen2(f, "/", H5P_DEFAULT))};
      h5_write(g, "object", x);
    }
    H5Fflush(f, H5F_SCOPE_LOCAL);
    auto sz = H5Fget_file_image(f, nullptr, 0);
    std::vector<std::byte> b(sz);
    H5Fget_file_image(f, b.data(), sz);
    return b;
  }
  template <typename T> T deserialize(std::vector<std::byte> const &b) {
    object pl(H5Pcreate(H5P_FILE_ACCESS));
    H5Pset_fapl_core(pl, 1 << 16, false);
    H5Pset_file_image(pl, (void *)b.data(), b.size());
    static long n = 0;
    object f(H5Fopen(("des" + std::to_string(n++)).c_str(), H5F_ACC_RDONLY, pl));
    group g{object(H5Gopen2(f, "/", H5P_DEFAULT))};
    return h5_read<T>(g, "object");
  }
} // namespace h5
