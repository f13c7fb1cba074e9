#pragma once
#include "../emscripten.h"
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace em
{
  // one entry of the table of JavaScript values; 0..3 are undefined, null, true, false
  int h_string(char const*, std::size_t);
  int h_number(double);
  void h_incref(int);
  void h_decref(int);
  enum class op { global, module, get, set, call, apply, construct, type_of, equals, strictly, less, has_own, in, instance, remove, to_bool, is_array, object, array, is_number, is_string, await_, throw_ };
  double h_op(op, int a, int b, std::initializer_list<int> args);
  double h_to_number(int);
  std::string h_to_string(int);
}

namespace emscripten
{
  class val
  {
    int h;
    struct owned { };
    val(owned, int h) : h(h) { }
    static val own(double d) { return val(owned{}, static_cast<int>(d)); }

  public:
    val() : h(0) { }
    val(val const& o) : h(o.h) { em::h_incref(h); }
    val(val&& o) noexcept : h(std::exchange(o.h, 0)) { }
    val& operator=(val const& o) { em::h_incref(o.h); em::h_decref(h); h = o.h; return *this; }
    val& operator=(val&& o) noexcept { if (this != &o) { em::h_decref(h); h = std::exchange(o.h, 0); } return *this; }
    val& operator=(val& o) { return *this = static_cast<val const&>(o); }
    ~val() { em::h_decref(h); }

    template <typename T> requires (!std::is_same_v<std::decay_t<T>, val>)
    explicit val(T&& t) : h(0)
    {
      using X = std::decay_t<T>;
      if constexpr (std::is_same_v<X, bool>) h = t ? 2 : 3;
      else if constexpr (std::is_same_v<X, std::nullptr_t>) h = 1;
      else if constexpr (std::is_arithmetic_v<X> || std::is_enum_v<X>) h = em::h_number(static_cast<double>(t));
      else if constexpr (std::is_convertible_v<T, std::string_view>) { std::string_view s(t); h = em::h_string(s.data(), s.size()); }
      else static_assert(!sizeof(X*), "no conversion to a JavaScript value");
    }

    static val global(char const* name = nullptr) { return name ? own(em::h_op(em::op::global, val(name).h, 0, {})) : own(em::h_op(em::op::global, 0, 0, {})); }
    static val module_property(char const* name) { return own(em::h_op(em::op::module, val(name).h, 0, {})); }
    static val undefined() { return val(owned{}, 0); }
    static val null() { return val(owned{}, 1); }
    static val object() { return own(em::h_op(em::op::object, 0, 0, {})); }
    static val array() { return own(em::h_op(em::op::array, 0, 0, {})); }
    static val u8string(char const* s) { return val(s); }
    template <typename T> static val array(std::vector<T> const& v) { val a = array(); int i = 0; for (auto const& x : v) a.set(i++, x); return a; }

    template <typename T> static val to(T&& t) { if constexpr (std::is_same_v<std::decay_t<T>, val>) return val(static_cast<val const&>(t)); else return val(std::forward<T>(t)); }

    template <typename K> val operator[](K const& k) const { return own(em::h_op(em::op::get, h, to(k).h, {})); }
    template <typename K, typename V> void set(K const& k, V const& v) { em::h_op(em::op::set, h, to(k).h, {to(v).h}); }
    template <typename K> bool delete_(K const& k) const { return em::h_op(em::op::remove, h, to(k).h, {}); }

    template <typename R, typename ...A> R call(char const* name, A&& ...a) const
    { return call_with<R>(val(name), to(std::forward<A>(a))...); }
    template <typename ...A> val operator()(A&& ...a) const { return apply_with(to(std::forward<A>(a))...); }
    template <typename ...A> val new_(A&& ...a) const { return new_with(to(std::forward<A>(a))...); }

    template <typename R> R as() const
    {
      if constexpr (std::is_void_v<R>) return;
      else if constexpr (std::is_same_v<R, val>) return *this;
      else if constexpr (std::is_same_v<R, bool>) return em::h_op(em::op::to_bool, h, 0, {}) != 0;
      else if constexpr (std::is_arithmetic_v<R> || std::is_enum_v<R>) return static_cast<R>(em::h_to_number(h));
      else return R(em::h_to_string(h));
    }

    bool isNull() const { return h == 1; }
    bool isUndefined() const { return h == 0; }
    bool isTrue() const { return h == 2; }
    bool isFalse() const { return h == 3; }
    bool isNumber() const { return em::h_op(em::op::is_number, h, 0, {}); }
    bool isString() const { return em::h_op(em::op::is_string, h, 0, {}); }
    bool isArray() const { return em::h_op(em::op::is_array, h, 0, {}); }
    bool hasOwnProperty(char const* k) const { return em::h_op(em::op::has_own, h, val(k).h, {}); }
    bool equals(val const& o) const { return em::h_op(em::op::equals, h, o.h, {}); }
    bool strictlyEquals(val const& o) const { return em::h_op(em::op::strictly, h, o.h, {}); }
    bool operator==(val const& o) const { return equals(o); }
    bool operator!=(val const& o) const { return !equals(o); }
    bool operator!() const { return !as<bool>(); }
    bool instanceof(val const& o) const { return em::h_op(em::op::instance, h, o.h, {}); }
    bool in(val const& o) const { return em::h_op(em::op::in, h, o.h, {}); }
    val typeof() const { return own(em::h_op(em::op::type_of, h, 0, {})); }
    val typeOf() const { return own(em::h_op(em::op::type_of, h, 0, {})); }
    void throw_() const { em::h_op(em::op::throw_, h, 0, {}); }

  private:
    template <typename R, typename ...V> R call_with(val const& name, V const& ...v) const
    {
      val r = own(em::h_op(em::op::call, h, name.h, {v.h...}));
      if constexpr (!std::is_void_v<R>) return r.template as<R>();
    }
    template <typename ...V> val apply_with(V const& ...v) const { return own(em::h_op(em::op::apply, h, 0, {v.h...})); }
    template <typename ...V> val new_with(V const& ...v) const { return own(em::h_op(em::op::construct, h, 0, {v.h...})); }
  };
}
