#include "bridge.hpp"
#include <cstdlib>
#include <cstring>
#include <map>
#include <node_api.h>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

int web_main(int, char**);

namespace em
{
  // tables of the bridge itself are no blocks of the program under test
  template <typename T> struct raw
  {
    using value_type = T;
    raw() = default; template <typename U> raw(raw<U> const&) { }
    T* allocate(std::size_t n) { return static_cast<T*>(std::malloc(n * sizeof(T))); }
    void deallocate(T* p, std::size_t) { std::free(p); }
    bool operator==(raw const&) const { return true; }
  };
  template <typename K, typename V> using table = std::map<K, V, std::less<K>, raw<std::pair<K const, V>>>;

  napi_env env;
  napi_ref root;              // the object prelude.js returns
  std::exception_ptr pending; // a C++ exception on its way through JavaScript frames

  struct scope
  {
    napi_handle_scope s;
    scope() { napi_open_handle_scope(env, &s); }
    ~scope() { napi_close_handle_scope(env, s); }
  };

  static napi_value number(double d) { napi_value v; napi_create_double(env, d, &v); return v; }
  static napi_value string(char const* p, std::size_t n) { napi_value v; napi_create_string_utf8(env, p, n, &v); return v; }
  static std::string utf8(napi_value v)
  {
    std::size_t n = 0;
    if (napi_get_value_string_utf8(env, v, nullptr, 0, &n) != napi_ok) return {};
    std::string s(n, '\0');
    napi_get_value_string_utf8(env, v, s.data(), n + 1, &n);
    return s;
  }

  [[noreturn]] static void raise()
  {
    bool is = false; napi_is_exception_pending(env, &is);
    napi_value e = nullptr;
    if (is) napi_get_and_clear_last_exception(env, &e);
    if (pending) { auto p = std::exchange(pending, nullptr); std::rethrow_exception(p); }
    std::string what = "JavaScript exception";
    if (e)
    {
      napi_value t;
      if (napi_coerce_to_string(env, e, &t) == napi_ok) what = utf8(t);
      else napi_get_and_clear_last_exception(env, &e);
    }
    throw js_error(what);
  }

  static napi_value ref_value(napi_ref r) { napi_value v; napi_get_reference_value(env, r, &v); return v; }

  static napi_ref member(char const* name)
  {
    struct less { bool operator()(char const* a, char const* b) const { return strcmp(a, b) < 0; } };
    static std::map<char const*, napi_ref, less, raw<std::pair<char const* const, napi_ref>>> known;
    auto i = known.find(name);
    if (i != known.end()) return i->second;
    scope s; napi_value v; napi_ref r;
    napi_get_named_property(env, ref_value(root), name, &v);
    napi_valuetype t; napi_typeof(env, v, &t);
    if (t != napi_function) { fprintf(stderr, "prelude.js has no %s\n", name); abort(); }
    napi_create_reference(env, v, 1, &r);
    return known[name] = r;
  }

  static napi_value invoke(napi_ref f, std::vector<napi_value> const& a)
  {
    napi_value r, g;
    napi_get_undefined(env, &g);
    if (napi_call_function(env, g, ref_value(f), a.size(), a.data(), &r) != napi_ok) raise();
    return r;
  }

  static double to_double(napi_value v)
  {
    double d = 0;
    napi_valuetype t; napi_typeof(env, v, &t);
    if (t == napi_number) napi_get_value_double(env, v, &d);
    else if (t == napi_boolean) { bool b; napi_get_value_bool(env, v, &b); d = b; }
    return d;
  }

  double run(char const* code, as, std::initializer_list<double> args)
  {
    static table<char const*, napi_ref> compiled;
    scope s;
    auto i = compiled.find(code);
    if (i == compiled.end())
    {
      napi_value f = invoke(member("compile"), {string(code, strlen(code)), number(args.size())});
      napi_ref r; napi_create_reference(env, f, 1, &r);
      i = compiled.emplace(code, r).first;
    }
    std::vector<napi_value> a;
    for (double d : args) a.push_back(number(d));
    return to_double(invoke(i->second, a));
  }

  double call(char const* name, std::initializer_list<double> args)
  {
    scope s; std::vector<napi_value> a;
    for (double d : args) a.push_back(number(d));
    return to_double(invoke(member(name), a));
  }
  double call_s(char const* name, std::initializer_list<double> args, std::string const& t)
  {
    scope s; std::vector<napi_value> a;
    for (double d : args) a.push_back(number(d));
    a.push_back(string(t.data(), t.size()));
    return to_double(invoke(member(name), a));
  }
  std::string text(char const* name, std::initializer_list<double> args)
  {
    scope s; std::vector<napi_value> a;
    for (double d : args) a.push_back(number(d));
    return utf8(invoke(member(name), a));
  }

  int h_string(char const* p, std::size_t n) { scope s; return static_cast<int>(to_double(invoke(member("h_keep"), {string(p, n)}))); }
  int h_number(double d) { scope s; return static_cast<int>(to_double(invoke(member("h_keep"), {number(d)}))); }

  // how many C++ values share a table entry
  static std::vector<int, raw<int>>& counts() { static std::vector<int, raw<int>> c; return c; }
  static int live = 0;
  void h_incref(int h)
  {
    if (h < 4) return;
    if (counts().size() <= static_cast<unsigned>(h)) counts().resize(h + 1, 1);
    counts()[h]++;
  }
  void h_decref(int h)
  {
    if (h < 4) return;
    if (counts().size() <= static_cast<unsigned>(h)) counts().resize(h + 1, 1);
    if (--counts()[h] == 0) { counts()[h] = 1; call("h_drop", {double(h)}); }
  }
  int handles() { return static_cast<int>(call("h_count")); }

  double h_op(op o, int a, int b, std::initializer_list<int> args)
  {
    scope s;
    std::vector<napi_value> v{number(double(o)), number(a), number(b)};
    for (int x : args) v.push_back(number(x));
    return to_double(invoke(member("h_op"), v));
  }
  double h_to_number(int h) { return call("h_to_number", {double(h)}); }
  std::string h_to_string(int h) { return text("h_to_string", {double(h)}); }

  struct exported { std::function<double(double const*, std::size_t)> fn; };

  static napi_value trampoline(napi_env e, napi_callback_info info)
  {
    std::size_t n = 16; napi_value argv[16]; void* data;
    napi_get_cb_info(e, info, &n, argv, nullptr, &data);
    double a[16];
    for (std::size_t i = 0; i < n && i < 16; i++) a[i] = to_double(argv[i]);
    try { return number(static_cast<exported*>(data)->fn(a, n)); }
    catch (js_error const& x) { napi_throw_error(e, nullptr, x.what()); }
    catch (...) { pending = std::current_exception(); napi_throw_error(e, nullptr, "C++ exception"); }
    return nullptr;
  }

  void export_function(char const* name, std::function<double(double const*, std::size_t)> fn)
  {
    scope s; napi_value f;
    napi_create_function(env, name, strlen(name), trampoline, new exported{std::move(fn)}, &f);
    invoke(member("export_function"), {string(name, strlen(name)), f});
  }

  // memory: the pages JavaScript reads and writes through HEAPU8 and friends
  static napi_value peek(napi_env e, napi_callback_info info)
  {
    std::size_t n = 2; napi_value argv[2]; napi_get_cb_info(e, info, &n, argv, nullptr, nullptr);
    auto p = reinterpret_cast<unsigned char const*>(static_cast<std::uintptr_t>(to_double(argv[0])));
    std::size_t len = static_cast<std::size_t>(to_double(argv[1]));
    void* out; napi_value ab, u8;
    napi_create_arraybuffer(e, len, &out, &ab);
    if (len) memcpy(out, p, len);
    napi_create_typedarray(e, napi_uint8_array, len, ab, 0, &u8);
    return u8;
  }
  static napi_value poke(napi_env e, napi_callback_info info)
  {
    std::size_t n = 2; napi_value argv[2]; napi_get_cb_info(e, info, &n, argv, nullptr, nullptr);
    auto p = reinterpret_cast<unsigned char*>(static_cast<std::uintptr_t>(to_double(argv[0])));
    napi_typedarray_type t; std::size_t len; void* data; napi_value ab; std::size_t off;
    napi_get_typedarray_info(e, argv[1], &t, &len, &data, &ab, &off);
    if (len) memcpy(p, data, len);
    return nullptr;
  }
  static napi_value c_strlen(napi_env e, napi_callback_info info)
  {
    std::size_t n = 1; napi_value argv[1]; napi_get_cb_info(e, info, &n, argv, nullptr, nullptr);
    return number(strlen(reinterpret_cast<char const*>(static_cast<std::uintptr_t>(to_double(argv[0])))));
  }

  static table<void const*, int>& numbers() { static table<void const*, int> m; return m; }
  int handle_of(void const* p)
  {
    auto [i, fresh] = numbers().try_emplace(p, 0);
    if (fresh) i->second = 0x10000 + 8 * static_cast<int>(numbers().size());
    return i->second;
  }

  // V8 keeps its heap out of forked children (MADV_DONTFORK); the runner forks workers.
  static void keep_heap_in_children()
  {
    FILE* f = fopen("/proc/self/maps", "r");
    if (!f) return;
    char line[512]; std::vector<std::pair<std::uintptr_t, std::uintptr_t>> m;
    while (fgets(line, sizeof line, f))
    {
      unsigned long b, e; char perm[8];
      if (sscanf(line, "%lx-%lx %7s", &b, &e, perm) == 3 && perm[3] == 'p') m.push_back({b, e});
    }
    fclose(f);
    for (auto [b, e] : m) madvise(reinterpret_cast<void*>(b), e - b, MADV_DOFORK);
  }

  // main(argv, prelude)
  static napi_value start(napi_env e, napi_callback_info info)
  {
    env = e;
    pthread_atfork(keep_heap_in_children, nullptr, nullptr);
    std::size_t n = 2; napi_value argv[2]; napi_get_cb_info(e, info, &n, argv, nullptr, nullptr);
    napi_create_reference(e, argv[1], 1, &root);
    uint32_t len; napi_get_array_length(e, argv[0], &len);
    static std::vector<std::string> words; static std::vector<char*> ptrs;
    for (uint32_t i = 0; i < len; i++) { napi_value v; napi_get_element(e, argv[0], i, &v); words.push_back(utf8(v)); }
    for (auto& w : words) ptrs.push_back(w.data());
    ptrs.push_back(nullptr);
    int rc = 3;
    try { rc = web_main(static_cast<int>(words.size()), ptrs.data()); }
    catch (std::exception const& x) { fprintf(stderr, "%s\n", x.what()); }
    fflush(nullptr);
    _exit(rc);
  }

  static void def(napi_env e, napi_value o, char const* name, napi_callback cb)
  { napi_value f; napi_create_function(e, name, strlen(name), cb, nullptr, &f); napi_set_named_property(e, o, name, f); }
}

extern "C" __attribute__((visibility("default"))) napi_value napi_register_module_v1(napi_env e, napi_value exports)
{
  em::env = e;
  em::def(e, exports, "start", em::start);
  em::def(e, exports, "peek", em::peek);
  em::def(e, exports, "poke", em::poke);
  em::def(e, exports, "strlen", em::c_strlen);
  return exports;
}
