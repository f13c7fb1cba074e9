// A stand-in for emscripten: the JavaScript of EM_ASM blocks is run by V8 in the
// same process (see bridge.cpp and prelude.js).
#pragma once
#include <cstdint>
#include <initializer_list>
#include <type_traits>

#define EMSCRIPTEN_KEEPALIVE __attribute__((used))

namespace em
{
  enum class as { nothing, int32, number };
  double run(char const* code, as, std::initializer_list<double> args);

  template <typename T>
  double num(T const& t)
  {
    if constexpr (std::is_pointer_v<T>) return static_cast<double>(reinterpret_cast<std::uintptr_t>(t));
    else if constexpr (std::is_array_v<T>) return static_cast<double>(reinterpret_cast<std::uintptr_t>(&t[0]));
    else if constexpr (std::is_integral_v<T> && sizeof(T) <= 4) return static_cast<std::int32_t>(t);      // JavaScript sees an i32
    else return static_cast<double>(t);
  }
  inline int to_int32(double d)          // what becomes of a number that is returned as an i32
  {
    if (!(d - d == 0)) return 0;
    double m = __builtin_fmod(__builtin_trunc(d), 4294967296.0);
    return static_cast<int>(static_cast<std::uint32_t>(static_cast<std::int64_t>(m)));
  }
  template <typename ...A>
  int run_int(char const* code, A const& ...a) { return to_int32(run(code, as::int32, {num(a)...})); }
  template <typename ...A>
  double run_double(char const* code, A const& ...a) { return run(code, as::number, {num(a)...}); }
  template <typename ...A>
  void* run_ptr(char const* code, A const& ...a) { return reinterpret_cast<void*>(static_cast<std::uintptr_t>(run(code, as::number, {num(a)...}))); }
  int handle_of(void const*);
}

#define EM_ASM(code, ...)        ::em::run_int(#code __VA_OPT__(,) __VA_ARGS__)
#define EM_ASM_(code, ...)       ::em::run_int(#code __VA_OPT__(,) __VA_ARGS__)
#define EM_ASM_ARGS(code, ...)   ::em::run_int(#code __VA_OPT__(,) __VA_ARGS__)
#define EM_ASM_INT(code, ...)    ::em::run_int(#code __VA_OPT__(,) __VA_ARGS__)
#define EM_ASM_INT_V(code)       ::em::run_int(#code)
#define EM_ASM_DOUBLE(code, ...) ::em::run_double(#code __VA_OPT__(,) __VA_ARGS__)
#define EM_ASM_DOUBLE_V(code)    ::em::run_double(#code)
#define EM_ASM_PTR(code, ...)    ::em::run_ptr(#code __VA_OPT__(,) __VA_ARGS__)
#define MAIN_THREAD_EM_ASM(code, ...) EM_ASM(code __VA_OPT__(,) __VA_ARGS__)
#define MAIN_THREAD_EM_ASM_INT(code, ...) EM_ASM_INT(code __VA_OPT__(,) __VA_ARGS__)
