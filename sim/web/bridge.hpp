// V8 in the simulator's process: runs EM_ASM code and backs emscripten::val.
#pragma once
#include <emscripten.h>
#include <emscripten/val.h>
#include <exception>
#include <functional>
#include <stdexcept>
#include <string>

namespace em
{
  // what JavaScript threw through C++
  struct js_error : std::runtime_error { using std::runtime_error::runtime_error; };

  // a function JavaScript finds as Module[name] (and as a global)
  void export_function(char const* name, std::function<double(double const*, std::size_t)>);
  // calls a global function of prelude.js with numbers; the result is a number
  double call(char const* name, std::initializer_list<double> args = {});
  // the same with one string as the last argument
  double call_s(char const* name, std::initializer_list<double> args, std::string const&);
  // ... whose result is a string
  std::string text(char const* name, std::initializer_list<double> args = {});
  int handles();            // entries in the table of values
}
