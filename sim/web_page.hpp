// A page made of a random specification, the state it shows and an independent
// account of what it has to look like.
#pragma once
#include "core.hpp"
#include "web/bridge.hpp"
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <variant>
#include <vector>

namespace web
{
  // --- the state, as the account of the page keeps it
  struct row_m { std::string t; bool f = false; std::optional<std::string> o; int n = 0; };
  struct model
  {
    std::string s[3]; int n[2] = {}; bool b[3] = {}; std::optional<std::string> o[2];
    std::variant<std::monostate, std::string, int, bool> v[2]; std::vector<row_m> l[2];
    std::map<std::string, std::string> w;
  };

  // --- what the page has to be
  struct handler { uint64_t id; bool called; std::vector<std::string> args; bool file = false; };
  struct elem
  {
    std::string tag; std::map<std::string, std::string> attrs, props; std::set<std::string> classes;
    std::string body, text; std::vector<handler> clicks, files;
    void flush() { if (!text.empty()) { body += "[" + text + "]"; text.clear(); } }
    std::string html()
    {
      flush();
      std::string o = "<" + tag;
      auto a = attrs;
      if (!classes.empty()) { std::string w; for (auto& c : classes) w += (w.empty() ? "" : " ") + c; a["class"] = w; }
      for (auto& [k, v] : a) o += " " + k + "=\"" + v + "\"";
      for (auto& [k, v] : props) o += " ." + k + "=\"" + v + "\"";
      return o + ">" + body + "</" + tag + ">";
    }
  };
  struct page_m
  {
    std::string html;
    std::vector<std::vector<handler>> clickable;    // elements with handlers, in document order
    std::vector<handler> files;                     // file inputs, in document order
  };

  // --- one way to build, update and take down a page; made by web_page.cpp
  struct page_if
  {
    virtual ~page_if() = default;
    virtual void render() = 0;              // onto Module.mount_el
    virtual void update() = 0;
    virtual void destroy() = 0;             // the renderer's own destroy()
    virtual page_m expect(model const&) = 0;
  };
  struct store_if;
  struct shape { char const* name; std::unique_ptr<page_if> (*make)(store_if&); };
  inline std::vector<shape>& shapes() { static std::vector<shape> s; return s; }

  // what handlers do, told to the simulation
  struct click_t { uint64_t id; std::vector<std::string> args; };
  inline std::function<void(click_t const&, std::function<void(int)> send)> on_click_hook;

  struct store_if
  {
    model m;                                // what it was told to be
    std::function<void(int)> acted;         // an action arrived from a handler
    virtual ~store_if() = default;
    virtual void put(model const&) = 0;
  };
  std::unique_ptr<store_if> make_store();
}
