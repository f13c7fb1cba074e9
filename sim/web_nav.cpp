// The address bar and the history of a page, and the route a context has of them.
#define CONSOLE_LOG(x)
#include <boost/hana.hpp>
#include "web_page.hpp"
#include <nbdl/def/directives.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/string.hpp>
#include <nbdl/webui/nav_route.hpp>
#include <nbdl/webui/route_map.hpp>
#include <nbdl/webui/set_route.hpp>

namespace hana = boost::hana;
using namespace hana::literals;
namespace message = nbdl::message;

namespace nav
{
  struct item { unsigned id = 0; };
  struct items { std::size_t id = 0; short part = 0; };
  struct tag { nbdl::string name; };
  struct find { nbdl::string q; unsigned char page = 0; nbdl::string order; };
  struct tiny { signed char a = 0; bool b = false; };
  struct wide { unsigned long long a = 0, b = 0, c = 0, d = 0, e = 0, f = 0, g = 0, h = 0, i = 0; };
  constexpr auto map = nbdl::webui::make_route_map(
      nbdl::webui::route_pair<>(""_s), nbdl::webui::route_pair<>("about"_s), nbdl::webui::route_pair<item>("item"_s)
    , nbdl::webui::route_pair<items>("items"_s), nbdl::webui::route_pair<tag>("tag"_s), nbdl::webui::route_pair<find>("find-it"_s)
    , nbdl::webui::route_pair<tiny>("tiny"_s), nbdl::webui::route_pair<wide>("wide"_s));
  using variant = decltype(map)::variant;
  constexpr auto set_route = nbdl::webui::make_set_route(map);

  struct consumer_tag { };
  struct page_context { };
  constexpr auto route_path = hana::make_tuple(nbdl::webui::nav_route_s);
  constexpr auto text_path = hana::make_tuple(nbdl::webui::nav_route_s, hana::type_c<nbdl::string>);
  template <typename C> void notified(C const& context, bool text);
  constexpr auto make_def = [] { using namespace nbdl_def; return Context(Producers(NavRouteProducer(map)), Consumers(Consumer(Name("page"_s), Type<consumer_tag>))); };
}
namespace nbdl
{
  NBDL_ENTITY(nav::item, id);
  NBDL_ENTITY(nav::items, id, part);
  NBDL_ENTITY(nav::tag, name);
  NBDL_ENTITY(nav::find, q, page, order);
  NBDL_ENTITY(nav::tiny, a, b);
  NBDL_ENTITY(nav::wide, a, b, c, d, e, f, g, h, i);
  template <> struct make_def_impl<nav::page_context> { static constexpr auto apply() -> decltype(nav::make_def()) { return {}; } };
  template <typename C> struct actor_type<nav::consumer_tag, C>
  { struct type { using hana_tag = nav::consumer_tag; C context; template <typename I> type(I const& i) : context(i.context) { } }; };
  template <> struct notify_state_change_impl<nav::consumer_tag>
  {
    template <typename P, typename M> static void apply(P&& p, M const&)
    {
      using T = std::decay_t<M>;
      if constexpr (std::is_same_v<T, std::decay_t<decltype(nav::route_path)>>) nav::notified(p.context, false);
      else if constexpr (std::is_same_v<T, std::decay_t<decltype(nav::text_path)>>) nav::notified(p.context, true);
      else static_assert(sizeof(M) == 0);
    }
  };
}

namespace web
{
  using sim::choose; using sim::flip; using sim::range; using sim::log; using sim::probe; using sim::fault;

  // ------------------------------------------------------------ what an address says
  static std::string hexed(std::string const& s)
  { static char const* d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
  static std::string shown(std::string const& s)
  {
    bool plain = true;
    for (unsigned char c : s) if (c <= 0x20 || c >= 0x7f || c == '"' || c == ',') plain = false;
    return plain ? "'" + s + "'" : "x" + hexed(s);
  }
  static std::string decoded(std::string const& s)
  {
    auto v = [](char c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    std::string r;
    for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size() && isxdigit(s[i + 1]) && isxdigit(s[i + 2])) { r += char(v(s[i + 1]) * 16 + v(s[i + 2])); i += 2; } else r += s[i];
    return r;
  }
  struct kind { char const* name; std::vector<unsigned long long> max; };      // 0: text
  static std::vector<kind> const kinds = {{"", {}}, {"about", {}}, {"item", {UINT32_MAX}}, {"items", {UINT64_MAX, INT16_MAX}}, {"tag", {0}},
    {"find-it", {0, 255, 0}}, {"tiny", {127, 1}}, {"wide", {UINT64_MAX, UINT64_MAX, UINT64_MAX, UINT64_MAX, UINT64_MAX, UINT64_MAX, UINT64_MAX, UINT64_MAX, UINT64_MAX}}};
  static std::string read_route(std::string const& s)      // "none" when there is none
  {
    if (s.empty() || s[0] != '/') return "none";
    std::vector<std::string> parts;
    for (size_t at = 0; at != std::string::npos;) { size_t e = s.find('/', at + 1); parts.push_back(s.substr(at + 1, e == std::string::npos ? e : e - at - 1)); at = e; }
    if (parts.size() > 10) return "none";
    for (auto& k : kinds)
    {
      if (parts[0] != k.name || parts.size() != k.max.size() + 1) continue;
      std::string r = "/" + parts[0];
      for (size_t i = 0; i < k.max.size(); i++)
      {
        auto& p = parts[i + 1];
        if (!k.max[i]) { if (p.empty()) return "none"; r += " " + shown(decoded(p)); continue; }
        unsigned __int128 n = 0;
        for (char c : p) { if (!isdigit(c)) return "none"; n = n * 10 + unsigned(c - '0'); if (n > k.max[i]) return "none"; }
        if (!n) return "none";
        r += " " + std::to_string(static_cast<unsigned long long>(n));
      }
      return r;
    }
    return "none";
  }
  // addresses about which it is open what they say
  static bool open_ended(std::string const& s)
  {
    if (s.size() > 1 && s.back() == '/') return true;
    for (size_t i = 0; i + 1 < s.size(); i++) if (s[i] == '/' && s[i + 1] == '0') return true;
    for (size_t i = 0; i < s.size(); i++)
      if (s[i] == '%' && (i + 2 >= s.size() || !isxdigit(s[i + 1]) || !isxdigit(s[i + 2]) || (s[i + 1] == '0' && s[i + 2] == '0'))) return true;
    // escapes in names and numbers
    size_t e = s.find('/', 1); std::string name = s.substr(0, e);
    if (name.find('%') != std::string::npos) return true;
    if (name != "/tag" && name != "/find-it" && s.find('%') != std::string::npos) return true;
    if (name == "/find-it" && e != std::string::npos) { size_t b = s.find('/', e + 1); if (b != std::string::npos && s.substr(b, s.find('/', b + 1) - b).find('%') != std::string::npos) return true; }
    return false;
  }

  static std::string described(nav::variant const& v)
  {
    std::string r; int calls = 0;
    auto n = [](auto x) { return " " + std::to_string(x); };
    auto put = [&](std::string s) { r = s; calls++; };
    nbdl::match(v, hana::overload_linearly(
        [&](nav::item const& x) { put("/item" + n(x.id)); }
      , [&](nav::items const& x) { put("/items" + n(x.id) + n(x.part)); }
      , [&](nav::tag const& x) { put("/tag " + shown(x.name)); }
      , [&](nav::find const& x) { put("/find-it " + shown(x.q) + n(x.page) + " " + shown(x.order)); }
      , [&](nav::tiny const& x) { put("/tiny" + n(int(x.a)) + n(int(x.b))); }
      , [&](nav::wide const& x) { put("/wide" + n(x.a) + n(x.b) + n(x.c) + n(x.d) + n(x.e) + n(x.f) + n(x.g) + n(x.h) + n(x.i)); }
      , [&](decltype(""_s)) { put("/"); }
      , [&](decltype("about"_s)) { put("/about"); }
      , [&](nbdl::webui::route_not_found) { put("none"); }));
    return calls == 1 ? r : std::to_string(calls) + " values";
  }

  // ------------------------------------------------------------ made up
  static std::string a_param()
  {
    switch (choose(9))
    {
      case 0: return "a/b"; case 1: return "h\xc3\xa4\xe2\x82\xac \xf0\x9f\x98\x80"; case 2: return "100%"; case 3: return "%41"; case 4: return "?x=1#top&y"; case 5: return std::string(1, char(1 + choose(127)));
      case 6: { std::string s; int n = range(1, 60); while (n--) s += char(1 + choose(127)); return s; }
      default: return "t" + std::to_string(choose(50));
    }
  }
  static std::string param() { for (;;) { auto s = a_param(); if (s != "." && s != "..") return s; } }
  static unsigned long long number(unsigned long long max)
  { switch (choose(4)) { case 0: return max; case 1: return 1; case 2: { auto n = (static_cast<unsigned long long>(choose(1u << 30)) << 34 | choose(1u << 30)) % max; return n ? n : 1; } default: return std::min<unsigned long long>(max, 1 + choose(2000)); } }
  static nav::variant a_route()
  {
    switch (choose(9))
    {
      case 0: return nav::variant(""_s); case 1: return nav::variant("about"_s);
      case 2: return nav::variant(nav::item{unsigned(number(UINT32_MAX))});
      case 3: return nav::variant(nav::items{number(UINT64_MAX), short(number(INT16_MAX))});
      case 4: case 5: return nav::variant(nav::tag{nbdl::string(param())});
      case 6: return nav::variant(nav::find{nbdl::string(param()), static_cast<unsigned char>(number(255)), nbdl::string(param())});
      case 7: return nav::variant(nav::tiny{static_cast<signed char>(number(127)), true});
      default: { auto n = [] { return number(UINT64_MAX); }; return nav::variant(nav::wide{n(), n(), n(), n(), n(), n(), n(), n(), n()}); }
    }
  }
  static std::string some_text()
  {
    static char const* tails[] = {"", "/1", "/0", "/x", "/12/7", "/70000/1", "/4294967295", "/4294967296", "/18446744073709551615/32767", "/18446744073709551616/1", "/1/32768",
      "/200/1", "/5/2", "/5/1", "/a/256/b", "/a/255/b", "/a%20b", "/a%2Fb/9/c%C3%A9", "/-3", "/+4", "/1/2/3/4/5/6/7/8/9", "/1/2/3/4/5/6/7/8/9/10", "/1/2/3/4/5/6/7/8/9/10/11", "//1", "/1//2", "/99999999999999999999999999", "/340282366920938463463374607431768211457"};
    static char const* names[] = {"", "about", "item", "items", "tag", "find-it", "tiny", "wide", "ite", "itemss", "About", "nope", "item5"};
    if (flip(1, 4))
    {
      std::string s; int n = range(0, 12); while (n--) s += "/" + (flip(1, 2) ? std::to_string(choose(300)) : names[choose(13)]);
      return s.empty() ? "/" : s;
    }
    return std::string("/") + names[choose(13)] + tails[choose(sizeof tails / sizeof *tails)];
  }

  // two slashes at the start would name another host
  static std::string a_text() { for (;;) { auto s = some_text(); if (s.compare(0, 2, "//")) return s; } }

  // ------------------------------------------------------------ the page
  struct nav_world
  {
    using ctx_t = decltype(nbdl::make_unique_context<nav::page_context>());
    std::optional<ctx_t> ctx;
    std::string prefix;
    bool redirects = false; int inside = 0; int told_route = 0, told_text = 0; std::string route_told, text_told;
    std::vector<std::string> entries; int where = 0;      // the history as it has to be
    std::vector<std::unique_ptr<nbdl::detail::js_val>> others;    // what else the page has

    static std::string address() { return em::text("nav_path"); }
    std::string text_of(std::string const& a) { return a.compare(0, prefix.size(), prefix) == 0 ? a.substr(prefix.size()) : ""; }
    std::string route_now() { return route_now(**ctx); }
    template <typename C> std::string route_now(C&& c)
    {
      std::string r; int calls = 0;
      nbdl::match(c, nav::route_path, [&](auto const& x) {
        using T = std::decay_t<decltype(x)>;
        calls++;
        if constexpr (std::is_constructible_v<nav::variant, T const&>) r = described(nav::variant(x)); else r = "something else"; });
      return calls == 1 ? r : std::to_string(calls) + " routes";
    }
    std::string text_now() { return text_now(**ctx); }
    template <typename C> std::string text_now(C&& c)
    {
      std::string r; int calls = 0;
      nbdl::match(c, nav::text_path, [&](auto const& x) {
        calls++;
        if constexpr (std::is_same_v<std::decay_t<decltype(x)>, nbdl::string>) r = x; else r = "something else"; });
      return calls == 1 ? r : std::to_string(calls) + " texts";
    }
    template <typename C> void on_notify(C const& c, bool text)
    {
      if (text) { told_text++; text_told = text_now(c); } else { told_route++; route_told = route_now(c); }
      log("told of the %s: %s", text ? "text" : "route", text ? text_told.c_str() : route_told.c_str());
      if (redirects && !text && route_told == "none" && inside < 3)
      {
        inside++; probe("nav:redirect");
        log("goes to the root");
        go_to(c, nav::variant(""_s));
        inside--;
      }
    }
    void expect_at(std::string const& a)      // the page has gone to a new address
    { entries.resize(where + 1); entries.push_back(a); where++; }

    template <typename C> void go_to(C&& c, nav::variant const& v)
    {
      std::string d = described(v);
      int before = entries.size(); (void) before;
      std::string old = address();
      entries.resize(where + 1); entries.push_back("?"); where++;
      switch (choose(2))
      {
        case 0:
          nbdl::match(v, hana::overload_linearly(
              [&](nbdl::webui::route_not_found) { }
            , [&](auto const& r) { nbdl::apply_message(c, message::make_upstream_update(nav::route_path, message::no_uid, std::decay_t<decltype(r)>(r))); }));
          break;
        default:
          auto send = [&](auto&& m) { nbdl::apply_message(c, std::forward<decltype(m)>(m)); };
          nbdl::match(v, hana::overload_linearly(
              [&](nbdl::webui::route_not_found) { }
            , [&](nav::item const& r) { nav::set_route("item"_s)(send, r); }, [&](nav::items const& r) { nav::set_route("items"_s)(send, r); }
            , [&](nav::tag const& r) { nav::set_route("tag"_s)(send, r); }, [&](nav::find const& r) { nav::set_route("find-it"_s)(send, r); }
            , [&](nav::tiny const& r) { nav::set_route("tiny"_s)(send, r); }, [&](nav::wide const& r) { nav::set_route("wide"_s)(send, r); }
            , [&](auto const& r) { nav::set_route(r)(send); }));
      }
      std::string a = address();
      for (auto& e : entries) if (e == "?") e = a;
      log("address %s", a.c_str());
      if (a.compare(0, prefix.size(), prefix) || read_route(a.substr(prefix.size())) != d)
        sim::fail("P25", "address", "going to the route %s leaves the address %s", d.c_str(), a.c_str());
    }
    void look(char const* when)
    {
      std::string a = address();
      // the history
      std::string h = std::to_string(where) + "/" + std::to_string(entries.size()); for (auto& e : entries) h += " " + e;
      std::string is = em::text("nav_state");
      if (is != h) sim::fail("P25", "history", "%s: the history is %s, not %s", when, is.c_str(), h.c_str());
      if (!ctx) return;
      std::string t = text_of(a), r = read_route(t), tn = text_now(), rn = route_now();
      if (tn != t) sim::fail("P25", "text", "%s: at %s (prefix '%s') the text is '%s'", when, a.c_str(), prefix.c_str(), tn.c_str());
      if (open_ended(t) ? false : rn != r) sim::fail("P25", "route", "%s: at %s (prefix '%s') the route is %s, not %s", when, a.c_str(), prefix.c_str(), rn.c_str(), r.c_str());
    }
    void told(char const* when)
    {
      if (!told_route || !told_text) sim::fail("P25", "not-told", "%s: the consumer is told %d times of the route and %d of the text", when, told_route, told_text);
      else if (route_told != route_now() || text_told != text_now())
        sim::fail("P25", "told-late", "%s: the consumer last saw %s and %s, but it is %s and %s", when, route_told.c_str(), text_told.c_str(), route_now().c_str(), text_now().c_str());
    }
    void create() { log("context"); told_route = told_text = 0; ctx.emplace(nbdl::make_unique_context<nav::page_context>()); }
    void destroy() { log("context ends"); ctx.reset(); }
    void move()
    {
      told_route = told_text = 0;
      switch (sim::weighted({6, 3, 5}))
      {
        case 0: { auto v = a_route(); log("go to %s", described(v).c_str()); go_to(**ctx, v); told("after going to a route"); probe("nav:route"); break; }
        case 1:
        {
          std::string s = a_text();
          log("go to '%s'", s.c_str());
          em::call_s("nav_resolve", {}, hexed(prefix + s)); std::string want = em::text("argument");
          int depth = entries.size(); (void) depth;
          expect_at(want);
          nbdl::apply_message(**ctx, message::make_upstream_update(nav::text_path, message::no_uid, nbdl::string(s)));
          told("after going to a text"); probe("nav:text"); break;
        }
        default: back_or_forward();
      }
    }
    void back_or_forward()
    {
      int n = flip(1, 5) ? int(choose(7)) - 3 : flip(2, 3) ? -1 : 1;
      if (where + n < 0 || where + n >= int(entries.size())) return;
      log("browser goes %d", n); fault(n < 0 ? "back" : n ? "forward" : "popstate without a move");
      where += n;
      em::call("nav_go", {double(n)});
      if (ctx) told("after the browser went elsewhere");
    }
  };
  static nav_world* N;

  static void nav_scenario()
  {
    sim::leaks_for("P25");
    static bool once = [] {
      em::export_function("__nbdl_webui_detail_event_callback", [](double const* a, size_t) {
        nbdl::webui::detail::_nbdl_webui_detail_event_callback(reinterpret_cast<void*>(static_cast<std::uintptr_t>(a[0]))); return 0.0; });
      return true; }();
    (void) once;
    em::call("reset");
    nbdl::detail::js_val::init_registry();
    int h0 = em::handles();
    {
      nav_world w; N = &w;
      switch (choose(4)) { case 0: w.prefix = "/app"; break; case 1: w.prefix = "/a/b"; break; default: break; }
      if (!w.prefix.empty() || flip(1, 2)) em::call_s("nav_prefix", {}, hexed(w.prefix));
      w.redirects = flip(1, 3);
      std::string first = (flip(3, 4) ? w.prefix : "") + a_text();
      em::call_s("nav_resolve", {}, hexed(first)); first = em::text("argument");
      em::call_s("nav_set", {}, hexed(first));
      w.entries = {first};
      log("at %s, prefix '%s'%s", first.c_str(), w.prefix.c_str(), w.redirects ? ", redirecting" : "");
      int ops = range(4, 50);
      w.create(); w.look("at first");
      while (ops--)
      {
        sim::step(); sim::advance(1000 + choose(20000));
        if (!w.ctx) { if (flip(1, 2)) w.create(); else if (flip(1, 2)) w.others.push_back(std::make_unique<nbdl::detail::js_val>()); else w.back_or_forward(); }
        else if (flip(1, 15)) { w.destroy(); fault("context ends"); }
        else w.move();
        w.look("after a step");
      }
      sim::nontrivial();
      w.ctx.reset();
      w.others.clear();
    }
    N = nullptr;
    if (int n = em::call("registry")) sim::fail("P25", "values-left", "%d JavaScript values are kept when everything is gone", n);
    if (int n = em::handles() - h0) sim::fail("P25", "handles-left", "%d handles are kept when everything is gone", n);
  }
  static sim::add_scenario reg("nav", nav_scenario);
}

template <typename C> void nav::notified(C const& context, bool text) { web::N->on_notify(context, text); }
