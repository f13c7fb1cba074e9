// Values that C++ and JavaScript share, callbacks, promises settled by
// JavaScript, and data bound to JavaScript values and back.
#define CONSOLE_LOG(x)
#include <boost/hana.hpp>
#include "web_page.hpp"
#include <nbdl/binder/js.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/ext/std/unordered_map.hpp>
#include <nbdl/js.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_async_loop.hpp>
#include <nbdl/string.hpp>
#include <nbdl/uid.hpp>
#include <nbdl/variant.hpp>
#include <sanitizer/asan_interface.h>
#include <functional>

namespace hana = boost::hana;
namespace web { void js_pending(int resolve, int reject, int a, int b); }
extern "C" void sim_c_routine(int, int, int, int);
void sim_c_routine_of(std::initializer_list<double> handles);
template <typename ...A> void sim_c_routine_any(int resolve, int reject, A ...a) { sim_c_routine_of({double(resolve), double(reject), double(a)...}); }

namespace vals
{
  struct tag_t { nbdl::string name; int rank = 0; };
  enum mood_t : int { CALM, GLAD, CROSS = -1, FAR = 2147483647 };
  struct circle { int radius = 0; };
  struct square { unsigned side = 0; nbdl::string label; };
  using shape = nbdl::variant<circle, square>;
  struct record
  {
    int count = 0; unsigned mask = 0; bool done = false; mood_t mood = CALM; short small = 0; unsigned char tiny = 0;
    nbdl::string text; std::string bytes; std::vector<unsigned char> blob;
    std::vector<int> numbers; std::vector<tag_t> tags; std::vector<std::vector<nbdl::string>> deep; hana::tuple<int, nbdl::string> two;
    shape form; nbdl::optional<tag_t> maybe; nbdl::uid author{};
  };
}
namespace nbdl
{
  NBDL_ENTITY(vals::tag_t, name, rank);
  NBDL_ENTITY(vals::circle, radius);
  NBDL_ENTITY(vals::square, side, label);
  NBDL_ENTITY(vals::record, count, mask, done, mood, small, tiny, text, bytes, blob, numbers, tags, deep, two, form, maybe, author);
}

namespace web
{
  using sim::choose; using sim::flip; using sim::range; using sim::log; using sim::probe; using sim::fault;
  using jval = nbdl::js::val;

  static std::string json_of(jval const& v) { return em::text("json_of", {double(nbdl::js::get_handle(v))}); }
  static void set_json(jval& v, std::string const& s) { em::call_s("json_set", {double(nbdl::js::get_handle(v))}, s); }
  static std::string brief(std::string const& s) { return s.size() < 300 ? s : s.substr(0, 290) + "..."; }

  // ------------------------------------------------------------ data
  static std::string quoted(std::string const& s)
  {
    std::string r = "\"";
    for (unsigned char c : s)
    {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c == '\b') r += "\\b"; else if (c == '\f') r += "\\f"; else if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t";
      else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r + "\"";
  }
  static std::string base64(unsigned char const* p, size_t n)
  {
    static char const* d = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    for (size_t i = 0; i < n; i += 3)
    {
      unsigned x = p[i] << 16 | (i + 1 < n ? p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0);
      r += d[x >> 18]; r += d[x >> 12 & 63]; r += i + 1 < n ? d[x >> 6 & 63] : '='; r += i + 2 < n ? d[x & 63] : '=';
    }
    return r;
  }
  static std::string base64(std::string const& s) { return base64(reinterpret_cast<unsigned char const*>(s.data()), s.size()); }
  static std::string text()
  {
    switch (choose(9))
    {
      case 0: return ""; case 1: return "x"; case 2: return "h\xc3\xa4\xe2\x82\xac"; case 3: return "\xf0\x9f\x98\x80 \xef\xbf\xbd"; case 4: return "\"\\/\b\f\n\r\t\x01\x1f\x7f"; case 5: return "</script>";
      case 6: { std::string s; int n = choose(70); while (n--) s += flip(1, 3) ? "\xc3\xa9" : "e"; return s; }
      default: return "t" + std::to_string(choose(1000));
    }
  }
  static int number() { switch (choose(6)) { case 0: return INT32_MAX; case 1: return INT32_MIN; case 2: return 0; default: return int(choose(2000)) - 1000; } }
  static vals::record a_record()
  {
    vals::record r;
    r.count = number(); r.mask = static_cast<unsigned>(number()); r.done = flip(1, 2);
    vals::mood_t moods[] = {vals::CALM, vals::GLAD, vals::CROSS, vals::FAR}; r.mood = moods[choose(4)];
    r.small = short(number()); r.tiny = static_cast<unsigned char>(number());
    r.text = text(); r.bytes = sim::pattern(choose(100), choose(9)); auto b = sim::pattern(choose(100), choose(3) ? choose(7) : choose(300)); r.blob.assign(b.begin(), b.end());
    for (int n = choose(4); n--;) r.numbers.push_back(number());
    for (int n = choose(4); n--;) r.tags.push_back({nbdl::string(text()), number()});
    for (int n = choose(3); n--;) { r.deep.emplace_back(); for (int k = choose(3); k--;) r.deep.back().push_back(nbdl::string(text())); }
    r.two = hana::make_tuple(number(), nbdl::string(text()));
    switch (choose(3)) { case 0: break; case 1: r.form = vals::circle{number()}; break; default: r.form = vals::square{static_cast<unsigned>(number()), nbdl::string(text())}; }
    if (flip(1, 2)) r.maybe = vals::tag_t{nbdl::string(text()), number()};
    for (auto& x : r.author) x = static_cast<unsigned char>(choose(256));
    return r;
  }
  // what JavaScript has to see
  static std::string as_json(vals::tag_t const& t) { return "{\"name\":" + quoted(t.name) + ",\"rank\":" + std::to_string(t.rank) + "}"; }
  static std::string as_json(vals::record const& r)
  {
    std::string s = "{\"count\":" + std::to_string(r.count) + ",\"mask\":" + std::to_string(int(r.mask)) + ",\"done\":" + std::to_string(int(r.done)) + ",\"mood\":" + std::to_string(int(r.mood))
      + ",\"small\":" + std::to_string(r.small) + ",\"tiny\":" + std::to_string(int(r.tiny)) + ",\"text\":" + quoted(r.text) + ",\"bytes\":\"" + base64(r.bytes)
      + "\",\"blob\":\"" + base64(r.blob.data(), r.blob.size()) + "\",\"numbers\":[";
    for (size_t i = 0; i < r.numbers.size(); i++) s += (i ? "," : "") + std::to_string(r.numbers[i]);
    s += "],\"tags\":["; for (size_t i = 0; i < r.tags.size(); i++) s += (i ? "," : "") + as_json(r.tags[i]);
    s += "],\"deep\":[";
    for (size_t i = 0; i < r.deep.size(); i++) { s += i ? ",[" : "["; for (size_t k = 0; k < r.deep[i].size(); k++) s += (k ? "," : "") + quoted(r.deep[i][k]); s += "]"; }
    s += "],\"two\":[" + std::to_string(hana::at_c<0>(r.two)) + "," + quoted(hana::at_c<1>(r.two)) + "],\"form\":";
    r.form.match(hana::overload_linearly([&](vals::circle const& c) { s += "[1,{\"radius\":" + std::to_string(c.radius) + "}]"; }
      , [&](vals::square const& q) { s += "[2,{\"side\":" + std::to_string(int(q.side)) + ",\"label\":" + quoted(q.label) + "}]"; }, [&](auto const&) { s += "0"; }));
    s += ",\"maybe\":";
    r.maybe.match(hana::overload_linearly([&](vals::tag_t const& t) { s += "[1," + as_json(t) + "]"; }, [&](auto const&) { s += "0"; }));
    return s + ",\"author\":\"" + base64(r.author.data(), r.author.size()) + "\"}";
  }

  // ------------------------------------------------------------ shared values
  struct js_world
  {
    struct place { alignas(jval) unsigned char room[sizeof(jval)]; jval* v = nullptr; std::string is; int same = 0; };
    place at[8];
    int ids = 0;

    // callbacks: functions JavaScript may call while they live
    struct cb { std::unique_ptr<nbdl::js::callback_t> f; int id; };
    std::vector<cb> cbs; int cb_ids = 0; std::vector<std::string> called;

    // chains waiting for JavaScript
    struct chain
    {
      int id, shape; std::string captured[2]; bool waiting = false, done = false, loop = false; int rounds = 0;
      std::string due; bool rejecting = false; int settled = 0; int stage = 0; std::string second;
    };
    std::vector<chain> chains;
    int current = -1;

    js_world() { for (auto& p : at) __asan_poison_memory_region(p.room, sizeof p.room); }
    ~js_world() { for (auto& p : at) { if (p.v) drop(p); __asan_unpoison_memory_region(p.room, sizeof p.room); } }
    void room_for(place& p) { __asan_unpoison_memory_region(p.room, sizeof p.room); p.v = reinterpret_cast<jval*>(p.room); }
    void drop(place& p) { p.v->~jval(); p.v = nullptr; __asan_poison_memory_region(p.room, sizeof p.room); }
    void look(char const* when)
    {
      int live = 0;
      for (auto& p : at) if (p.v)
      {
        live++;
        std::string s = json_of(*p.v);
        if (s != p.is) sim::fail("P24", "value", "%s: value %d is %s, not %s", when, int(&p - at), brief(s).c_str(), brief(p.is).c_str());
        emscripten::val e = *p.v;
        if (e.isUndefined() != (p.is == "undefined")) sim::fail("P24", "value", "%s: value %d as an emscripten::val is another one", when, int(&p - at));
      }
      (void) live;
    }
    void set(place& p, std::string const& s) { set_json(*p.v, s); p.is = s; p.same = s[0] == '{' || s[0] == '[' ? ++ids : 0; }
    std::string json_text()
    {
      switch (choose(6))
      {
        case 0: return std::to_string(number()); case 1: return quoted(text()); case 2: return flip(1, 2) ? "true" : "null";
        case 3: return "[" + std::to_string(number()) + "," + quoted(text()) + "]"; default: return "{\"a\":" + quoted(text()) + "}";
      }
    }
    void value_op()
    {
      auto& p = at[choose(8)]; auto& q = at[choose(8)];
      if (!p.v)
      {
        room_for(p);
        switch (q.v && &q != &p ? choose(4) : choose(2) ? 0 : 3)
        {
          case 0: new (p.room) jval(); p.is = "undefined"; p.same = 0; log("%d()", int(&p - at)); break;
          case 1: new (p.room) jval(static_cast<jval const&>(*q.v)); p.is = q.is; p.same = q.same; log("%d(copy of %d)", int(&p - at), int(&q - at)); break;
          case 2: new (p.room) jval(std::move(*q.v)); p.is = q.is; p.same = q.same; q.is = "undefined"; q.same = 0; log("%d(%d moved)", int(&p - at), int(&q - at)); break;
          default: new (p.room) jval(); set(p, json_text()); log("%d(%s)", int(&p - at), p.is.c_str());
        }
        return;
      }
      switch (choose(6))
      {
        case 0: log("drop %d", int(&p - at)); drop(p); break;
        case 1: set(p, json_text()); log("%d = %s", int(&p - at), p.is.c_str()); break;
        case 2:
          if (q.v) { log("%d = %d", int(&p - at), int(&q - at)); *p.v = static_cast<jval const&>(*q.v); p.is = q.is; p.same = q.same; }
          break;
        case 3:
          if (q.v && &q != &p) { log("%d = moved %d", int(&p - at), int(&q - at)); *p.v = std::move(*q.v); p.is = q.is; p.same = q.same; q.is = "undefined"; q.same = 0; }
          break;
        case 4:
          if (q.v)
          {
            bool eq = hana::equal(*p.v, *q.v), should = p.same || q.same ? p.same == q.same : p.is == q.is;
            if (eq != should) sim::fail("P24", "equal", "%s and %s are%s equal", p.is.c_str(), q.is.c_str(), eq ? "" : " not");
          }
          break;
        case 5: log("%d is transformed", int(&p - at)); NBDL_JS_TRANSFORM(*p.v, function(x) { return [x === undefined ? null : x]; }); p.is = "[" + (p.is == "undefined" ? "null" : p.is) + "]"; p.same = ++ids; break;
      }
    }
    void bind_op()
    {
      namespace js = nbdl::binder::js;
      vals::record r = a_record(), back = flip(1, 2) ? a_record() : vals::record{};
      std::string want = as_json(r);
      jval v;
      if (flip(1, 3)) set_json(v, json_text());
      js::bind_to(v, r);
      std::string is = json_of(v);
      log("bind %s", brief(want).c_str());
      if (is != want) { sim::fail("P24", "bound", "JavaScript sees %s, not %s", is.c_str(), want.c_str()); return; }
      jval copy(v);
      if (flip(1, 2)) { jval other; set_json(other, want); js::bind_from(other, back); }       // text from elsewhere
      else js::bind_from(flip(1, 2) ? v : copy, back);
      std::string got = as_json(back);
      if (got != want) sim::fail("P24", "read-back", "reads back as %s, not %s", got.c_str(), want.c_str());
      probe("vals:bound");
    }
    void callback_op()
    {
      switch (choose(4))
      {
        case 0: if (cbs.size() < 4)
        {
          int id = ++cb_ids;
          log("callback %d", id);
          cbs.push_back({std::make_unique<nbdl::js::callback_t>(nbdl::js::callback([this, id](jval const& v) { called.push_back(std::to_string(id) + " " + json_of(v)); })), id});
          break;
        } [[fallthrough]];
        case 1: if (!cbs.empty()) { int i = choose(cbs.size()); log("drop callback %d", cbs[i].id); cbs.erase(cbs.begin() + i); } break;
        default: if (!cbs.empty())
        {
          auto& c = cbs[choose(cbs.size())];
          if (flip(1, 3)) { auto m = std::make_unique<nbdl::js::callback_t>(std::move(*c.f)); c.f = std::move(m); probe("vals:callback-moved"); }
          std::string a = json_text(); jval arg; set_json(arg, a);
          called.clear();
          if (flip(1, 2)) EM_ASM_({ Module.NBDL_DETAIL_JS_GET($0)(Module.NBDL_DETAIL_JS_GET($1)); }, nbdl::js::get_handle(*c.f), nbdl::js::get_handle(arg));
          else { jval f{*c.f}; EM_ASM_({ Module.NBDL_DETAIL_JS_GET($0)(Module.NBDL_DETAIL_JS_GET($1)); }, nbdl::js::get_handle(f), nbdl::js::get_handle(arg)); }
          std::vector<std::string> want{std::to_string(c.id) + " " + a};
          if (called != want) sim::fail("P24", "callback", "callback %d was called %zu times, last with %s, not once with %s", c.id, called.size(), called.empty() ? "-" : called.back().c_str(), a.c_str());
          log("callback %d called with %s", c.id, a.c_str());
        }
      }
    }

    // ------------------------------------------------------------ promises
    // a chain's routine runs in JavaScript and leaves resolve and reject with the simulation
    void pending(int id, std::string const& captured)
    {
      if (id < 0 || id >= int(chains.size())) { sim::fail("P24", "captured", "a routine is given %s", brief(captured).c_str()); return; }
      auto& c = chains[id];
      c.waiting = true;
      log("chain %d waits for JavaScript %s", id, captured.c_str());
      if (captured != c.due) sim::fail("P24", "captured", "the routine of chain %d is given %s, not %s", id, brief(captured).c_str(), brief(c.due).c_str());
    }
    void stage(int id, bool rejected, jval const& v)
    {
      auto& c = chains[id];
      std::string s = json_of(v);
      log("chain %d %s %s", id, rejected ? "rejected" : "goes on", s.c_str());
      if (c.done) { sim::fail("P24", "settled-twice", "chain %d goes on after its end", id); return; }
      if (!c.settled) { sim::fail("P24", "unsettled", "chain %d goes on before JavaScript settled its promise", id); return; }
      if (rejected != c.rejecting || s != c.due) sim::fail("P24", "settled", "chain %d is %s with %s, not %s with %s", id, rejected ? "rejected" : "resolved", s.c_str(), c.rejecting ? "rejected" : "resolved", c.due.c_str());
      c.stage++;
    }
    void start()
    {
      if (chains.size() >= 6) return;
      int id = chains.size();
      chains.push_back({}); auto& c = chains.back();
      c.id = id; c.shape = choose(8); c.loop = c.shape == 4 || c.shape == 5; int n = c.shape >= 6 ? range(1, 8) : 0;
      c.captured[0] = json_text(); c.captured[1] = json_text();
      log("chain %d of shape %d %d", id, c.shape, n);
      jval a, b; set_json(a, c.captured[0]); set_json(b, c.captured[1]);
      jval self; set_json(self, std::to_string(id));
      c.due = std::to_string(id) + (c.shape == 0 || c.shape == 3 ? "" : c.shape == 2 || c.shape == 5 ? c.captured[0] : c.captured[0] + c.captured[1]);
      std::string two = c.due;
      jval v[8]; std::string more[8], all = std::to_string(id);
      for (int i = 1; i < n; i++) { more[i] = json_text(); set_json(v[i], more[i]); all += more[i]; }
      if (n) { c.due = all; two = all; }
      c.second = two;
      auto go = [this, id](auto const& v) { stage(id, false, v); };
      auto end = nbdl::catch_([this, id](auto const& v) { if constexpr (nbdl::js::is_js_val<decltype(v)>) { stage(id, true, v); chains[id].done = true; } else sim::fail("P24", "settled", "chain %d is rejected with something else", id); });
      auto done = [this, id](auto&&...) { chains[id].done = true; };
      auto again = [this, id](auto&&...) { auto& c = chains[id]; c.settled = 0; c.due = c.second; };
      current = id;
      switch (c.shape)
      {
        case 0:
          // the routine knows its chain by the global it finds when it starts
          em::call_s("eval_", {}, "Module.sim_current = " + std::to_string(id));
          nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE(function(resolve, reject) { sim_pending(resolve, reject, Module.sim_current, String(Module.sim_current)); }), go, done, end));
          break;
        case 1:
          nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { sim_pending(resolve, reject, self, self + JSON.stringify(a) + JSON.stringify(b)); }, self, a, b), go, done, end));
          break;
        case 2:
          nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_C_FUNC(sim_c_routine, self, a), go, done, end));
          break;
        case 3:
          em::call_s("eval_", {}, "Module.sim_current = " + std::to_string(id));
          // two in a row, the second in a sequence of its own
          nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE(function(resolve, reject) { sim_pending(resolve, reject, Module.sim_current, String(Module.sim_current)); }), go
            , [again](auto&&...) { again(); }, hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { sim_pending(resolve, reject, self, String(self)); }, self), go), done, end));
          break;
        case 4:
          nbdl::run_async_loop(hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { sim_pending(resolve, reject, self, self + JSON.stringify(a) + JSON.stringify(b)); }, self, a, b), go, again, end));
          break;
        case 6: case 7:
        {
          auto &v1 = v[1], &v2 = v[2], &v3 = v[3], &v4 = v[4], &v5 = v[5], &v6 = v[6], &v7 = v[7];
          probe("vals:captures");
          if (c.shape == 6) switch (n)
          {
            case 1: nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { sim_pending(resolve, reject, self, String(self)); }, self), go, done, end)); break;
            case 2: nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { sim_pending(resolve, reject, self, String(self) + JSON.stringify(v1)); }, self, v1), go, done, end)); break;
            case 3: nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { sim_pending(resolve, reject, self, String(self) + JSON.stringify(v1) + JSON.stringify(v2)); }, self, v1, v2), go, done, end)); break;
            case 4: nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { sim_pending(resolve, reject, self, String(self) + JSON.stringify(v1) + JSON.stringify(v2) + JSON.stringify(v3)); }, self, v1, v2, v3), go, done, end)); break;
            case 5: nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { sim_pending(resolve, reject, self, String(self) + JSON.stringify(v1) + JSON.stringify(v2) + JSON.stringify(v3) + JSON.stringify(v4)); }, self, v1, v2, v3, v4), go, done, end)); break;
            case 6: nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { sim_pending(resolve, reject, self, String(self) + JSON.stringify(v1) + JSON.stringify(v2) + JSON.stringify(v3) + JSON.stringify(v4) + JSON.stringify(v5)); }, self, v1, v2, v3, v4, v5), go, done, end)); break;
            case 7: nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { sim_pending(resolve, reject, self, String(self) + JSON.stringify(v1) + JSON.stringify(v2) + JSON.stringify(v3) + JSON.stringify(v4) + JSON.stringify(v5) + JSON.stringify(v6)); }, self, v1, v2, v3, v4, v5, v6), go, done, end)); break;
            case 8: nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { sim_pending(resolve, reject, self, String(self) + JSON.stringify(v1) + JSON.stringify(v2) + JSON.stringify(v3) + JSON.stringify(v4) + JSON.stringify(v5) + JSON.stringify(v6) + JSON.stringify(v7)); }, self, v1, v2, v3, v4, v5, v6, v7), go, done, end)); break;
          }
          else switch (n)
          {
            case 1: nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_C_FUNC(sim_c_routine_any, self), go, done, end)); break;
            case 2: nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_C_FUNC(sim_c_routine_any, self, v1), go, done, end)); break;
            case 3: nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_C_FUNC(sim_c_routine_any, self, v1, v2), go, done, end)); break;
            case 4: nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_C_FUNC(sim_c_routine_any, self, v1, v2, v3), go, done, end)); break;
            case 5: nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_C_FUNC(sim_c_routine_any, self, v1, v2, v3, v4), go, done, end)); break;
            case 6: nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_C_FUNC(sim_c_routine_any, self, v1, v2, v3, v4, v5), go, done, end)); break;
            case 7: nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_C_FUNC(sim_c_routine_any, self, v1, v2, v3, v4, v5, v6), go, done, end)); break;
            case 8: nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_C_FUNC(sim_c_routine_any, self, v1, v2, v3, v4, v5, v6, v7), go, done, end)); break;
          }
          break;
        }
        default:
          nbdl::run_async_loop(hana::make_tuple(NBDL_JS_PROMISE_C_FUNC(sim_c_routine, self, a), go, again, end));
      }
    }
    bool settle_one(bool end)
    {
      std::vector<int> w;
      for (auto& c : chains) if (c.waiting && !c.done) w.push_back(c.id);
      if (w.empty()) return false;
      int id = w[choose(w.size())];
      bool rej = end && chains[id].loop ? true : flip(1, 4);
      std::string v = json_text();
      int calls = flip(1, 5) ? 2 + choose(2) : 1;      // JavaScript may call again, which is nothing
      log("JavaScript %s chain %d with %s%s", rej ? "rejects" : "resolves", id, v.c_str(), calls > 1 ? " and calls again" : "");
      if (calls > 1) fault("settled again");
      { auto& c = chains[id]; c.waiting = false; c.settled = 1; c.rejecting = rej; c.due = v; c.rounds++; }
      int before = chains[id].stage;
      em::call_s("settle", {double(id), rej ? 1.0 : 0.0, double(calls)}, v);
      if (chains[id].stage == before) sim::fail("P24", "not-settled", "chain %d does not go on when JavaScript settles its promise", id);
      if (chains[id].stage > before + 1) sim::fail("P24", "settled-twice", "chain %d goes on twice", id);
      if (rej && chains[id].waiting) sim::fail("P24", "settled", "chain %d goes on after a rejection", id);
      if (!chains[id].done && !chains[id].waiting) sim::fail("P24", "not-settled", "chain %d neither ended nor waits", id);
      probe(rej ? "vals:rejected" : "vals:resolved");
      return true;
    }
  };
  static js_world* W;

  static void vals_scenario()
  {
    sim::leaks_for("P24");
    static bool once = [] {
      em::export_function("__nbdl_webui_detail_event_callback", [](double const* a, size_t) {
        nbdl::webui::detail::_nbdl_webui_detail_event_callback(reinterpret_cast<void*>(static_cast<std::uintptr_t>(a[0]))); return 0.0; });
      em::export_function("_sim_pending", [](double const* a, size_t) { W->pending(int(a[0]), em::text("argument")); return 0.0; });
      return true; }();
    (void) once;
    em::call("reset");
    nbdl::js::init();
    int h0 = em::handles();
    {
      js_world w; W = &w;
      int ops = range(5, 60);
      while (ops--)
      {
        sim::step(); sim::advance(1000 + choose(20000));
        switch (sim::weighted({10, 2, 4, 2, 4}))
        {
          case 0: w.value_op(); break;
          case 1: w.bind_op(); break;
          case 2: w.callback_op(); break;
          case 3: w.start(); break;
          case 4: w.settle_one(false); break;
        }
        w.look("after a step");
      }
      sim::nontrivial();
      for (int i = 0; i < 200 && w.settle_one(true); i++) sim::step();
      for (auto& c : w.chains) if (!c.done) sim::fail("P24", "not-settled", "chain %d never ended", c.id);
      em::call("settle_again");                  // JavaScript still has the functions of ended chains
      w.cbs.clear();
    }
    W = nullptr;
    if (int n = em::call("registry")) sim::fail("P24", "values-left", "%d JavaScript values are kept when everything is gone", n);
    if (int n = em::handles() - h0) sim::fail("P24", "handles-left", "%d handles are kept when everything is gone", n);
  }
  static sim::add_scenario reg("vals", vals_scenario);
}

extern "C" void sim_c_routine(int resolve, int reject, int self, int a)
{
  em::call("c_routine", {double(resolve), double(reject), double(self), double(a)});
}
void sim_c_routine_of(std::initializer_list<double> h) { em::call("c_routine", h); }
