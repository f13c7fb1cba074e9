// Endpoints of the browser's WebSocket between the C++ code and a simulated net.
#define CONSOLE_LOG(x)
#include "web_page.hpp"
#include <nbdl/endpoint_open.hpp>
#include <nbdl/endpoint_handler.hpp>
#include <nbdl/websocket_api/client_endpoint.hpp>
#include <nbdl/websocket_api/json_payload.hpp>
#include <nbdl/js.hpp>
#include <sanitizer/asan_interface.h>
#include <deque>
#include <queue>

namespace web
{
  using sim::choose; using sim::flip; using sim::range; using sim::log; using sim::probe; using sim::fault;
  namespace event = nbdl::endpoint_event;
  using nbdl::websocket_api::json_payload;

  static std::string hex(std::string const& s)
  { static char const* d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
  static std::string unhex(std::string const& s)
  {
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += char(v(s[i]) * 16 + v(s[i + 1])); return r;
  }
  static std::string brief(std::string const& s) { return s.size() < 60 ? s : s.substr(0, 50) + "... (" + std::to_string(s.size()) + " bytes)"; }

  enum kind_t { JSON, BYTES, CHARS };
  constexpr char const* kind_name[] = {"JSON", "bytes", "chars"};
  struct frame { bool text; std::string data; bool operator==(frame const&) const = default; };

  // what the endpoints tell the world
  struct world_if
  {
    virtual void on_ready(int slot, uint64_t gen) = 0;
    virtual void on_message(int slot, uint64_t gen, std::string what, std::function<void()> echo) = 0;
    virtual void on_close(int slot, uint64_t gen) = 0;
  };
  static world_if* the_world;

  struct endpoint_if { virtual ~endpoint_if() = default; virtual void send(std::string const&) = 0; virtual void close() = 0; };

  template <typename Payload> struct payload_of;
  template <> struct payload_of<json_payload>
  {
    static std::string out(json_payload const& p)
    { em::call("json_of", {double(nbdl::js::get_handle(p))}); return em::text("json_of", {double(nbdl::js::get_handle(p))}); }
    static void in(json_payload& p, std::string const& s) { em::call_s("json_set", {double(nbdl::js::get_handle(p))}, s); }
  };
  template <typename C> struct payload_of<std::vector<C>>
  {
    static std::string out(std::vector<C> const& p) { return std::string(p.begin(), p.end()); }
    static void in(std::vector<C>& p, std::string const& s) { p.assign(s.begin(), s.end()); }
  };

  template <typename Payload>
  struct endpoint : endpoint_if
  {
    static auto open(std::string const& url, int slot, uint64_t gen)
    {
      return nbdl::endpoint_open(nbdl::websocket_api::client_endpoint{url, {"token"}, {}}, std::queue<Payload>{}, nbdl::endpoint_handler(
          event::on_ready([=](auto&) { the_world->on_ready(slot, gen); })
        , event::on_message([=](auto& self, Payload const& p) { the_world->on_message(slot, gen, payload_of<Payload>::out(p), [&] { self.send_message(p); }); })
        , event::on_close([=](auto&, auto&&...) { the_world->on_close(slot, gen); })));
    }
    decltype(open("", 0, 0)) e;
    endpoint(std::string const& url, int slot, uint64_t gen) : e(open(url, slot, gen)) { }
    void send(std::string const& s) override { Payload p; payload_of<Payload>::in(p, s); e.send_message(p); }
    void close() override { e.send_close(); }
  };
  constexpr size_t room = std::max({sizeof(endpoint<json_payload>), sizeof(endpoint<std::vector<unsigned char>>), sizeof(endpoint<std::vector<char>>)});

  static std::string json_string()
  {
    switch (choose(9))
    {
      case 0: return "\"\""; case 1: return "\"a\""; case 2: return "\"h\xc3\xa4\xe2\x82\xac\xf0\x9f\x98\x80\""; case 3: return "\"\\\"\\\\/\\b\\f\\n\\r\\t\"";
      case 4: return "\"\\u0000\\u001f\x7f\""; case 5: return "\"</script>\""; case 6: return "\"__proto__\"";
      default: return "\"t" + std::to_string(choose(1000)) + "\"";
    }
  }
  static std::string json(int depth)
  {
    switch (choose(depth ? 9 : 6))
    {
      case 0: return std::to_string(int(choose(200)) - 100); case 1: case 2: return json_string(); case 3: return flip(1, 2) ? "true" : "false"; case 4: return "null";
      case 5: { static char const* n[] = {"0.1", "1e+21", "5e-324", "9007199254740993", "-2147483648", "4294967296", "1.7976931348623157e+308"}; int i = choose(7); return i == 3 ? "9007199254740992" : n[i]; }
      case 6: case 7: { std::string s = "["; int n = choose(4); for (int i = 0; i < n; i++) s += (i ? "," : "") + json(depth - 1); return s + "]"; }
      default: { std::string s = "{"; int n = choose(4); for (int i = 0; i < n; i++) s += std::string(i ? "," : "") + "\"k" + char('a' + i) + "\":" + json(depth - 1); return s + "}"; }
    }
  }
  static std::string spaced(std::string const& j)
  {
    // white space between the tokens
    std::string r; bool in = false;
    for (size_t i = 0; i < j.size(); i++)
    {
      char c = j[i];
      r += c;
      if (in && c == '\\') r += j[++i];
      else if (c == '"') in = !in;
      else if (!in && (c == ',' || c == ':' || c == '[' || c == '{')) r += std::string(choose(3), " \n\t"[choose(3)]);
    }
    return r;
  }
  static std::string octets()
  {
    static uint32_t id = 0; (void) id;
    size_t n = choose(6) ? choose(40) : choose(3) ? 125 + choose(4) : 65530 + choose(12);
    std::string s = sim::pattern(choose(1000), n);
    return s;
  }

  struct net : world_if
  {
    enum state_t { CONNECTING, OPEN, CLOSING, CLOSED };
    struct socket
    {
      std::string url; int slot; uint64_t gen;
      state_t state = CONNECTING;
      std::vector<frame> seen;               // what the page put on the socket
      std::vector<frame> meant;              // what its endpoint was told to send while the socket was open
      std::deque<frame> coming;              // on its way to the page
      bool server_closes = false;            // behind what is on its way
      int closes = 0;
    };
    struct place
    {
      alignas(std::max_align_t) unsigned char room_[room];
      endpoint_if* e = nullptr; uint64_t gen = 0; kind_t kind = JSON; int sock = -1;
      int readies = 0, closes = 0; bool asked_close = false;
      std::vector<std::string> got;
    };
    place at[4];
    std::vector<socket> socks;
    uint64_t gens = 0;
    int depth = 0;
    std::vector<std::string> due;              // what the endpoint has to be given now
    int due_ready = -1, due_close = -1, due_message = -1; uint64_t due_gen = 0;
    bool hostile = false;

    net() { the_world = this; for (auto& p : at) __asan_poison_memory_region(p.room_, room); }
    ~net() { for (auto& p : at) { if (p.e) destroy(p); __asan_unpoison_memory_region(p.room_, room); } the_world = nullptr; }

    // --- the socket, as the page uses it
    void event(int kind, int id, std::string const& s)
    {
      if (kind == 0)
      {
        socket k; k.url = s; k.slot = opening; k.gen = gens; socks.push_back(k);
        if (int(socks.size()) - 1 != id) sim::fail("P23", "sockets", "an endpoint made more than one socket");
        log("socket %d for %s", id, s.c_str());
      }
      else if (kind == 4) { socks[id].closes++; if (socks[id].state == OPEN || socks[id].state == CONNECTING) socks[id].state = CLOSING; log("socket %d: close()", id); }
      else
      {
        frame f{kind == 1, kind == 3 ? "the whole memory" : unhex(s)};
        log("socket %d: send %s %s", id, kind == 1 ? "text" : "binary", kind == 1 ? brief(f.data).c_str() : std::to_string(f.data.size()).c_str());
        socks[id].seen.push_back(f);
        if (kind == 3) sim::fail("P23", "sent", "the whole memory of the program is sent instead of the payload");
        compare(socks[id], false);
      }
    }
    void compare(socket& k, bool done)
    {
      for (size_t i = 0; i < k.seen.size(); i++)
      {
        if (i >= k.meant.size()) { sim::fail("P23", "sent", "a message that nobody sent goes out: %s", brief(k.seen[i].data).c_str()); return; }
        if (!(k.seen[i] == k.meant[i])) { sim::fail("P23", "sent", "message %zu goes out as %s %s, not %s %s", i, k.seen[i].text ? "text" : "binary", brief(k.seen[i].data).c_str()
          , k.meant[i].text ? "text" : "binary", brief(k.meant[i].data).c_str()); return; }
      }
      if (done && k.seen.size() != k.meant.size()) sim::fail("P23", "not-sent", "%zu of %zu messages went out", k.seen.size(), k.meant.size());
    }
    int opening = -1;

    // --- what the program does
    void open()
    {
      int s = -1; for (int i = 0; i < 4; i++) if (!at[i].e) { s = i; if (flip(1, 2)) break; }
      if (s < 0) return;
      auto& p = at[s];
      __asan_unpoison_memory_region(p.room_, room);
      p.kind = kind_t(choose(3)); p.gen = ++gens; p.readies = p.closes = 0; p.asked_close = false; p.got.clear();
      std::string url = "ws://sim:" + std::to_string(8000 + s) + "/" + std::to_string(p.gen) + (flip(1, 4) ? "/h\xc3\xa4" : "");
      opening = s; size_t before = socks.size();
      log("open %s endpoint %d.%llu", kind_name[p.kind], s, (unsigned long long) p.gen);
      p.e = p.kind == JSON ? static_cast<endpoint_if*>(new (p.room_) endpoint<json_payload>(url, s, p.gen))
          : p.kind == BYTES ? static_cast<endpoint_if*>(new (p.room_) endpoint<std::vector<unsigned char>>(url, s, p.gen))
          : static_cast<endpoint_if*>(new (p.room_) endpoint<std::vector<char>>(url, s, p.gen));
      opening = -1;
      if (socks.size() != before + 1) { sim::fail("P23", "sockets", "an endpoint made %zu sockets", socks.size() - before); return; }
      if (socks.back().url != url) sim::fail("P23", "url", "the socket is for %s, not %s", socks.back().url.c_str(), url.c_str());
      p.sock = int(before);
    }
    void destroy(place& p)
    {
      log("destroy endpoint %d.%llu%s", int(&p - at), (unsigned long long) p.gen, depth ? " inside a handler" : "");
      if (depth) probe("sock:destroyed-in-handler");
      if (socks[p.sock].state != CLOSED) probe("sock:destroyed-while-open");
      auto* e = p.e; p.e = nullptr;
      e->~endpoint_if();
      memset(p.room_, 0xbe, room);
      __asan_poison_memory_region(p.room_, room);
    }
    std::string make(kind_t k) { return k == JSON ? json(3) : octets(); }
    void send(place& p)
    {
      auto& k = socks[p.sock];
      if (k.state == CONNECTING) return;         // asked for only once ready
      std::string s = make(p.kind);
      log("endpoint %d.%llu sends %s", int(&p - at), (unsigned long long) p.gen, p.kind == JSON ? brief(s).c_str() : std::to_string(s.size()).c_str());
      if (k.state == OPEN) k.meant.push_back({p.kind == JSON, s});
      if (depth) probe("sock:sent-in-handler");
      p.e->send(s);
      if (p.e) compare(socks[p.sock], true);
    }
    void act(place& p)
    {
      if (!p.e) return;
      switch (sim::weighted({8, 2, 2}))
      {
        case 0: { int n = 1 + choose(3); while (n-- && p.e) send(p); break; }
        case 1:
        {
          bool was = socks[p.sock].closes;
          log("endpoint %d.%llu closes", int(&p - at), (unsigned long long) p.gen);
          auto st = socks[p.sock].state;
          p.e->close();
          if (!was && st < CLOSING && !socks[p.sock].closes) sim::fail("P23", "not-closed", "the socket was not closed when asked");
          break;
        }
        case 2: destroy(p); break;
      }
    }
    void inside(int slot, uint64_t gen)
    {
      if (depth > 2) return;
      depth++;
      int n = choose(3);
      while (n--)
      {
        if (flip(1, 6)) open();
        else { auto& p = flip(2, 3) ? at[slot] : at[choose(4)]; if (p.e && (p.gen == gen || &p != &at[slot])) act(p); }
      }
      depth--;
    }

    // --- what the endpoints say
    place* who(int slot, uint64_t gen, char const* what)
    {
      auto& p = at[slot];
      if (!p.e || p.gen != gen) { sim::fail("P23", "after-destruction", "a destroyed endpoint is told %s", what); return nullptr; }
      return &p;
    }
    void on_ready(int slot, uint64_t gen) override
    {
      log("endpoint %d.%llu: ready", slot, (unsigned long long) gen);
      auto* p = who(slot, gen, "that it is ready"); if (!p) return;
      if (due_ready != slot || due_gen != gen) sim::fail("P23", "ready", "an endpoint is told that it is ready when nothing of the kind happened");
      due_ready = -1;
      if (p->readies++) sim::fail("P23", "ready", "an endpoint is ready twice");
      inside(slot, gen);
    }
    void on_message(int slot, uint64_t gen, std::string what, std::function<void()> echo) override
    {
      auto* p = who(slot, gen, "of a message"); if (!p) return;
      log("endpoint %d.%llu: %s", slot, (unsigned long long) gen, p->kind == JSON ? brief(what).c_str() : std::to_string(what.size()).c_str());
      if (due_message != slot || due_gen != gen || due.empty()) { sim::fail("P23", "message", "an endpoint is told of a message that did not arrive: %s", brief(what).c_str()); return; }
      std::string d = due.front(); due.clear(); due_message = -1;
      if (what != d) sim::fail("P23", "message", "a message arrives as %s, not %s", brief(what).c_str(), brief(d).c_str());
      if (flip(1, 4) && socks[p->sock].state == OPEN)
      {
        probe("sock:echo");
        socks[p->sock].meant.push_back({p->kind == JSON, d});
        echo();
        compare(socks[p->sock], true);
      }
      inside(slot, gen);
    }
    void on_close(int slot, uint64_t gen) override
    {
      log("endpoint %d.%llu: closed", slot, (unsigned long long) gen);
      auto* p = who(slot, gen, "of its end"); if (!p) return;
      if (due_close != slot || due_gen != gen) sim::fail("P23", "close", "an endpoint is told of an end that did not happen");
      due_close = -1;
      if (p->closes++) sim::fail("P23", "close", "an endpoint is told of its end twice");
      inside(slot, gen);
    }

    // --- the network
    template <typename F> bool tell(int id, int ready, int message, int close, F f)
    {
      auto& k = socks[id]; auto& p = at[k.slot];
      bool there = p.e && p.gen == k.gen && p.sock == id;
      due_gen = k.gen; due_ready = due_message = due_close = -1;
      if (there) { if (ready) due_ready = k.slot; if (message) due_message = k.slot; if (close) due_close = k.slot; }
      try { f(); }
      catch (em::js_error const& e) { log("JavaScript: %s", e.what()); if (!hostile) sim::fail("P23", "error", "an event of the socket ends in an error: %s", e.what()); }
      if (!hostile)
      {
        if (due_ready >= 0) sim::fail("P23", "ready", "an endpoint is not told that it is ready");
        if (due_message >= 0) sim::fail("P23", "message", "an endpoint is not told of a message");
        if (due_close >= 0) sim::fail("P23", "close", "an endpoint is not told of its end");
      }
      due_ready = due_message = due_close = -1; due.clear();
      return there;
    }
    void connect(int id)
    {
      log("socket %d opens", id);
      socks[id].state = OPEN;
      tell(id, 1, 0, 0, [&] { em::call("ws_open", {double(id)}); });
    }
    void end(int id, int code, bool error)
    {
      log("socket %d ends %d", id, code);
      socks[id].coming.clear(); socks[id].state = CLOSED;
      tell(id, 0, 0, 1, [&] { em::call("ws_close", {double(id), double(code), code == 1000 ? 1.0 : 0.0, error ? 1.0 : 0.0}); });
    }
    void deliver(int id)
    {
      auto& k = socks[id];
      frame f = k.coming.front(); k.coming.pop_front();
      auto& p = at[k.slot];
      bool there = p.e && p.gen == k.gen;
      if (k.state != OPEN) return;
      std::string said = f.data;
      hostile = false;
      if (there && p.kind == JSON)
      {
        if (!f.text) { hostile = true; fault("binary for a reader of JSON"); }
        else if (said.size() && said[0] == '!') { hostile = true; fault("malformed JSON"); said = said.substr(1); f.data = said; }
        else f.data = spaced(said);
      }
      due.clear(); if (!hostile) due.push_back(said);
      tell(id, 0, 1, 0, [&] { em::call_s(f.text ? "ws_text" : "ws_binary", {double(id)}, hex(f.data)); });
      hostile = false;
    }
    bool step_net(bool settle)
    {
      std::vector<int> a;
      for (size_t i = 0; i < socks.size(); i++) if (socks[i].state != CLOSED) a.push_back(i);
      if (a.empty()) return false;
      int id = a[choose(a.size())];
      auto& k = socks[id];
      if (k.state == CONNECTING)
      {
        if (!settle && flip(1, 6)) { fault("connection refused"); end(id, 1006, true); }
        else connect(id);
        return true;
      }
      if (!settle && flip(1, 30)) { fault("connection lost"); end(id, 1006, flip(1, 2)); return true; }
      if (!k.coming.empty()) { deliver(id); return true; }
      if (k.state == CLOSING) { end(id, flip(1, 4) ? 1005 : 1000, false); return true; }
      if (k.server_closes) { end(id, flip(1, 2) ? 1000 : 1001, false); return true; }
      return false;
    }
    bool idle()
    {
      for (auto& k : socks) if (k.state == CONNECTING || k.state == CLOSING || (k.state == OPEN && (k.server_closes || !k.coming.empty()))) return false;
      return true;
    }
    void server()
    {
      std::vector<int> a;
      for (size_t i = 0; i < socks.size(); i++) if (socks[i].state == OPEN && !socks[i].server_closes) a.push_back(i);
      if (a.empty()) return;
      auto& k = socks[a[choose(a.size())]];
      if (flip(1, 12)) { k.server_closes = true; return; }
      int n = 1 + choose(3);
      kind_t kind = at[k.slot].e && at[k.slot].gen == k.gen ? at[k.slot].kind : JSON;
      while (n--)
      {
        if (kind == JSON)
        {
          if (flip(1, 16)) k.coming.push_back({false, octets()});
          else if (flip(1, 16)) k.coming.push_back({true, "!{\"a\":"});
          else k.coming.push_back({true, json(3)});
        }
        else if (flip(1, 3)) k.coming.push_back({true, flip(1, 2) ? "h\xc3\xa4\xe2\x82\xac" + std::to_string(choose(100)) : flip(1, 4) ? "" : std::string("a\0b", 3)});
        else k.coming.push_back({false, octets()});
      }
    }
  };

  static net* the_net;
  static void sock_scenario()
  {
    sim::leaks_for("P23");
    static bool once = [] {
      using namespace nbdl::websocket_api::detail;
      auto p = [](double d) { return reinterpret_cast<void*>(static_cast<std::uintptr_t>(d)); };
      em::export_function("__nbdl_endpoint_ready", [p](double const* a, size_t) { _nbdl_endpoint_ready(p(a[0])); return 0.0; });
      em::export_function("__nbdl_endpoint_message", [p](double const* a, size_t) { _nbdl_endpoint_message(p(a[0])); return 0.0; });
      em::export_function("__nbdl_endpoint_close", [p](double const* a, size_t) { _nbdl_endpoint_close(p(a[0])); return 0.0; });
      em::export_function("__nbdl_endpoint_value_handle", [p](double const* a, size_t) { return double(_nbdl_endpoint_value_handle(p(a[0]))); });
      em::export_function("_sim_socket", [](double const* a, size_t) { if (the_net) the_net->event(int(a[0]), int(a[1]), em::text("argument")); return 0.0; });
      return true; }();
    (void) once;
    em::call("reset");
    nbdl::js::init();
    int h0 = em::handles();
    {
      net n; the_net = &n;
      n.open();
      int ops = range(5, 50);
      while (ops--)
      {
        sim::step(); sim::advance(1000 + choose(20000));
        switch (sim::weighted({8, 4, 4, 1}))
        {
          case 0: n.step_net(false); break;
          case 1: n.server(); break;
          case 2: { auto& p = n.at[choose(4)]; if (p.e) n.act(p); break; }
          case 3: n.open(); break;
        }
      }
      sim::nontrivial();
      // faults are over: everything still on its way arrives
      for (int i = 0; i < 600 && !n.idle(); i++) { sim::step(); n.step_net(true); }
      if (!n.idle()) sim::fail("P23", "no-rest", "messages and ends are still on their way");
      for (auto& p : n.at) if (p.e)
      {
        auto& k = n.socks[p.sock];
        n.compare(k, true);
        if (p.readies == 0 && k.state == net::OPEN) sim::fail("P23", "ready", "a connected endpoint was never ready");
      }
      for (auto& p : n.at) if (p.e) { n.destroy(p); }
      // what sockets do afterwards concerns nobody
      for (int i = 0; i < 10; i++) { n.server(); n.step_net(false); }
      the_net = nullptr;
    }
    if (int n = em::call("registry")) sim::fail("P23", "values-left", "%d JavaScript values are kept when every endpoint is gone", n);
    if (int n = em::handles() - h0) sim::fail("P23", "handles-left", "%d handles of JavaScript values are kept when every endpoint is gone", n);
  }
  static sim::add_scenario reg("socket", sock_scenario);
}
