// Clients and a server, each a real context, over real WebSocket endpoints and
// a simulated network; and the messages between them, altered on the way.
#include "sys.hpp"
#include "ws_common.hpp"
#include <json/json.h>

namespace app
{
  using sim::choose; using sim::flip; using sim::range; using sim::log; using sim::fault; using sim::probe;

  static std::string some_text()
  {
    static const std::vector<std::string> bits = {"a", "note", " ", "\"", "\\", "/", "\n", "\t", "\x01", "\x1f", "\x7f", "é", "ß", "漢", "😀", "</", "{", "]", ",", "null", "\\u0041", "\xe2\x80\xa8", "=", "+"};
    std::string s; int n = sim::weighted({3, 3, 2, 1}); n = n == 3 ? range(4, 30) : n;
    while (n--) s += sim::any_of(bits);
    return s;
  }
  static std::string some_bytes(uint32_t& id)
  {
    static const std::vector<uint32_t> lens = {0, 1, 2, 3, 4, 5, 6, 47, 48, 49, 200};
    return sim::pattern(++id, sim::any_of(lens));
  }
  static int some_int()
  {
    static const std::vector<int> v = {0, 1, -1, 7, 127, 128, -128, 255, 65536, 2147483647, -2147483647 - 1};
    return flip(1, 4) ? (int) choose(100000) - 50000 : sim::any_of(v);
  }
  static plain some_plain(uint32_t& id)
  {
    plain p; p.count = some_int(); p.mask = some_int(); p.done = flip(1, 2);
    p.weight = sim::any_of(std::vector<double>{0, 1, -1, 0.5, 0.1, 1e300, -1e-300, 5e-324, 123456789.123456789, 3e9});
    p.mood = (int) choose(3) - 1; p.text = some_text();
    p.bytes = some_bytes(id); p.blob = some_bytes(id);
    for (int n = choose(4); n--;) p.numbers.push_back(some_int());
    for (int n = choose(3); n--;) p.tags.push_back({some_text(), some_int()});
    p.form = choose(3); p.form_n = p.form == 2 ? some_int() & 0x7fffffff : some_int(); p.form_s = some_text();
    p.has_maybe = flip(1, 2); p.maybe = some_int();
    p.author = sim::pattern(++id, 16);
    return p;
  }

  // ---------------------------------------------------------------- replicas
  struct link_t
  {
    sim::conn_t* conn; ws::app_t S, C; int client; int number;
    bool s_up = false, c_up = true, forged = false;      // which side still uses it; a client that sends what it should not
    std::vector<std::string> up_sent, down_sent; size_t up_got = 0, down_got = 0;
  };
  struct client_n { size_t node; std::unique_ptr<client_i> ctx; link_t* link = nullptr; int board_seen = 0; };

  struct replicas_t
  {
    ws::world_t w; db_t db;
    std::unique_ptr<server_i> srv;
    std::vector<std::unique_ptr<client_n>> clients;
    std::vector<std::unique_ptr<link_t>> links;
    std::vector<ws::app_t*> doomed;
    uint32_t id = 0; int links_made = 0; bool text_kind = false;
    static constexpr int keys = 7;

    void start_server()
    {
      srv = make_server(db, [this](std::string const& text, std::string const& desc) {
        for (auto& l : links) if (l->s_up) { l->down_sent.push_back(desc); l->S.send(text); } });
    }
    void connect(int i)
    {
      auto& n = *clients[i]; auto l = new link_t; links.emplace_back(l); n.link = l;
      l->client = i; l->number = links_made++; l->conn = &w.k.make_conn();
      l->S.name = "S" + std::to_string(l->number); l->C.name = "C" + std::to_string(i) + "." + std::to_string(l->number);
      log("client %d connects (%d)", i, l->number);
      n.ctx = make_client([l](std::string const& text, std::string const& desc) { if (l->c_up) { l->up_sent.push_back(desc); l->C.send(text); } });
      l->S.on_ready_hook = [this, l] {
        l->s_up = true;
        srv->welcome([l](std::string const& text, std::string const& desc) { l->down_sent.push_back(desc); l->S.send(text); });
        l->S.start();
      };
      l->C.on_ready_hook = [l] { l->C.start(); };
      l->S.on_message_hook = [this, l](std::string const& text) { arrived(*l, text, true); };
      l->C.on_message_hook = [this, l](std::string const& text) { arrived(*l, text, false); };
      l->S.on_terminal_hook = [l] { l->s_up = false; };
      l->C.on_terminal_hook = [l] { l->c_up = false; };
      if (flip(1, 2)) ws::open_server(l->S, w.adopt(*w.nodes[0], l->conn->e[0].fd)); else ws::open_server_text(l->S, w.adopt(*w.nodes[0], l->conn->e[0].fd));
      ws::tcp::socket s = w.adopt(*w.nodes[n.node], l->conn->e[1].fd);
      if (flip(1, 2)) ws::open_client(l->C, s, "t"); else ws::open_client_text(l->C, s, "t");
    }
    void arrived(link_t& l, std::string const& text, bool up)
    {
      auto& sent = up ? l.up_sent : l.down_sent; auto& got = up ? l.up_got : l.down_got;
      std::string want = got < sent.size() ? sent[got] : "nothing";
      got++;
      if (!up && (!l.c_up || clients[l.client]->link != &l)) return;
      if (up && !l.s_up) return;
      // looked at before it is applied: applying sends more
      auto r = up ? srv->parse(text, false) : clients[l.client]->ctx->parse(text, false);
      bool forged = want.starts_with("forged");
      if (!forged)
      {
        auto n = up ? l.S.name.c_str() : l.C.name.c_str();
        if (r.outcome == 0) sim::fail("P17,P18", "message-refused", "%s refuses the message '%.300s': %s", n, want.c_str(), r.desc.c_str());
        else if (r.desc != want) sim::fail("P17,P18", "message-differs", "%s was given '%.400s', the message sent is '%.400s'", n, r.desc.c_str(), want.c_str());
      }
      if (r.outcome == 1)
      {
        log("%s: %.200s", up ? l.S.name.c_str() : l.C.name.c_str(), r.desc.c_str());
        if (up) srv->parse(text, true); else clients[l.client]->ctx->parse(text, true);
      }
      else if (forged) probe("sys:forged-refused");
    }
    void hang_up(link_t& l)
    {
      static const int errs[] = {ECONNRESET, ETIMEDOUT, EPIPE};
      w.k.reset(*l.conn, errs[choose(3)], flip(1, 2));
    }
    void drop(ws::app_t& a) { a.stop(); a.release(); }
    // the application notices that its connection is gone
    void reap()
    {
      for (auto& n : clients) if (n->link && !n->link->c_up) { n->link = nullptr; n->ctx.reset(); log("client %d forgets", (int) n->node); }
    }
    bool can_talk(client_n& n) { return n.link && n.link->c_up && n.link->C.opened && !n.link->C.released; }
    key_pair some_key() { int room = range(1, 2); return {room, (int) choose(keys)}; }

    void user_op(client_n& n)
    {
      auto k = some_key();
      uint32_t act = sim::weighted({3, 4, 5, 2, 2, 6});
      if (act == 5) { auto r = n.ctx->look(k); log("client %zu looks at %d/%d: %s", n.node, k.first, k.second, look_name[r.state]); check_look(r); return; }
      plain p; if (act != 1 && act != 3) p = some_plain(id);
      log("client %zu does %u on %d/%d", n.node, act, k.first, k.second);
      n.ctx->op(act, k, p);
    }
    void check_look(look_r const& r)
    {
      if (r.calls != 1 && r.state != NOTHING) { }
    }
    void compare(const char* who, key_pair k, look_r const& r, bool must)
    {
      auto it = db.data.find(k); std::string want = it == db.data.end() ? "" : dump_plain(it->second);
      if (r.state == VALUE && it == db.data.end()) sim::fail("P17", "replica-keeps-deleted", "%s still has %d/%d, the server's data does not", who, k.first, k.second);
      if (r.state == VALUE && r.value != want) sim::fail("P17", "replica-differs", "%s has %d/%d as '%.300s', the server's data is '%.300s'", who, k.first, k.second, r.value.c_str(), want.c_str());
      if (r.state == MISSING && it != db.data.end()) sim::fail("P17", "replica-misses", "%s takes %d/%d for absent, the server's data has it", who, k.first, k.second);
      if (must && r.state != VALUE && r.state != MISSING) sim::fail("P17", "never-resolved", "%s asked for %d/%d and knows nothing about it although all came to rest", who, k.first, k.second);
    }
    void check_sequences(bool rest)
    {
      for (auto& l : links)
      {
        if (l->up_got > l->up_sent.size()) sim::fail("P17", "extra-message", "%s was given %zu messages, %zu were sent", l->S.name.c_str(), l->up_got, l->up_sent.size());
        if (l->down_got > l->down_sent.size()) sim::fail("P17", "extra-message", "%s was given %zu messages, %zu were sent", l->C.name.c_str(), l->down_got, l->down_sent.size());
        if (rest && l->s_up && l->c_up && (l->up_got != l->up_sent.size() || l->down_got != l->down_sent.size()))
          sim::fail("P17", "message-missing", "over a working connection %zu of %zu messages arrived at the server and %zu of %zu at client %d", l->up_got, l->up_sent.size(), l->down_got, l->down_sent.size(), l->client);
      }
    }

    void run()
    {
      ws::random_net(w.k.cfg, flip(1, 3));
      int n_clients = 1 + sim::weighted({2, 4, 2});
      w.add_node();
      for (int i = 0; i < n_clients; i++) { w.add_node(); clients.push_back(std::make_unique<client_n>()); clients.back()->node = i + 1; }
      static const uint32_t syncs[] = {1, 2, 4};
      db.sync = syncs[choose(3)];
      for (int n = choose(6); n--;) db.data[some_key()] = some_plain(id);
      db.durable = db.data;
      start_server();
      for (int i = 0; i < n_clients; i++) connect(i);

      uint32_t ops = range(4, 40), stalls = sim::weighted({3, 1, 1}), cuts = sim::weighted({3, 1, 1}), resets = sim::weighted({3, 2, 1}), crashes = sim::weighted({4, 1, 1}), forgeries = sim::weighted({3, 1, 1});
      std::vector<std::pair<sim::conn_t*, uint64_t>> cut;
      auto do_op = [&] {
        reap();
        std::vector<uint32_t> wt; std::vector<std::function<void()>> a;
        auto add = [&](uint32_t x, std::function<void()> f) { wt.push_back(x); a.push_back(std::move(f)); };
        for (auto& n : clients)
        {
          auto c = n.get(); int i = c->node - 1;
          if (can_talk(*c) && ops) add(6, [this, c, &ops] { ops--; user_op(*c); });
          if (!c->link) add(4, [this, i] { connect(i); });
          if (can_talk(*c) && resets) add(1, [this, c, &resets] { resets--; fault("connection-reset"); log("the connection of client %zu breaks", c->node); hang_up(*c->link); });
          if (can_talk(*c) && crashes) add(1, [this, c, &crashes] {
            crashes--; fault("client-crash"); log("client %zu crashes", c->node);
            auto l = c->link; l->c_up = false; drop(l->C); hang_up(*l); c->link = nullptr; c->ctx.reset(); });
          if (can_talk(*c) && c->link->C.ready && forgeries) add(2, [this, c, &forgeries] { forgeries--; forge(*c->link); });
        }
        if (ops) add(3, [this, &ops] {
          ops--; auto k = some_key(); uint32_t act = choose(3); fault("unsolicited-change"); log("someone else does %u on %d/%d", act, k.first, k.second);
          srv->change(act, k, act == 2 ? plain{} : some_plain(id)); });
        if (ops) add(1, [this, &ops] { ops--; auto k = some_key(); log("the server looks at %d/%d", k.first, k.second); srv->look(k); });
        if (!db.reads.empty()) add(6, [this] { log("the database answers"); srv->answer_read(); });
        if (crashes) add(1, [this, &crashes] {
          crashes--; fault("server-crash"); log("the server crashes");
          for (auto& l : links) if (l->S.opened && !l->S.released) { l->s_up = false; drop(l->S); hang_up(*l); }
          srv.reset(); db.data = db.durable; db.reads.clear();
          for (auto& l : links) l->s_up = false;
          start_server(); });
        add(1, [this] { log("the database writes its data down"); db.durable = db.data; });
        if (stalls) add(1, [this, &stalls] { stalls--; auto n = choose(w.nodes.size()); w.nodes[n]->stalled = 5 + choose(80); fault("node-stall"); log("stall node %u", n); });
        if (cuts) add(1, [this, &cuts, &cut] {
          for (auto& n : clients) if (n->link && flip(1, 2))
          { cuts--; n->link->conn->cut = true; cut.push_back({n->link->conn, sim::g.sh->steps + 10 + choose(120)}); fault("partition"); log("partition of client %zu", n->node); return; } });
        a[sim::weighted(wt)]();
      };
      uint32_t budget = 500 + choose(4000), quiet = 0, opw = 1 + choose(3);
      while (budget--)
      {
        for (auto it = cut.begin(); it != cut.end();) if (sim::g.sh->steps >= it->second) { it->first->cut = false; log("heal"); w.wake(); it = cut.erase(it); } else ++it;
        if (!w.chaos_step(ops + !db.reads.empty(), do_op, opw)) { sim::g.sh->steps++; w.wake(); if (++quiet > 150 || (cut.empty() && quiet > 3)) break; }
        else quiet = 0;
        check_sequences(false);
      }
      for (auto& [c, t] : cut) c->cut = false;

      // faults stop
      db.sync = 1;
      auto rest = [&] {
        for (int r = 0; r < 50; r++)
        {
          if (!w.settle()) { sim::fail("P17", "no-rest", "the application does not come to rest once faults stop"); return false; }
          reap();
          bool more = false;
          for (size_t i = 0; i < clients.size(); i++) if (!clients[i]->link) { connect(i); more = true; }
          while (!db.reads.empty()) { srv->answer_read(); more = true; }
          if (!more) return true;
        }
        sim::fail("P17", "no-rest", "the application does not come to rest once faults stop"); return false;
      };
      if (!rest()) return;
      check_sequences(true);
      for (auto& n : clients)
        if (!n->link->s_up || !n->link->C.ready) sim::fail("P17", "not-connected", "client %zu is not connected although the faults stopped", n->node);
      auto look_at_all = [&](bool must) {
        for (int room = 1; room <= 2; room++) for (int k = 0; k < keys; k++)
        {
          compare("the server", {room, k}, srv->look({room, k}), must);
          for (auto& n : clients) { char b[20]; snprintf(b, sizeof b, "client %zu", n->node); compare(b, {room, k}, n->ctx->look({room, k}), must); }
        }
      };
      look_at_all(false);
      if (!rest()) return;
      look_at_all(true);
      check_sequences(true);
      for (auto& n : clients)
        if (n->ctx->board(1) != srv->board(1)) sim::fail("P17", "board-differs", "client %zu has '%.300s', the server '%.300s'", n->node, n->ctx->board(1).c_str(), srv->board(1).c_str());
      size_t moved = 0; for (auto& l : links) moved += l->up_got + l->down_got;
      probe("sys:messages", moved); if (moved > 4) sim::nontrivial();
      if (links.size() > clients.size()) probe("sys:reconnected");

      for (auto& l : links) { l->s_up = l->c_up = false; drop(l->S); drop(l->C); }
      for (auto& l : links) w.k.reset(*l->conn, ECONNRESET, false);
      w.settle();
    }
    // a client that is not what it should be
    void forge(link_t& l);
  };

  // ------------------------------------------------------------------- wire
  // does what was understood (a) say no more and nothing else than the text did (b)?
  static std::string unbase64(std::string const& s)
  {
    std::string o; uint32_t acc = 0; int bits = 0;
    for (char c : s)
    {
      static const std::string T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
      auto p = T.find(c); if (c == '=' || p == T.npos) break;
      acc = acc << 6 | p; bits += 6; if (bits >= 8) { bits -= 8; o += (char) (acc >> bits); acc &= (1 << bits) - 1; }
    }
    return o;
  }
  static bool valid_base64(std::string const& s)
  {
    static const std::string T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    if (s.size() % 4) return false;
    size_t e = s.find('='); if (e == s.npos) e = s.size();
    if (s.size() - e > 2) return false;
    for (size_t i = 0; i < s.size(); i++) if (i < e ? T.find(s[i]) == T.npos : s[i] != '=') return false;
    return true;
  }
  static bool is_buffer(std::string const& name) { return name == "bytes" || name == "blob" || name == "author"; }
  static bool says(Json::Value const& a, Json::Value const& b, std::string const& name, std::string& where)
  {
    where = name + ": " + a.toStyledString().substr(0, 200) + " from " + b.toStyledString().substr(0, 200);
    if (a.isNull()) return true;                                 // nothing to say
    if (a.isObject())
    {
      if (!b.isObject()) return false;
      for (auto& m : a.getMemberNames()) if (!says(a[m], b[m], m, where)) return false;
      return true;
    }
    if (a.isArray())
    {
      if (!b.isArray() || a.size() != b.size()) return false;
      for (unsigned i = 0; i < a.size(); i++) if (!says(a[i], b[i], name, where)) return false;
      return true;
    }
    if (a.isString())
    {
      if (!b.isString()) return false;
      auto x = a.asString(), y = b.asString(); y = y.c_str();      // text ends at a zero
      if (is_buffer(name)) return valid_base64(y) && unbase64(x) == unbase64(y).substr(0, unbase64(x).size()) && (name != "author" || unbase64(y).size() == 16 || true);
      return x == y;
    }
    // an alternative that is not known is read as none
    if ((name == "form" || name == "maybe") && a.isIntegral() && a.asInt64() == 0) return b.isIntegral() || (b.isArray() && b.size() == 2 && b[0u].isIntegral());
    // a floating point number is as near as one can be
    if (name == "weight") return b.isNumeric() && a.isNumeric() && a.asDouble() == b.asDouble();
    if (a.isIntegral()) return b.isIntegral() && (a.isUInt64() && b.isUInt64() ? a.asUInt64() == b.asUInt64() : a.isInt64() && b.isInt64() ? a.asInt64() == b.asInt64() : false);
    if (a.isDouble()) return b.isNumeric() && a.asDouble() == b.asDouble();
    return a == b;
  }

  static Json::Value read_json(std::string const& s, bool& ok)
  {
    Json::Value v; std::string e; Json::CharReaderBuilder b; std::unique_ptr<Json::CharReader> r(b.newCharReader());
    try { ok = r->parse(s.data(), s.data() + s.size(), &v, &e); } catch (std::exception const&) { ok = false; }
    return v;
  }
  static std::string write_json(Json::Value const& v) { Json::StreamWriterBuilder b; b["indentation"] = ""; return Json::writeString(b, v); }

  static Json::Value odd_value()
  {
    switch (choose(14))
    {
      case 0: return Json::Value();
      case 1: return Json::Value(true);
      case 2: return Json::Value(1.5);
      case 3: return Json::Value("text");
      case 4: return Json::Value(Json::arrayValue);
      case 5: return Json::Value(Json::objectValue);
      case 6: return Json::Value(-1);
      case 7: return Json::Value(Json::Int64(1) << 40);
      case 8: return Json::Value("AAAA");
      case 9: return Json::Value("AA=A");
      case 10: return Json::Value("A");
      case 11: return Json::Value(3000000000u);
      case 12: return Json::Value("aGVsbG8=");
      default: { Json::Value a(Json::arrayValue); for (int i = choose(4); i--;) a.append(choose(5)); return a; }
    }
  }
  static void mutate(Json::Value& v, int depth)
  {
    bool deeper = (v.isObject() || v.isArray()) && v.size() && flip(depth < 12 ? 11 : 0, 12);
    if (deeper && v.isObject()) { auto names = v.getMemberNames(); mutate(v[names[choose(names.size())]], depth + 1); return; }
    if (deeper) { mutate(v[choose(v.size())], depth + 1); return; }
    switch (choose(6))
    {
      case 0: if (v.isObject() && v.size()) { auto n = v.getMemberNames(); v.removeMember(n[choose(n.size())]); return; }
              if (v.isArray() && v.size()) { Json::Value x; v.removeIndex(choose(v.size()), &x); return; }
              v = odd_value(); return;
      case 1: if (v.isObject()) { v["extra"] = odd_value(); return; } if (v.isArray()) { v.append(odd_value()); return; } v = odd_value(); return;
      case 2: if (v.isString()) { auto s = v.asString(); if (s.size()) s[choose(s.size())] = "A=+/ \x01-9"[choose(8)]; v = s; return; }
              if (v.isIntegral()) { v = some_int(); return; } v = odd_value(); return;
      case 3: if (v.isString()) { auto s = v.asString(); s.resize(choose(s.size() + 1)); v = s; return; } v = odd_value(); return;
      case 4: if (v.isString()) { auto s = v.asString(); s += "A=+/ \x01-9"[choose(8)]; v = s; return; } v = odd_value(); return;
      default: v = odd_value();
    }
  }
  static std::string altered(std::string const& text)
  {
    if (flip(1, 3))
    {
      std::string s = text;
      for (int n = 1 + choose(3); n--;)
        switch (choose(6))
        {
          case 0: if (s.size()) s[choose(s.size())] ^= 1 << choose(8); break;
          case 1: s.resize(choose(s.size() + 1)); break;
          case 2: s.insert(choose(s.size() + 1), 1, "{}[],:\"0-n\\e."[choose(13)]); break;
          case 3: if (s.size()) s.erase(choose(s.size()), 1 + choose(4)); break;
          case 4: s.insert(choose(s.size() + 1), choose(1500), '['); break;
          default: { size_t a = choose(s.size() + 1), n = choose(s.size() - a + 1); s.insert(choose(s.size() + 1), s.substr(a, n)); }
        }
      return s;
    }
    bool ok; auto v = read_json(text, ok);
    for (int n = 1 + sim::weighted({4, 2, 1}); n--;) mutate(v, 0);
    return write_json(v);
  }

  static void judge(parsed const& r, std::string const& text)
  {
    bool ok; auto in = read_json(text, ok);
    if (r.outcome == 0) { probe("wire:refused"); return; }
    if (!ok) { sim::fail("P18", "not-json-accepted", "what is not JSON is taken as '%.300s': %.400s", r.desc.c_str(), text.c_str()); return; }
    if (r.outcome != 1) { probe("wire:taken-as-empty"); return; }
    probe("wire:accepted");
    // writing what is not UTF-8 replaces it: the same is done to both sides
    auto out = read_json(r.canonical, ok); in = read_json(write_json(in), ok); std::string where;
    if (!says(out, in, "message", where))
      sim::fail("P18", "malformed-accepted", "a message that says something else is accepted (%.500s); understood: %.400s; the text: %.500s", where.c_str(), r.canonical.c_str(), text.c_str());
  }

  void replicas_t::forge(link_t& l)
  {
    // an altered message of this application's own, as any client could send it
    std::string text;
    auto c = make_client([&](std::string const& t, std::string const&) { text = t; });
    auto p = some_plain(id); c->op(sim::any_of(std::vector<int>{0, 2, 3, 4}), some_key(), p);
    text = altered(text);
    // a correct message to a place outside of the model's would be one more key; only refused ones stay without effect
    auto r = srv->parse(text, false);
    judge(r, text);
    if (r.outcome == 1) return;
    fault("forged-message"); log("client %d forges a message", l.client);
    l.up_sent.push_back("forged"); l.C.send(text);
  }

  static void replicas() { replicas_t r; r.run(); }

  static void wire()
  {
    uint32_t id = 0; db_t db; db.sync = 1;
    std::deque<std::pair<std::string, std::string>> up, down;
    auto srv = make_server(db, [&](auto& t, auto& d) { down.push_back({t, d}); });
    auto cl = make_client([&](auto& t, auto& d) { up.push_back({t, d}); });
    int ops = range(1, 12);
    while (ops--)
    {
      sim::step(); sim::advance(100);
      key_pair k{range(1, 2), (int) choose(7)};
      if (flip(1, 4)) srv->change(choose(3), k, some_plain(id)); else cl->op(choose(5), k, some_plain(id));
      if (flip(1, 5)) srv->welcome([&](auto& t, auto& d) { down.push_back({t, d}); });
      while (!up.empty() || !down.empty())
      {
        bool to_server = down.empty() || (!up.empty() && flip(1, 2));
        auto& q = to_server ? up : down; auto [text, desc] = q.front(); q.pop_front();
        int tries = choose(4);
        while (tries--)
        {
          sim::step(); sim::nontrivial(); fault("altered-message");
          auto t = altered(text); auto r = to_server ? srv->parse(t, false) : cl->parse(t, false);
          log("altered #%llx: %d %s", (unsigned long long) sim::fnv(t), r.outcome, r.outcome == 1 ? r.desc.c_str() : "");
          judge(r, t);
        }
        auto r = to_server ? srv->parse(text, true) : cl->parse(text, true);
        log("%s", desc.c_str());
        if (r.outcome != 1) sim::fail("P18", "message-refused", "the message '%.300s' is refused: %s", desc.c_str(), r.desc.c_str());
        else if (r.desc != desc) sim::fail("P18", "message-differs", "understood as '%.400s', the message sent is '%.400s'", r.desc.c_str(), desc.c_str());
        probe("wire:messages");
        if (up.size() + down.size() > 200) break;
      }
    }
  }
  static sim::add_scenario r0("replicas", replicas);
  static sim::add_scenario r1("wire", wire);
}
