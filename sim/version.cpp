// Documents replicated over a tree of nodes: a root that orders all changes,
// servers below it and clients below those, each with a local_version.
#include "core.hpp"
#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/local_version.hpp>
#include <nbdl/make_delta.hpp>
#include <nbdl/message.hpp>
#include <nbdl/uid.hpp>
#include <deque>
#include <map>
#include <memory>
#include <set>

namespace ver
{
  struct doc { int a = 0, b = 0; std::string text; bool flag = false; bool operator==(doc const&) const = default; };
}
namespace nbdl { NBDL_ENTITY(ver::doc, a, b, text, flag); }

namespace ver
{
  namespace message = nbdl::message; namespace hana = boost::hana;
  using sim::log; using sim::choose; using sim::flip; using sim::fault; using sim::probe; using sim::range;
  using delta_t = nbdl::delta<doc>;

  nbdl::uid uid_make(uint32_t v) { nbdl::uid u; for (auto& x : u) x = 0x33; memcpy(u.data() + 3, &v, 4); return u; }
  std::string str(doc const& d) { char b[200]; snprintf(b, sizeof b, "{%d %d %s %d}", d.a, d.b, d.text.c_str(), d.flag); return b; }

  // a change: some of the fields
  struct change { uint32_t uid = 0; unsigned mask = 0; doc v; };
  void onto(change const& c, doc& d) { if (c.mask & 1) d.a = c.v.a; if (c.mask & 2) d.b = c.v.b; if (c.mask & 4) d.text = c.v.text; if (c.mask & 8) d.flag = c.v.flag; }
  delta_t to_delta(change const& c)
  {
    if (c.mask == 15 && flip(1, 2)) return nbdl::make_delta<nbdl::delta_tag>(c.v);
    doc other = c.v;
    if (c.mask & 1) other.a++; if (c.mask & 2) other.b--; if (c.mask & 4) other.text += "?"; if (c.mask & 8) other.flag = !other.flag;
    return nbdl::make_delta<nbdl::delta_tag>(c.v, other);
  }

  enum kind_t { UP, UNCONFIRMED, CONFIRMED, REPLACED, SNAPSHOT };
  constexpr const char* kind_name[] = {"upstream", "unconfirmed", "confirmed", "replaced", "snapshot"};
  struct wire { kind_t kind; change c; doc full; size_t index = 0; };

  struct node
  {
    int id, parent; std::vector<int> kids;
    std::unique_ptr<nbdl::local_version<doc>> store;
    bool connected = false, joined = false;
    std::deque<wire> up, down;          // to the parent, from the parent
    // the model
    doc visible; std::set<uint32_t> pending; size_t index = 0;
    std::vector<change> mine;           // made here, not confirmed
  };

  struct world
  {
    std::vector<node> n;
    doc root; std::vector<doc> states;      // the root's document after each of its changes
    uint32_t next_uid = 1; int next_val = 0;
  };
  world* W;

  template <typename M> void feed(node& x, M const& m, bool may_say_more, const char* what)
  {
    doc before = nbdl::get(*x.store);
    auto check = [&](bool said) {
      bool changed = !(before == nbdl::get(*x.store));
      if (said != changed && !(may_say_more && said))
        sim::fail("P15", "change-reported", "node %d: %s %s the document but was reported as %s", x.id, what, changed ? "changed" : "left", said ? "a change" : "none");
    };
    if constexpr (std::is_void_v<decltype(nbdl::apply_message(*x.store, m))>) { nbdl::apply_message(*x.store, m); if (!(before == nbdl::get(*x.store))) check(false); }
    else check(bool(nbdl::apply_message(*x.store, m)));
  }
  void look(node& x, const char* what)
  {
    int calls = 0; doc seen = nbdl::get(*x.store);
    nbdl::match(*x.store, [&](doc const& d) { calls++; if (!(d == seen)) sim::fail("P15", "match-differs", "node %d: match shows %s, get %s", x.id, str(d).c_str(), str(seen).c_str()); });
    if (calls != 1) sim::fail("P15", "match-calls", "node %d: match called back %d times", x.id, calls);
    if (!(seen == x.visible)) sim::fail("P15", "visible", "node %d after %s: shows %s, should show %s", x.id, what, str(seen).c_str(), str(x.visible).c_str());
  }

  void local_change(node& x, change const& c, bool as_downstream)
  {
    auto d = to_delta(c);
    log("node %d applies %u mask %u %s %s", x.id, c.uid, c.mask, str(c.v).c_str(), as_downstream ? "(forwarded)" : "");
    onto(c, x.visible); x.pending.insert(c.uid);
    if (as_downstream) feed(x, message::make_downstream_update(hana::make_tuple(), uid_make(c.uid), d, false), false, "an unconfirmed change");
    else feed(x, message::make_upstream_update(hana::make_tuple(), uid_make(c.uid), d), false, "a local change");
    look(x, "an unconfirmed change");
  }

  void send_down(int from, wire const& w, int except = -1)
  {
    for (auto& k : W->n) if (k.parent == from && k.id != except && k.connected) k.down.push_back(w);
  }
  void join(node& x, wire const& s)
  { // a fresh store from a snapshot
    x.store = std::make_unique<nbdl::local_version<doc>>(s.full);
    x.visible = s.full; x.pending.clear(); x.index = s.index; x.joined = true;
    log("node %d joins at %zu with %s", x.id, s.index, str(s.full).c_str());
    look(x, "joining");
  }
  void connect(node& x)
  {
    // only a node with nothing pending shows what the root ordered
    if (x.parent != 0 && (!W->n[x.parent].joined || !W->n[x.parent].pending.empty())) return;
    x.connected = true; x.joined = false;
    wire s{SNAPSHOT};
    if (x.parent == 0) { s.full = W->root; s.index = W->states.size() - 1; }
    else
    {
      auto& p = W->n[x.parent]; s.full = nbdl::get(*p.store); s.index = p.index;
    }
    x.down.push_back(s);
    log("node %d connects", x.id);
  }
  void disconnect(node& x)
  {
    if (!x.connected) return;
    log("node %d disconnects (%zu up, %zu down in flight)", x.id, x.up.size(), x.down.size());
    x.connected = x.joined = false; x.up.clear(); x.down.clear();
    for (auto& k : W->n) if (k.parent == x.id) disconnect(k);
  }

  void root_change(change const& c)
  {
    onto(c, W->root); W->states.push_back(W->root);
    log("root orders %u as %zu", c.uid, W->states.size() - 1);
    wire w{CONFIRMED, c}; w.index = W->states.size() - 1; send_down(0, w);
  }
  change a_change()
  {
    change c; c.uid = W->next_uid++; c.mask = flip(1, 6) ? 15 : flip(1, 12) ? 0 : 1 + choose(15);
    int v = flip(1, 5) ? (int) choose(3) : 100 + W->next_val++; c.v.a = v; c.v.b = -v; c.v.flag = choose(2); c.v.text = flip(1, 4) ? "" : "some text that is long enough " + std::to_string(v);
    return c;
  }

  void receive(node& x, wire const& w)
  { // from the parent
    log("node %d gets %s %u (%zu)", x.id, kind_name[w.kind], w.c.uid, w.index);
    if (w.kind == SNAPSHOT)
    {
      join(x, w);
      // what was not confirmed before may be tried again
      std::vector<change> again; again.swap(x.mine);
      for (auto& c : again) if (flip(1, 2)) { probe("version:change-sent-again"); local_change(x, c, false); x.mine.push_back(c); x.up.push_back({UP, c}); }
      return;
    }
    if (w.kind == UNCONFIRMED) { local_change(x, w.c, true); send_down(x.id, w); return; }
    std::erase_if(x.mine, [&](auto& c) { return c.uid == w.c.uid; });
    x.index = w.index;
    bool own = x.pending.count(w.c.uid);
    const char* what = own ? "confirming a local change" : "a change from elsewhere";
    if (w.kind == REPLACED)
    {
      what = "replacing the document"; x.visible = w.full;
      if (flip(1, 2)) feed(x, message::make_downstream_create(hana::make_tuple(), uid_make(w.c.uid), w.full, true), true, what);
      else feed(x, message::make_downstream_read(hana::make_tuple(), uid_make(w.c.uid), w.full), true, what);
      if (!x.pending.empty()) probe("version:replaced-while-pending");
    }
    else
    {
      bool look_at_order = false;
      if (own)
      {
        x.pending.erase(w.c.uid);
        if (x.pending.empty()) look_at_order = true; else probe("version:confirmed-while-others-pending");
      }
      else { onto(w.c, x.visible); if (!x.pending.empty()) probe("version:foreign-while-pending"); }
      auto d = to_delta(w.c);
      if (look_at_order)
      { // nothing local is left: exactly the root's order shows
        probe("version:all-confirmed");
        x.visible = W->states[w.index];
        feed(x, message::make_downstream_update(hana::make_tuple(), uid_make(w.c.uid), d, true), false, what);
      }
      else feed(x, message::make_downstream_update(hana::make_tuple(), uid_make(w.c.uid), d, true), false, what);
    }
    look(x, what);
    if (x.pending.empty() && !(nbdl::get(*x.store) == W->states[x.index]))
      sim::fail("P15", "order", "node %d has nothing pending and shows %s, the root's order makes it %s", x.id, str(nbdl::get(*x.store)).c_str(), str(W->states[x.index]).c_str());
    send_down(x.id, w);
  }
  void receive_up(int at, int from, wire const& w)
  {
    log("node %d gets upstream %u from %d", at, w.c.uid, from);
    if (at == 0) { root_change(w.c); return; }
    auto& x = W->n[at];
    if (!x.joined) { log("  dropped"); return; }
    local_change(x, w.c, false);
    x.up.push_back(w);
    wire d{UNCONFIRMED, w.c}; send_down(at, d, from);
  }

  bool deliver()
  {
    std::vector<std::pair<int, bool>> live;
    for (auto& x : W->n) if (x.id) { if (!x.up.empty()) live.push_back({x.id, true}); if (!x.down.empty()) live.push_back({x.id, false}); }
    if (live.empty()) return false;
    auto [i, up] = live[choose(live.size())];
    auto& x = W->n[i];
    auto& q = up ? x.up : x.down;
    wire w = q.front(); q.pop_front();
    sim::advance(100 + choose(2000));
    if (up) receive_up(x.parent, i, w); else receive(x, w);
    return true;
  }

  void scenario()
  {
    world w; W = &w;
    sim::leaks_for("P15");
    w.root = {1, 2, "start", false}; w.states.push_back(w.root);
    int servers = range(1, 2), clients = range(1, 4);
    w.n.reserve(16);
    w.n.emplace_back(); w.n[0].id = 0; w.n[0].parent = -1;
    for (int i = 0; i < servers; i++) { auto& x = w.n.emplace_back(); x.id = w.n.size() - 1; x.parent = 0; }
    for (int i = 0; i < clients; i++) { auto& x = w.n.emplace_back(); x.id = w.n.size() - 1; x.parent = flip(1, 5) ? 0 : range(1, servers); }
    for (auto& x : w.n) if (x.id && x.parent == 0) connect(x);
    bool lossy = flip(1, 2);
    int ops = range(10, 120);
    auto writers = [&] { std::vector<int> v; for (auto& x : w.n) if (x.id && x.joined) v.push_back(x.id); return v; };
    uint32_t rate = range(2, 10);
    while (ops--)
    {
      sim::step();
      switch (sim::weighted({rate, 12, 2, lossy ? 2u : 0u, 1, 1}))
      {
        case 0: if (auto v = writers(); !v.empty())
        {
          auto& x = w.n[v[choose(v.size())]]; auto c = a_change();
          local_change(x, c, false); x.mine.push_back(c); x.up.push_back({UP, c});
          wire d{UNCONFIRMED, c}; send_down(x.id, d);
        } break;
        case 1: deliver(); break;
        case 2: for (auto& x : w.n) if (x.id && !x.connected) { connect(x); break; } break;
        case 3: { auto& x = w.n[1 + choose(w.n.size() - 1)]; if (x.connected) { fault("link-lost"); disconnect(x); } } break;
        case 4: { auto c = a_change(); log("root changes"); root_change(c); } break;
        case 5:
        {
          auto c = a_change(); w.root = c.v; w.states.push_back(w.root);
          log("root replaces the document by %s as %zu", str(w.root).c_str(), w.states.size() - 1);
          wire m{REPLACED, c}; m.full = w.root; m.index = w.states.size() - 1; send_down(0, m);
        }
      }
    }
    // everybody reconnects and all messages arrive
    for (int round = 0; round < 3; round++)
    {
      for (auto& x : w.n) if (x.id && !x.connected) connect(x);
      int n = 0; while (deliver()) if (++n > 5000) { sim::fail("P15", "no-rest", "messages keep coming"); break; }
    }
    sim::nontrivial();
    for (auto& x : w.n) if (x.id)
    {
      if (!x.joined) { sim::fail("P15", "not-joined", "node %d never joined", x.id); continue; }
      if (!x.pending.empty()) sim::fail("P15", "harness", "node %d has changes nobody confirmed", x.id);
      if (!(nbdl::get(*x.store) == w.root)) sim::fail("P15", "diverged", "at rest node %d shows %s, the root %s", x.id, str(nbdl::get(*x.store)).c_str(), str(w.root).c_str());
    }
    W = nullptr;
  }
  static sim::add_scenario reg("version", scenario);
}
