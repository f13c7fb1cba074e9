// Contexts in a simulated deployment: consumers operate, producers talk to
// servers over lossy links, servers crash and are updated by others.
#ifdef PART
#define CTX_IMPL
#include "ctx_common.hpp"
namespace ctx { template void push<PART>(handle_t, rec const&); template seen_t look<PART>(handle_t, int, int); }
#else
#include "ctx_common.hpp"
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <set>

namespace ctx
{
  extern template void push<AX>(handle_t, rec const&); extern template void push<BX>(handle_t, rec const&);
  extern template void push<BZ>(handle_t, rec const&); extern template void push<BY>(handle_t, rec const&);
  extern template void push<CW>(handle_t, rec const&); extern template void push<CV>(handle_t, rec const&);
  extern template void push<AZ>(handle_t, rec const&); extern template void push<AB>(handle_t, rec const&);
  extern template seen_t look<AX>(handle_t, int, int); extern template seen_t look<BX>(handle_t, int, int);
  extern template seen_t look<BZ>(handle_t, int, int); extern template seen_t look<BY>(handle_t, int, int);
  extern template seen_t look<CW>(handle_t, int, int); extern template seen_t look<CV>(handle_t, int, int);
  extern template seen_t look<AZ>(handle_t, int, int); extern template seen_t look<AB>(handle_t, int, int);
  constexpr void (*pushers[])(handle_t, rec const&) = {push<AX>, push<BX>, push<BZ>, push<BY>, push<CW>, push<CV>, push<AZ>, push<AB>};
  constexpr seen_t (*lookers[])(handle_t, int, int) = {look<AX>, look<BX>, look<BZ>, look<BY>, look<CW>, look<CV>, look<AZ>, look<AB>};
  constexpr bool is_map(int p) { return p == AX || p == BX || p == CW; }
  constexpr bool is_keyed(int p) { return p != BY && p != CV; }
  constexpr bool has_uid(int p) { return p == AX || p == BZ; }
  constexpr bool is_listening(int p) { return p == BZ || p == AZ; }
  constexpr bool is_slot(int p) { return p == BY || p == CV; }
  constexpr bool listens(int z, int p) { return p == AX || (z == BZ && p == BX) || (z == AZ && p == AB); }
  constexpr bool knows(int p) { return is_map(p) || p == AB; }         // keeps a value for every key

  using cell_key = std::array<int, 3>;
  struct cell_t { int state = ABSENT; value_t value; };
  struct expect_t { int actor; rec r; const char* prop; };
  struct frame_t
  {
    rec r; std::vector<expect_t> must, may; std::map<int, int> foreign; bool echo_create = false; int bound = no_key; bool looking = false;
  };
  struct server_t
  {
    int id; std::map<cell_key, value_t> data, durable; int next_key = 0;
    std::vector<rec> up, down;     // what travels to the server and back
    bool crashed = false;
  };

  struct world_t
  {
    std::map<cell_key, cell_t> cells; std::map<int, int> hits, sum; std::map<int, value_t> slot;   // BY and CV hold one value each
    std::vector<frame_t*> frames;
    std::map<int, handle_t> handles; std::map<int, int> args, constructed, inits; std::vector<std::pair<int, bool>> init_order;
    server_t servers[2]{{ALPHA}, {BETA}};
    std::set<cell_key> lost;
    std::set<int> echo_keys; int echo_base = no_key;
    uint32_t next_uid = 1; int next_secret = 0; int depth = 0; bool faults = true, over = false;
    int chatty = 0, sync = 0;
  };
  inline world_t* W = nullptr;

  cell_key at(rec const& r) { return {r.path, r.root, is_keyed(r.path) ? r.key : 0}; }
  const char* read_or(rec const& r, const char* p) { return r.act == READ ? "P13" : p; }
  handle_t any_handle() { auto it = W->handles.begin(); std::advance(it, choose(W->handles.size())); return it->second; }

  // ------------------------------------------------------------ the model
  void to_consumers(frame_t& f, rec const& r, const char* prop) { for (int a : {ALPHA, CONS, BOTH}) f.must.push_back({a, r, prop}); }
  void changed(frame_t& f, rec const& r, bool sure)
  {
    rec n; n.act = NOTIFY; n.path = r.path; n.root = r.root; n.key = is_keyed(r.path) ? r.key : 0;
    for (int a : {BETA, VIEW, BOTH}) (sure ? f.must : f.may).push_back({a, n, "P12"});
  }
  // what one message does to the stores, and whom it reaches
  void predict(frame_t& f, rec const& r)
  {
    auto& c = W->cells[at(r)];
    if (!r.down)
    {
      if (r.act == READ)
      {
        rec a = r; a.down = true; a.payload = VALUE;
        if (is_map(r.path))
        {
          if (c.state == ABSENT) { c.state = UNRESOLVED; if (owner[r.path] != ECHO) f.must.push_back({owner[r.path], r, "P13"}); probe("ctx:read-goes-upstream"); }
          else if (c.state == UNRESOLVED) probe("ctx:read-already-in-progress");
          else { a.payload = c.state == PRESENT ? VALUE : NOT_FOUND; if (c.state == PRESENT) a.value = c.value; to_consumers(f, a, "P13"); probe("ctx:read-answered-locally"); }
        }
        else
        {
          if (is_listening(r.path)) a.value = {W->hits[r.path], W->sum[r.path], ""}; else a.value = W->slot[r.path];
          to_consumers(f, a, "P13");
        }
      }
      else if (owner[r.path] != ECHO) f.must.push_back({owner[r.path], r, "P11"});
      else
      { // the echo producer sends it straight back
        rec d = r; d.down = true; d.uid = 0; d.confirmed = -1; d.secret = -1;
        if (r.act == CREATE && is_keyed(r.path)) { d.key = any_key; f.echo_create = true; }
        frame_t g; g.r = d;
        if (f.echo_create) { changed(g, d, true); to_consumers(g, d, "P20"); }
        else predict(g, d);
        for (auto& e : g.must) f.must.push_back({e.actor, e.r, e.r.act == NOTIFY ? e.prop : "P20"});
        for (auto& e : g.may) f.may.push_back(e);
      }
    }
    else
    {
      if (knows(r.path))
      {
        if (r.act == CREATE || r.act == UPDATE)
        { bool same = c.state == PRESENT && c.value == r.value; c.state = PRESENT; c.value = r.value; changed(f, r, !same); }
        else if (r.act == READ)
        {
          if (c.state == ABSENT || c.state == UNRESOLVED) { c.state = r.payload == VALUE ? PRESENT : MISSING; c.value = r.value; changed(f, r, true); probe("ctx:read-resolved"); }
          else probe("ctx:stale-read-response");
        }
        else { bool had = c.state != ABSENT; c = {}; changed(f, r, had); }
      }
      else if (is_listening(r.path)) { if (r.act == UPDATE && r.value.val % 2) { W->sum[r.path] += r.value.val; changed(f, r, true); } }
      else if (r.act == UPDATE) { auto& s = W->slot[r.path]; bool same = s == r.value; s = r.value; changed(f, r, !same); }
      to_consumers(f, r, "P11");
    }
    for (int z : {BZ, AZ}) if (listens(z, r.path) && !(r.act == CREATE && !r.down))
    {
      f.foreign[z]++;
      rec n; n.act = NOTIFY; n.path = z; n.root = r.root;
      for (int i = 0; i < r.value.val % 3; i++) { n.key = i; for (int a : {BETA, VIEW, BOTH}) f.must.push_back({a, n, "P12"}); }
    }
  }

  void finish(frame_t& f)
  {
    for (auto& e : f.must)
      sim::fail(e.prop, e.r.act == NOTIFY ? "notification-missing" : e.r.down ? "downstream-message-missing" : "upstream-message-missing"
              , "%s: %s did not get %s", f.r.str().c_str(), actor_name[e.actor], e.r.str().c_str());
    for (auto [z, n] : f.foreign) if (n > 0) sim::fail("P12", "listener-not-told", "%s: the store %s that listens to its path was not told", f.r.str().c_str(), path_name[z]);
  }

  seen_t do_look(int path, int root, int key, bool probe_only);
  void check_cell(rec const& at_, const char* when)
  {
    rec r = at_;
    if (!is_keyed(r.path)) r.key = 0;
    if (is_listening(r.path)) return;
    if (is_map(r.path))
    {
      auto it = W->cells.find(at(r));
      if (it == W->cells.end() || it->second.state == ABSENT) return;     // looking would ask for it
    }
    cell_t c = knows(r.path) ? W->cells[at(r)] : cell_t{PRESENT, W->slot[r.path]};
    auto s = do_look(r.path, r.root, r.key, true);
    if (s.calls != 1) sim::fail("P14", "match-calls", "matching %s %d/%d %s called back %d times", path_name[r.path], r.root, r.key, when, s.calls);
    if (s.state != c.state || (c.state == PRESENT && !(s.value == c.value)))
      sim::fail("P14", "store-contents", "%s: the store at %s %d holds %s %d, the messages so far make it %s %d", when, path_name[r.path], r.root
              , s.state < 0 ? "nothing" : state_name[s.state], s.value.val, state_name[c.state], c.value.val);
  }

  // ------------------------------------------------------------ pushing
  void do_push(rec const& r)
  {
    frame_t f; f.r = r; predict(f, r);
    log("%*s> %s", W->depth * 2, "", r.str().c_str());
    W->frames.push_back(&f); W->depth++;
    auto h = any_handle();
    pushers[r.path](h, r);
    W->depth--; W->frames.pop_back();
    finish(f);
    if (r.down || r.act == READ) check_cell(r, "after the message");
  }

  seen_t do_look(int path, int root, int key, bool probe_only)
  {
    frame_t f; f.r.act = READ; f.r.path = path; f.r.root = root; f.r.key = is_keyed(path) ? key : 0; f.looking = true;
    bool triggers = is_map(path) && W->cells[at(f.r)].state == ABSENT;
    cell_t before = W->cells[at(f.r)];
    if (triggers) predict(f, f.r);
    W->frames.push_back(&f); W->depth++;
    if (!probe_only) log("%*s> look at %s %d/%d", W->depth * 2, "", path_name[path], root, path == CW ? -1 : key);
    auto s = lookers[path](any_handle(), root, key);
    W->depth--; W->frames.pop_back();
    finish(f);
    if (triggers)
    {
      probe("ctx:look-triggers-read");
      if (s.calls != 1 || s.state != UNRESOLVED)
        sim::fail("P13", "look-before-resolved", "looking at %s %d/%d, not yet known, gave %s (%d calls)", path_name[path], root, key, s.state < 0 ? "nothing" : state_name[s.state], s.calls);
    }
    else if (knows(path) && !probe_only)
    {
      if (s.calls != 1 || s.state != before.state || (s.state == PRESENT && !(s.value == before.value)))
        sim::fail("P14", "store-contents", "looking at %s %d/%d gave %s %d, the messages so far make it %s %d", path_name[path], root, key
                , s.state < 0 ? "nothing" : state_name[s.state], s.value.val, state_name[before.state], before.value.val);
    }
    else if (is_listening(path) && (s.hits != W->hits[path] || s.sum != W->sum[path]))
      sim::fail("P12", "listener-state", "the listening store %s heard %d messages, %d were sent on the paths it listens to", path_name[path], s.hits, W->hits[path]);
    return s;
  }

  // ------------------------------------------------------------ generating
  value_t a_value() { value_t v; v.id = range(0, 3); v.val = range(0, 7); static const char* texts[] = {"", "a", "a longer text that does not fit the small buffer", "text"}; v.text = texts[choose(4)]; return v; }
  void some_user_op();

  // ------------------------------------------------------------ events from the real actors
  void on_construct(int actor, int arg, void const* h)
  {
    W->constructed[actor]++; W->args[actor] = arg;
    W->handles.emplace(actor, *static_cast<handle_t const*>(h));
  }
  void some_init_op(int actor);
  void on_init(int actor, bool as_producer)
  {
    W->inits[actor]++; W->init_order.push_back({actor, as_producer}); log("init %s as a %s", actor_name[actor], as_producer ? "producer" : "consumer");
    int n = choose(3);
    while (n--) some_init_op(actor);
  }

  void server_request(server_t& s, rec const& r);
  std::optional<rec> answer(server_t& s, rec const& r);

  void on_event(int actor, rec const& r)
  {
    if (W->over) { sim::fail("P11", "event-after-end", "%s got %s while the context was destroyed", actor_name[actor], r.str().c_str()); return; }
    log("%*s%s <- %s", W->depth * 2, "", actor_name[actor], r.str().c_str());
    sim::step();
    auto who = actor_name[actor];
    if (W->frames.empty()) { sim::fail("P11", "event-from-nowhere", "%s got %s although nothing was sent", who, r.str().c_str()); return; }
    auto& f = *W->frames.back();
    rec x = r;
    // the first thing heard about an echoed create tells its key
    if (f.echo_create && f.bound == no_key && r.path == CW && r.root == f.r.root && r.key != no_key)
    {
      f.bound = r.key;
      if (!W->echo_keys.insert(r.key).second) sim::fail("P20", "key-not-unique", "the echo producer used a key twice");
      auto& c = W->cells[{CW, r.root, r.key}];
      if (c.state == PRESENT) sim::fail("P20", "key-not-unique", "the echo producer made a key that is in use");
      c.state = PRESENT; c.value = f.r.value;
      if (W->echo_base == no_key) W->echo_base = r.key;
    }
    if (f.echo_create && f.bound != no_key && r.path == CW && r.key != f.bound)
      sim::fail("P20", "key-differs", "%s got an echoed create with another key than the one before", who);
    bool found = false;
    for (auto list : {&f.must, &f.may})
    {
      for (auto it = list->begin(); it != list->end() && !found; ++it)
        if (it->actor == actor && it->r == r) { list->erase(it); found = true; }
      if (found) break;
    }
    if (!found)
    {
      // name the closest expectation, which says what is wrong with it
      const char* prop = r.act == NOTIFY ? "P12" : f.r.act == READ && !f.r.down ? "P13" : owner[r.path] == ECHO ? "P20" : "P11";
      bool near = false;
      for (auto& e : f.must) if (e.actor == actor && e.r.act == r.act && e.r.down == r.down) { near = true; prop = e.prop; x = e.r; }
      std::string props = prop; if (near && r.act != NOTIFY && props != "P11") props += ",P11";
      sim::fail(props.c_str(), r.act == NOTIFY ? "notification-unexpected" : near ? "message-altered" : "message-unexpected"
              , "%s: %s got %s%s%s", f.r.str().c_str(), who, r.str().c_str(), near ? ", not " : "", near ? x.str().c_str() : "");
      if (near && r.path == x.path && r.payload == VALUE && !(r.value == x.value)) sim::fail("P11,P13,P20", "payload-altered", "%s got another payload", who);
    }
    // the message is in the store before anybody hears of it
    if ((r.down || r.act == NOTIFY) && !f.looking) check_cell(r, "when the message is passed on");

    if (!r.down && r.act != NOTIFY && actor < ECHO)
    {
      auto& s = W->servers[actor];
      if (W->depth < 5 && W->sync && flip(1, W->sync))
      { // answered before the call returns
        fault("synchronous-answer");
        if (auto a = answer(s, r)) do_push(*a);
      }
      else server_request(s, r);
    }
    else if (W->depth < 4 && W->chatty && flip(1, W->chatty)) { fault("reentrant-operation"); some_user_op(); }
  }

  void on_foreign(int z, rec const& r, int)
  {
    if (W->frames.empty()) { sim::fail("P12", "listener-told-of-nothing", "the listening store was told of %s", r.str().c_str()); return; }
    auto& f = *W->frames.back();
    W->hits[z]++;
    if (--f.foreign[z] < 0) sim::fail("P12", "listener-told-twice", "%s: the store listening to other paths was told of %s", f.r.str().c_str(), r.str().c_str());
    if (!(r == f.r)) sim::fail("P12", "listener-told-otherwise", "%s: the listening store was told of %s", f.r.str().c_str(), r.str().c_str());
  }

  // ------------------------------------------------------------ the servers behind the producers
  void server_request(server_t& s, rec const& r)
  {
    if (W->faults && flip(1, 8)) { fault("message-lost"); log("  lost"); if (r.key != no_key) W->lost.insert(at(r)); return; }
    s.up.push_back(r);
    if (W->faults && flip(1, 10)) { fault("message-duplicated"); s.up.push_back(r); }
  }
  void server_respond(server_t& s, rec const& r)
  {
    if (W->faults && flip(1, 8)) { fault("message-lost"); log("  lost"); W->lost.insert(at(r)); return; }
    s.down.push_back(r);
    if (W->faults && flip(1, 10)) { fault("message-duplicated"); s.down.push_back(r); }
  }
  std::optional<rec> answer(server_t& s, rec const& r)
  {
    rec a = r; a.down = true; a.secret = -1; if (has_uid(r.path)) a.confirmed = 1;
    if (r.act == CREATE)
    { // a path of one value keeps its own key
      if (is_keyed(r.path)) a.key = s.next_key++ % 6; else a.key = 0;
      s.data[at(a)] = r.value; return a;
    }
    if (r.act == READ)
    {
      a.confirmed = -1;
      auto it = s.data.find(at(r));
      if (it != s.data.end()) { a.payload = VALUE; a.value = it->second; } else { a.payload = NOT_FOUND; if (!is_map(r.path)) return {}; }
      return a;
    }
    if (r.act == UPDATE) { s.data[at(r)] = r.value; return a; }
    s.data.erase(at(r)); return a;
  }

  rec someone_elses(server_t& s)
  {
    rec a; a.down = true; a.path = s.id == ALPHA ? sim::any_of(std::vector<int>{AX, AX, AX, AZ, AB}) : sim::any_of(std::vector<int>{BX, BX, BZ, BY});
    a.root = range(1, 2); a.key = is_keyed(a.path) ? range(0, 4) : 0;
    a.act = sim::any_of(std::vector<int>{CREATE, UPDATE, UPDATE, DELETE, READ});
    if (has_uid(a.path)) { a.uid = W->next_uid++; a.confirmed = a.act == READ ? -1 : (int) choose(2); }
    if (a.act != DELETE) { a.payload = VALUE; a.value = a_value(); s.data[at(a)] = a.value; } else s.data.erase(at(a));
    if (a.act == READ && !is_map(a.path)) a.act = UPDATE, a.confirmed = has_uid(a.path) ? 1 : -1;
    return a;
  }

  // the keys of the echo producer are its own: what is invented is not one it could make
  int echo_key(int k)
  {
    if (W->echo_keys.empty()) return -1 - k;
    auto it = W->echo_keys.begin(); std::advance(it, choose(W->echo_keys.size())); return *it;
  }

  void some_user_op()
  {
    if (flip(1, 600) && W->frames.empty())
    { // very many values, one after the other
      static const std::vector<int> how_many = {40, 300, 300, 300, 300, 70000};
      int n = sim::any_of(how_many), root = range(1, 2); if (n > 300 && !flip(1, 20)) n = 300;
      if (n > 300) probe("ctx:many-creates");
      int chatty = W->chatty; if (n > 300) W->chatty = 0;
      while (n-- && W->echo_keys.size() < 71000 && sim::g.sh->n_choices < sim::max_choices / 2)
      { rec r; r.path = CW; r.root = root; r.act = CREATE; r.payload = VALUE; r.value.val = n; do_push(r); }
      W->chatty = chatty; return;
    }
    rec r; r.path = sim::any_of(std::vector<int>{AX, AX, AX, BX, BX, BX, BZ, BY, CW, CV, AZ, AB});
    r.root = range(1, 2);
    uint32_t what = choose(7);
    if (what >= 5)
    { // look at something
      int k = range(0, 4);
      if (r.path == CW) k = echo_key(k);
      do_look(r.path, r.root, k, false); return;
    }
    r.act = sim::any_of(std::vector<int>{CREATE, READ, READ, UPDATE, DELETE});
    if (what == 4) r.act = READ;
    if (r.path == AB && r.act == READ) r.act = UPDATE;
    r.key = is_keyed(r.path) ? (int) range(0, 4) : 0;
    if (r.path == CW) r.key = echo_key(r.key);
    if (r.act == CREATE) r.key = no_key;
    if (r.act == CREATE || r.act == UPDATE) { r.payload = VALUE; r.value = a_value(); }
    if (has_uid(r.path)) r.uid = W->next_uid++;
    if (r.act == CREATE && has_uid(r.path)) r.secret = W->next_secret++;
    do_push(r);
  }

  void some_init_op(int actor)
  {
    probe("ctx:operation-while-initialising");
    if (actor < ECHO) do_push(someone_elses(W->servers[actor])); else some_user_op();
  }

  bool deliver_one(bool allow_reorder)
  {
    std::vector<std::pair<server_t*, bool>> live;
    for (auto& s : W->servers) { if (!s.up.empty()) live.push_back({&s, true}); if (!s.down.empty()) live.push_back({&s, false}); }
    if (live.empty()) return false;
    auto [s, up] = live[choose(live.size())];
    auto& q = up ? s->up : s->down;
    size_t i = 0;
    if (allow_reorder && q.size() > 1 && flip(1, 4)) { i = choose(q.size()); if (i) fault("message-reordered"); }
    rec r = q[i]; q.erase(q.begin() + i);
    sim::advance(50 + choose(1000));
    log("deliver to %s: %s", up ? "server" : "client", r.str().c_str());
    if (up) { if (auto a = answer(*s, r)) server_respond(*s, *a); }
    else do_push(r);
    return true;
  }

  template <typename ...A> auto make(A ...a) { return nbdl::make_context<sim_context>(a...); }

  void scenario()
  {
    world_t w; W = &w;
    sim::leaks_for("P11,P14");
    if (uint32_t c = choose(4)) w.chatty = c * 6;
    if (uint32_t c = choose(3)) w.sync = c * 3;
    int arg[n_actors]; for (auto& a : arg) a = 1 + choose(1000);
    auto al = nbdl::actor("alpha"_s, arg_t{arg[ALPHA]}); auto be = nbdl::actor("beta"_s, arg_t{arg[BETA]}); auto ec = nbdl::actor("echo"_s, nbdl::echo_producer{});
    auto co = nbdl::actor("cons"_s, arg_t{arg[CONS]}); auto vi = nbdl::actor("view"_s, arg_t{arg[VIEW]}); auto bo = nbdl::actor("both"_s, arg_t{arg[BOTH]});
    uint32_t order = choose(3);
    std::unique_ptr<context_t> c;
    if (order == 0) c = make(al, be, ec, co, vi, bo);
    else if (order == 1) c = make(bo, vi, co, ec, be, al);
    else { arg[VIEW] = arg[BETA] = -1; c = make(co, al, bo, ec); }

    for (int a = 0; a < n_actors; a++)
    {
      if (a == ECHO) continue;
      if (w.constructed[a] != 1) sim::fail("P16", "actor-count", "%s was made %d times", actor_name[a], w.constructed[a]);
      if (w.args[a] != arg[a]) sim::fail("P16", "actor-argument", "%s was made with %d, not %d", actor_name[a], w.args[a], arg[a]);
      int n = a == VIEW ? 0 : a == ALPHA ? 2 : 1;
      if (w.inits[a] != n) sim::fail("P16", "init-count", "%s was initialised %d times", actor_name[a], w.inits[a]);
    }
    bool consumers = false;
    std::set<std::pair<int, bool>> inits;
    for (auto& i : w.init_order)
    {
      if (!i.second) consumers = true;
      else if (consumers) sim::fail("P16", "init-order", "the producer %s was initialised after a consumer", actor_name[i.first]);
      if (!inits.insert(i).second) sim::fail("P16", "init-count", "%s was initialised twice as a %s", actor_name[i.first], i.second ? "producer" : "consumer");
    }

    int ops = range(5, 60);
    while (ops--)
    {
      sim::step();
      auto& s = w.servers[choose(2)];
      switch (sim::weighted({8, 6, 3, 1}))
      {
        case 0: some_user_op(); break;
        case 1: deliver_one(true); break;
        case 2: { fault("unsolicited-update"); auto r = someone_elses(s); server_respond(s, r); break; }
        case 3:
          if (flip(1, 2)) { log("server %s writes its data down", actor_name[s.id]); s.durable = s.data; }
          else
          {
            fault("server-crash"); log("server %s crashes", actor_name[s.id]);
            for (auto* q : {&s.up, &s.down}) { for (auto& r : *q) if (r.key != no_key) w.lost.insert(at(r)); q->clear(); }
            s.data = s.durable; s.next_key = 0;
          }
      }
    }
    // faults stop
    w.faults = false; w.chatty = 0; w.sync = 0;
    sim::nontrivial();
    auto drain = [&] { int n = 0; while (deliver_one(false)) if (++n > 2000) { sim::fail("P13", "no-rest", "messages keep coming"); break; } };
    drain();
    auto unresolved = [&] {
      for (auto& [k, cell] : w.cells)
        if (is_map(k[0]) && owner[k[0]] != ECHO && cell.state == UNRESOLVED && !w.lost.count(k))
          sim::fail("P13", "read-never-resolved", "%s %d/%d is still unresolved and no message about it was lost", path_name[k[0]], k[1], k[2]); };
    unresolved();
    // everything in the stores, looked up once more; what is unknown is asked for and arrives
    for (int p : {AX, BX, BZ, BY, CV, AZ, AB}) for (int root = 1; root <= 2; root++) for (int k = 0; k < (is_keyed(p) ? 6 : 1); k++) do_look(p, root, k, false);
    for (int k : w.echo_keys) for (int root = 1; root <= 2; root++) do_look(CW, root, k, false);
    for (int p : {BY, CV}) { rec r; r.path = p; r.root = 1; r.key = 0; check_cell(r, "at the end"); }
    drain(); unresolved();
    for (auto& [k, cell] : std::map<cell_key, cell_t>(w.cells)) { rec r; r.path = k[0]; r.root = k[1]; r.key = k[2]; check_cell(r, "at the end"); }
    w.over = true;
    c.reset();
    W = nullptr;
  }
  static sim::add_scenario reg("context", scenario);
}
#endif
