// What the replicated application is made of: its data, the interfaces of its
// server and clients, and a way to say what a message says without the library.
#pragma once
#include "core.hpp"
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace app
{
  using key_pair = std::pair<int, int>;
  // a note as the simulator draws it
  struct plain
  {
    int count = 0; unsigned mask = 0; bool done = false; double weight = 0; int mood = 0; std::string text, bytes, blob; std::vector<int> numbers;
    std::vector<std::pair<std::string, int>> tags; int form = 0, form_n = 0; std::string form_s; bool has_maybe = false; int maybe = 0; std::string author = std::string(16, 'a');
  };

  enum look_t { NOTHING, UNRESOLVED, MISSING, VALUE };
  constexpr const char* look_name[] = {"nothing", "unresolved", "not found", "a value"};
  struct look_r { int calls = 0; int state = NOTHING; std::string value; };
  struct parsed { int outcome = 0; std::string desc, canonical; };     // 0 refused, 1 a message, 2 the alternative for nothing, 3 a system message
  using sender = std::function<void(std::string const& text, std::string const& desc)>;

  struct db_t
  {
    std::map<key_pair, plain> data, durable; int next_key = 0;
    // a read is answered at once with 1/sync, or later with what was so when it was asked
    struct read_t { key_pair k; bool is; plain v; };
    std::deque<read_t> reads; uint32_t sync = 1;
    void ask(key_pair k) { auto it = data.find(k); reads.push_back({k, it != data.end(), it != data.end() ? it->second : plain{}}); }
    // what is deleted is not told any more
    void erase(key_pair k) { data.erase(k); for (auto& r : reads) if (r.k == k) r.is = false; }
  };

  struct server_i
  {
    virtual ~server_i() = default;
    virtual parsed parse(std::string const& text, bool apply) = 0;
    virtual void change(int act, key_pair k, plain const& v) = 0;     // 0 create, 1 update, 2 delete; by the database's other users
    virtual void answer_read() = 0;
    virtual look_r look(key_pair k) = 0;
    virtual std::string board(int room) = 0;
    virtual void welcome(sender const& to) = 0;
  };
  struct client_i
  {
    virtual ~client_i() = default;
    virtual parsed parse(std::string const& text, bool apply) = 0;
    virtual void op(int act, key_pair k, plain const& v) = 0;         // 0 create, 1 read, 2 update, 3 delete, 4 the board
    virtual look_r look(key_pair k) = 0;
    virtual std::string board(int room) = 0;
  };
  std::unique_ptr<server_i> make_server(db_t& db, sender broadcast);
  std::unique_ptr<client_i> make_client(sender up);
  std::string dump_plain(plain const& p);

  inline std::string hex(void const* p, size_t n)
  { std::string s; char b[3]; for (size_t i = 0; i < n; i++) { snprintf(b, 3, "%02x", static_cast<unsigned char const*>(p)[i]); s += b; } return s; }
}

#ifdef SYS_IMPL
#include <boost/hana.hpp>
#include <nbdl/binder/jsoncpp.hpp>
#include <nbdl/context.hpp>
#include <nbdl/context_store.hpp>
#include <nbdl/def/builder/context.hpp>
#include <nbdl/def/directives.hpp>
#include <nbdl/echo_producer.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/message.hpp>
#include <nbdl/message_api.hpp>
#include <nbdl/producer_init.hpp>
#include <nbdl/string.hpp>
#include <nbdl/uid.hpp>

namespace hana = boost::hana;
namespace message = nbdl::message;

namespace app
{
  using namespace boost::hana::literals;
  struct tag_t { nbdl::string name; int rank = 0; };
  enum mood_t : int { CALM, GLAD, CROSS = -1 };
  struct circle { int radius = 0; };
  struct square { unsigned side = 0; nbdl::string label; };
  using shape = nbdl::variant<circle, square>;
  struct note
  {
    int count = 0; unsigned mask = 0; bool done = false; double weight = 0; mood_t mood = CALM;
    nbdl::string text; std::string bytes; std::vector<unsigned char> blob;
    std::vector<int> numbers; std::vector<tag_t> tags; shape form; nbdl::optional<int> maybe; nbdl::uid author{};
  };
  struct board { nbdl::string title; int version = 0; };
  struct room { int id = 0; };
  struct room_key { int value = 0; };
  struct note_key { int value = 0; };
  struct board_key { };
  using note_path = hana::tuple<room_key, note_key>;
  using board_path = hana::tuple<room_key, board_key>;
}
namespace boost::hana
{
  template <> struct equal_impl<app::room_key, app::room_key> { template <typename A, typename B> static constexpr auto apply(A const& a, B const& b) { return a.value == b.value; } };
  template <> struct equal_impl<app::note_key, app::note_key> { template <typename A, typename B> static constexpr auto apply(A const& a, B const& b) { return a.value == b.value; } };
}
namespace nbdl
{
  NBDL_ENTITY(app::tag_t, name, rank);
  NBDL_ENTITY(app::circle, radius);
  NBDL_ENTITY(app::square, side, label);
  NBDL_ENTITY(app::note, count, mask, done, weight, mood, text, bytes, blob, numbers, tags, form, maybe, author);
  NBDL_ENTITY(app::board, title, version);
  NBDL_ENTITY(app::room, id);
  NBDL_ENTITY(app::room_key, value);
  NBDL_ENTITY(app::note_key, value);
}

namespace app
{
  inline std::string number(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
  inline std::string dump(note const& n)
  {
    std::string s = "c" + std::to_string(n.count) + " m" + std::to_string(n.mask) + (n.done ? " D" : " d") + " w" + number(n.weight) + " e" + std::to_string((int) n.mood) + " t" + hex(n.text.data(), n.text.size())
      + " b" + hex(n.bytes.data(), n.bytes.size()) + " o" + hex(n.blob.data(), n.blob.size()) + " n";
    for (int i : n.numbers) s += std::to_string(i) + ",";
    s += " g"; for (auto& t : n.tags) s += hex(t.name.data(), t.name.size()) + ":" + std::to_string(t.rank) + ",";
    s += " f";
    n.form.match(hana::overload_linearly([&](circle const& c) { s += "1:" + std::to_string(c.radius); }
      , [&](square const& q) { s += "2:" + std::to_string(q.side) + ":" + hex(q.label.data(), q.label.size()); }, [&](auto const&) { s += "0"; }));
    s += " y";
    n.maybe.match(hana::overload_linearly([&](int i) { s += std::to_string(i); }, [&](auto const&) { s += "-"; }));
    s += " u" + hex(n.author.data(), 16);
    return s;
  }
  inline std::string dump(board const& b) { return "board t" + hex(b.title.data(), b.title.size()) + " v" + std::to_string(b.version); }
  inline std::string dump(nbdl::not_found) { return "not-found"; }

  inline note to_note(plain const& p)
  {
    note n; n.count = p.count; n.mask = p.mask; n.done = p.done; n.weight = p.weight; n.mood = (mood_t) p.mood; n.text = p.text; n.bytes = p.bytes; n.blob.assign(p.blob.begin(), p.blob.end());
    n.numbers = p.numbers; for (auto& [a, b] : p.tags) n.tags.push_back({a, b});
    if (p.form == 1) n.form = shape(circle{p.form_n}); if (p.form == 2) n.form = shape(square{(unsigned) p.form_n, p.form_s});
    if (p.has_maybe) n.maybe = nbdl::optional<int>(p.maybe);
    memcpy(n.author.data(), p.author.data(), 16);
    return n;
  }
  inline plain to_plain(note const& n)
  {
    plain p; p.count = n.count; p.mask = n.mask; p.done = n.done; p.weight = n.weight; p.mood = n.mood; p.text = n.text; p.bytes = n.bytes; p.blob.assign(n.blob.begin(), n.blob.end());
    p.numbers = n.numbers; for (auto& t : n.tags) p.tags.push_back({t.name, t.rank});
    n.form.match(hana::overload_linearly([&](circle const& c) { p.form = 1; p.form_n = c.radius; }, [&](square const& q) { p.form = 2; p.form_n = q.side; p.form_s = q.label; }, [](auto const&) {}));
    n.maybe.match(hana::overload_linearly([&](int i) { p.has_maybe = true; p.maybe = i; }, [](auto const&) {}));
    p.author.assign((char const*) n.author.data(), 16);
    return p;
  }

  // what a message says
  template <typename M>
  std::string desc(M const& m)
  {
    std::string s = message::is_downstream<M> ? "down " : "up ";
    s += message::is_create<M> ? "create " : message::is_read<M> ? "read " : message::is_update<M> ? "update " : "delete ";
    auto p = message::get_path(m);
    if constexpr (hana::is_a<message::create_path_tag, decltype(p)>) s += std::to_string(hana::front(p.parent_path).value) + "/-";
    else
    {
      s += std::to_string(hana::front(p).value);
      if constexpr (requires { hana::back(p).value; }) s += "/" + std::to_string(hana::back(p).value);
      else s += "/board";
    }
    if constexpr (message::has_payload<M>) s += " " + dump(message::get_payload(m));
    return s;
  }

  template <typename Variant, typename Apply>
  parsed parse_into(std::string const& text, Apply const& apply)
  {
    parsed r; Variant v;
    try { nbdl::binder::jsoncpp::from_string(text, v); }
    catch (std::exception const& e) { r.desc = e.what(); return r; }
    nbdl::match(v, hana::overload_linearly(
      [&](nbdl::unresolved) { r.outcome = 2; }
    , [&](nbdl::system_message const&) { r.outcome = 3; }
    , [&](auto const& m) { r.outcome = 1; r.desc = desc(m); r.canonical = nbdl::binder::jsoncpp::to_string(v); apply(m); }));
    return r;
  }

  template <typename Context> look_r look_at(Context& c, key_pair k)
  {
    look_r r;
    nbdl::match(c, note_path(room_key{k.first}, note_key{k.second}), [&](auto const& v) {
      using V = std::decay_t<decltype(v)>;
      r.calls++;
      if constexpr (std::is_same_v<V, nbdl::unresolved>) r.state = UNRESOLVED;
      else if constexpr (std::is_same_v<V, nbdl::not_found>) r.state = MISSING;
      else if constexpr (std::is_same_v<V, note>) { r.state = VALUE; r.value = dump(v); }
    });
    return r;
  }
  template <typename Context> std::string board_of(Context& c, int room)
  {
    std::string s;
    nbdl::match(c, board_path(room_key{room}, board_key{}), [&](auto const& v) { if constexpr (std::is_same_v<std::decay_t<decltype(v)>, board>) s = dump(v); });
    return s;
  }

  constexpr auto note_point = [] {
    using namespace nbdl_def;
    return AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<room>, PathKey<room_key>,
      AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<note>, PathKey<note_key>,
        nbdl_def::Store<nbdl::map_store_tag>, Actions(Create(), Read(), Update(), Delete())));
  };
  constexpr auto board_point = [] {
    using namespace nbdl_def;
    return AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<room>, PathKey<room_key>,
      AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<board>, PathKey<board_key>,
        nbdl_def::Store<nbdl::context_store<board>>, Actions(Update())));
  };

  template <typename Tag, typename Context, typename Arg>
  struct actor_t
  {
    using hana_tag = Tag;
    Context context; Arg arg;
    template <typename A> actor_t(nbdl::actor_initializer<Context, A>&& a) : context(a.context), arg(a.value) { }
  };
}
#endif
