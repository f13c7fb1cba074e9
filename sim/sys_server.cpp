// The server: a context over a database and an echo, and the consumer that
// passes everything on to the connections.
#define SYS_IMPL
#include "sys.hpp"

namespace app
{
  struct db_tag { }; struct hub_tag { };
  struct server_context
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(
        Producers(
          Producer(Name("db"_s), Type<db_tag>, AccessPoints(note_point())),
          Producer(Name("echo"_s), Type<nbdl::echo_producer>, AccessPoints(board_point()))),
        Consumers(Consumer(Name("hub"_s), Type<hub_tag>)));
    }
  };
  using api = nbdl::message_api<server_context>;
  struct server_t;
}
namespace nbdl
{
  template <typename C> struct actor_type<app::db_tag, C> { using type = app::actor_t<app::db_tag, C, app::server_t*>; };
  template <typename C> struct actor_type<app::hub_tag, C> { using type = app::actor_t<app::hub_tag, C, app::server_t*>; };
  template <> struct send_upstream_message_impl<app::db_tag> { template <typename P, typename M> static void apply(P& p, M const& m); };
  template <> struct send_downstream_message_impl<app::hub_tag> { template <typename P, typename M> static void apply(P& p, M const& m); };
}
namespace app
{
  struct server_t : server_i
  {
    db_t& db; sender broadcast;
    std::unique_ptr<nbdl::context<server_context>> ctx;
    server_t(db_t& d, sender b) : db(d), broadcast(std::move(b))
    { ctx = nbdl::make_context<server_context>(nbdl::actor("db"_s, this), nbdl::actor("echo"_s, nbdl::echo_producer{}), nbdl::actor("hub"_s, this)); }

    static note_path path(key_pair k) { return note_path(room_key{k.first}, note_key{k.second}); }
    parsed parse(std::string const& text, bool apply) override
    {
      return parse_into<api::upstream_variant>(text, [&](auto const& m) { if (apply) nbdl::apply_message(*ctx, m); });
    }
    template <typename M> void tell(M const& m) { nbdl::apply_message(*ctx, m); }
    void changed(int act, key_pair k)
    {
      if (act == 0) tell(message::make_downstream_create(path(k), message::no_uid, to_note(db.data[k]), message::no_is_confirmed));
      if (act == 1) tell(message::make_downstream_update(path(k), message::no_uid, to_note(db.data[k]), message::no_is_confirmed));
      if (act == 2) tell(message::make_downstream_delete(path(k), message::no_uid, message::no_is_confirmed));
    }
    void change(int act, key_pair k, plain const& v) override
    {
      if (act == 2) db.erase(k); else db.data[k] = v;
      changed(act, k);
    }
    void answer(key_pair k)
    {
      auto it = db.data.find(k);
      if (it != db.data.end()) tell(message::make_downstream_read(path(k), message::no_uid, to_note(it->second)));
      else tell(message::make_downstream_read(path(k), message::no_uid, nbdl::not_found{}));
    }
    void answer_read() override
    {
      auto r = db.reads.front(); db.reads.pop_front();
      auto it = db.data.find(r.k); if (r.is != (it != db.data.end()) || (r.is && app::dump_plain(r.v) != app::dump_plain(it->second))) sim::fault("stale-read-answer");
      if (r.is) tell(message::make_downstream_read(path(r.k), message::no_uid, to_note(r.v)));
      else tell(message::make_downstream_read(path(r.k), message::no_uid, nbdl::not_found{}));
    }
    look_r look(key_pair k) override { return look_at(*ctx, k); }
    std::string board(int room) override { return board_of(*ctx, room); }
    void welcome(sender const& to) override
    {
      nbdl::match(*ctx, board_path(room_key{1}, board_key{}), [&](auto const& v) {
        if constexpr (std::is_same_v<std::decay_t<decltype(v)>, app::board>)
        {
          auto m = message::make_downstream_update(board_path(room_key{1}, board_key{}), message::no_uid, v, message::no_is_confirmed);
          to(nbdl::binder::jsoncpp::to_string(api::downstream_variant(m)), desc(m));
        }
      });
    }
  };
  std::unique_ptr<server_i> make_server(db_t& db, sender broadcast) { return std::make_unique<server_t>(db, std::move(broadcast)); }
}
namespace nbdl
{
  template <typename P, typename M> void send_upstream_message_impl<app::db_tag>::apply(P& p, M const& m)
  {
    auto& s = *p.arg; auto& db = s.db;
    if constexpr (message::is_create<M>)
    {
      app::key_pair k{hana::front(message::get_path(m).parent_path).value, db.next_key++ % 7};
      db.data[k] = app::to_plain(message::get_payload(m)); s.changed(0, k);
    }
    else
    {
      auto path = message::get_path(m); app::key_pair k{hana::front(path).value, hana::back(path).value};
      if constexpr (message::is_read<M>) { if (sim::flip(1, db.sync)) s.answer(k); else db.ask(k); }
      else if constexpr (message::is_update<M>) { db.data[k] = app::to_plain(message::get_payload(m)); s.changed(1, k); }
      else { db.erase(k); s.changed(2, k); }
    }
  }
  template <typename P, typename M> void send_downstream_message_impl<app::hub_tag>::apply(P& p, M const& m)
  {
    // what is asked for here and not in the set has no message of its own
    if constexpr (message::has_payload<M>)
    {
      using T = std::decay_t<decltype(message::get_payload(m))>;
      if constexpr (message::is_read<M> && std::is_same_v<decltype(message::get_path(m)), app::note_path>)
      {
        // an answer may be older than what is known by now
        nbdl::match(*p.arg->ctx, message::get_path(m), [&](auto const& v) {
          using V = std::decay_t<decltype(v)>;
          if constexpr (std::is_same_v<V, app::note> || std::is_same_v<V, nbdl::not_found>)
          {
            auto r = message::make_downstream_read(message::get_path(m), message::no_uid, v);
            p.arg->broadcast(nbdl::binder::jsoncpp::to_string(app::api::downstream_variant(r)), app::desc(r));
          }
        });
      }
      else if constexpr (std::is_same_v<T, app::note> || std::is_same_v<T, app::board> || std::is_same_v<T, nbdl::not_found>)
        p.arg->broadcast(nbdl::binder::jsoncpp::to_string(app::api::downstream_variant(m)), app::desc(m));
    }
    else p.arg->broadcast(nbdl::binder::jsoncpp::to_string(app::api::downstream_variant(m)), app::desc(m));
  }
}
