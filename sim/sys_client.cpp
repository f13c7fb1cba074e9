// A client: a context whose producer is the connection to the server.
#define SYS_IMPL
#include "sys.hpp"

namespace app
{
  struct remote_tag { };
  struct client_context
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Producers(Producer(Name("remote"_s), Type<remote_tag>, AccessPoints(note_point(), board_point()))), Consumers());
    }
  };
  using api = nbdl::message_api<client_context>;
  struct client_t;
}
namespace nbdl
{
  template <typename C> struct actor_type<app::remote_tag, C> { using type = app::actor_t<app::remote_tag, C, app::client_t*>; };
  template <> struct send_upstream_message_impl<app::remote_tag> { template <typename P, typename M> static void apply(P& p, M const& m); };
}
namespace app
{
  struct client_t : client_i
  {
    sender up; std::unique_ptr<nbdl::context<client_context>> ctx;
    client_t(sender s) : up(std::move(s)) { ctx = nbdl::make_context<client_context>(nbdl::actor("remote"_s, this)); }
    parsed parse(std::string const& text, bool apply) override
    {
      return parse_into<api::downstream_variant>(text, [&](auto const& m) { if (apply) nbdl::apply_message(*ctx, m); });
    }
    template <typename M> void tell(M const& m) { nbdl::apply_message(*ctx, m); }
    void op(int act, key_pair k, plain const& v) override
    {
      note_path path(room_key{k.first}, note_key{k.second});
      if (act == 0) tell(message::make_upstream_create(message::make_create_path<note_key>(hana::make_tuple(room_key{k.first})), message::no_uid, to_note(v)));
      if (act == 1) tell(message::make_upstream_read(path, message::no_uid));
      if (act == 2) tell(message::make_upstream_update(path, message::no_uid, to_note(v)));
      if (act == 3) tell(message::make_upstream_delete(path, message::no_uid));
      if (act == 4) tell(message::make_upstream_update(board_path(room_key{1}, board_key{}), message::no_uid, app::board{v.text, v.count}));
    }
    look_r look(key_pair k) override { return look_at(*ctx, k); }
    std::string board(int room) override { return board_of(*ctx, room); }
  };
  std::unique_ptr<client_i> make_client(sender up) { return std::make_unique<client_t>(std::move(up)); }
  std::string dump_plain(plain const& p) { return dump(to_note(p)); }
}
namespace nbdl
{
  template <typename P, typename M> void send_upstream_message_impl<app::remote_tag>::apply(P& p, M const& m)
  { p.arg->up(nbdl::binder::jsoncpp::to_string(app::api::upstream_variant(m)), app::desc(m)); }
}
