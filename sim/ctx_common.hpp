// A context with producers, consumers and stores of every kind the library has,
// and the small runtime types the model and the oracles work on.
#pragma once
#include "core.hpp"
#include <boost/hana.hpp>
#include <mpdef/list.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/consumer_init.hpp>
#include <nbdl/context.hpp>
#include <nbdl/context_store.hpp>
#include <nbdl/def/builder/context.hpp>
#include <nbdl/def/directives.hpp>
#include <nbdl/echo_producer.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/message.hpp>
#include <nbdl/notify_state_change.hpp>
#include <nbdl/producer_init.hpp>
#include <nbdl/uid.hpp>
#include <functional>

namespace hana = boost::hana;
namespace message = nbdl::message;

namespace ctx
{
  using namespace boost::hana::literals;
  using sim::log; using sim::choose; using sim::flip; using sim::fault; using sim::probe; using sim::range;

  // ------------------------------------------------------------ data
  struct root_a { int id; }; struct root_b { int id; }; struct root_c { int id; };
  template <int> struct item { int id = 0; int val = 0; std::string text; };
  template <typename E> struct key { int value; key(int v) : value(v) { } };
  struct unit_b { }; struct unit_c { };
  struct secret { int value; };

  enum path_id { AX, BX, BZ, BY, CW, CV, AZ, AB, n_paths };
  constexpr const char* path_name[] = {"a/x", "b/x", "b/z", "b/y", "c/w", "c/v", "a/z", "a/b"};
  template <int P> struct path_of;
  template <> struct path_of<AX> { using type = hana::tuple<key<root_a>, key<item<AX>>>; };
  template <> struct path_of<BX> { using type = hana::tuple<key<root_b>, key<item<BX>>>; };
  template <> struct path_of<BZ> { using type = hana::tuple<key<root_b>, key<item<BZ>>>; };
  template <> struct path_of<BY> { using type = hana::tuple<key<root_b>, unit_b>; };
  template <> struct path_of<CW> { using type = hana::tuple<key<root_c>, key<item<CW>>>; };
  template <> struct path_of<CV> { using type = hana::tuple<key<root_c>, unit_c>; };
  template <> struct path_of<AZ> { using type = hana::tuple<key<root_a>, key<item<AZ>>>; };
  template <> struct path_of<AB> { using type = hana::tuple<key<root_a>, key<item<AB>>>; };
  template <int P> using path_t = typename path_of<P>::type;
  template <int P> constexpr bool keyed = P != BY && P != CV;       // the last key is a number
  template <int P> constexpr bool readable = P != AB;                // a basic map store knows nothing of reads
  template <int P> constexpr bool with_uid = P == AX || P == BZ;     // messages of this path carry a uid and is_confirmed

  template <typename T> constexpr int index_of()
  {
    if constexpr (std::is_same_v<T, path_t<AX>>) return AX;
    else if constexpr (std::is_same_v<T, path_t<BX>>) return BX;
    else if constexpr (std::is_same_v<T, path_t<BZ>>) return BZ;
    else if constexpr (std::is_same_v<T, path_t<BY>>) return BY;
    else if constexpr (std::is_same_v<T, path_t<CW>>) return CW;
    else if constexpr (std::is_same_v<T, path_t<CV>>) return CV;
    else if constexpr (std::is_same_v<T, path_t<AZ>>) return AZ;
    else if constexpr (std::is_same_v<T, path_t<AB>>) return AB;
    else return -1;
  }

  // ------------------------------------------------------------ runtime view
  enum act_t { CREATE, READ, UPDATE, DELETE, NOTIFY };
  constexpr const char* act_name[] = {"create", "read", "update", "delete", "notify"};
  enum actor_id { ALPHA, BETA, ECHO, CONS, VIEW, BOTH, n_actors };
  constexpr const char* actor_name[] = {"alpha", "beta", "echo", "cons", "view", "both"};
  constexpr int owner[n_paths] = {ALPHA, BETA, BETA, BETA, ECHO, ECHO, ALPHA, ALPHA};
  enum payload_kind { NONE, VALUE, NOT_FOUND };
  constexpr int no_key = -1000000, any_key = -1000001;

  struct value_t
  {
    int id = 0, val = 0; std::string text;
    bool operator==(value_t const& o) const { return id == o.id && val == o.val && text == o.text; }
  };
  struct rec
  {
    bool down = false; int act = 0; int path = 0; int root = 0; int key = no_key;
    int payload = NONE; value_t value; uint32_t uid = 0; int confirmed = -1; int secret = -1;
    bool operator==(rec const& o) const
    {
      return down == o.down && act == o.act && path == o.path && root == o.root && (key == o.key || key == any_key || o.key == any_key)
        && payload == o.payload && (payload != VALUE || value == o.value) && uid == o.uid && confirmed == o.confirmed && secret == o.secret;
    }
    std::string str() const
    {
      char b[200];
      const char* k = payload == VALUE ? " value" : payload == NOT_FOUND ? " not-found" : "";
      snprintf(b, sizeof b, "%s%s %s %d/%s%s", act == NOTIFY ? "" : down ? "downstream " : "upstream ", act_name[act], path_name[path], root
             , key == no_key ? "-" : path == CW ? "*" : std::to_string(key).c_str(), k);
      std::string s = b;
      if (payload == VALUE) s += " " + std::to_string(value.val);
      if (uid) s += " uid " + std::to_string(uid);
      if (secret >= 0) s += " secret " + std::to_string(secret);
      if (confirmed >= 0) s += confirmed ? " confirmed" : " unconfirmed";
      return s;
    }
  };

  enum state_t { ABSENT, UNRESOLVED, PRESENT, MISSING, LISTENING };
  constexpr const char* state_name[] = {"absent", "unresolved", "a value", "not found", "listening"};
  struct seen_t { int calls = 0; int state = -1; value_t value; int hits = 0, sum = 0; };

  // provided by the world (ctx.cpp)
  void on_event(int actor, rec const&);
  void on_construct(int actor, int arg, void const* handle);
  void on_init(int actor, bool as_producer);
  void on_foreign(int listener, rec const&, int hits);

  inline uint32_t uid_id(nbdl::uid const& u) { uint32_t v; memcpy(&v, u.data(), 4); return v; }
  inline nbdl::uid uid_make(uint32_t v)
  { nbdl::uid u; for (auto& x : u) x = 0x5a; memcpy(u.data(), &v, 4); return u; }
  template <int N> value_t to_value(item<N> const& x) { return {x.id, x.val, x.text}; }
  template <typename P> int last_key(P const& p) { if constexpr (requires { hana::back(p).value; }) return hana::back(p).value; else return 0; }

  struct zvalue { int hits = 0, sum = 0; };
}

namespace boost::hana
{
  template <typename E> struct equal_impl<ctx::key<E>, ctx::key<E>>
  { template <typename T1, typename T2> static constexpr auto apply(T1 const& a, T2 const& b) { return a.value == b.value; } };
}

namespace nbdl
{
  NBDL_ENTITY(ctx::root_a, id); NBDL_ENTITY(ctx::root_b, id); NBDL_ENTITY(ctx::root_c, id);
  NBDL_ENTITY(ctx::item<ctx::AX>, id, val, text); NBDL_ENTITY(ctx::item<ctx::BX>, id, val, text);
  NBDL_ENTITY(ctx::item<ctx::BZ>, id, val, text); NBDL_ENTITY(ctx::item<ctx::BY>, id, val, text);
  NBDL_ENTITY(ctx::item<ctx::AZ>, id, val, text); NBDL_ENTITY(ctx::item<ctx::AB>, id, val, text);
  NBDL_ENTITY(ctx::item<ctx::CW>, id, val, text); NBDL_ENTITY(ctx::item<ctx::CV>, id, val, text);
  template <typename E> struct entity_members_impl<ctx::key<E>> { using type = mpdef::list<NBDL_MEMBER(&ctx::key<E>::value)>; };
}

namespace ctx
{
  // what a message says, read through the library's own accessors
  template <typename M>
  rec to_rec(M const& m)
  {
    rec r;
    r.down = message::is_downstream<M>;
    r.act = message::is_create<M> ? CREATE : message::is_read<M> ? READ : message::is_update<M> ? UPDATE : DELETE;
    using PT = typename decltype(message::get_path_type(m))::type;
    r.path = index_of<PT>();
    auto p = message::get_path(m);
    if constexpr (hana::is_a<message::create_path_tag, decltype(p)>) r.root = hana::front(p.parent_path).value;
    else { r.root = hana::front(p).value; r.key = last_key(p); }
    if constexpr (requires { message::get_uid(m); })
      if constexpr (std::is_same_v<std::decay_t<decltype(message::get_uid(m))>, nbdl::uid>) r.uid = uid_id(message::get_uid(m));
    if constexpr (message::has_payload<M>)
    {
      auto v = message::get_payload(m);
      if constexpr (requires { v.text; }) { r.payload = VALUE; r.value = to_value(v); }
      else if constexpr (std::is_same_v<decltype(v), zvalue>) { r.payload = VALUE; r.value = {v.hits, v.sum, ""}; }
      else if constexpr (std::is_same_v<decltype(v), nbdl::not_found>) r.payload = NOT_FOUND;
      else r.payload = 99;
    }
    if constexpr (!message::is_read<M> && message::is_downstream<M>)
      if constexpr (message::has_is_confirmed<M>) r.confirmed = (bool) message::is_confirmed(m);
    if constexpr (message::is_upstream<M> && message::is_create<M>)
      if constexpr (requires { message::get_private_payload(m); })
        if constexpr (requires { message::get_private_payload(m).value; }) r.secret = message::get_private_payload(m).value;
        else r.secret = -2;
    return r;
  }
  template <typename P>
  rec notify_rec(P const& p)
  {
    rec r; r.act = NOTIFY; r.path = index_of<P>(); r.root = hana::front(p).value; r.key = last_key(p);
    return r;
  }

  // ------------------------------------------------------------ a store that listens to other paths
  template <int P> struct z_tag { };
  template <int P> struct z_store
  {
    using hana_tag = z_tag<P>;
    int hits = 0, sum = 0;
  };

  // ------------------------------------------------------------ actors
  template <int Id> struct prod { int arg; template <typename C> struct actor_impl_t; };
  template <int Id> struct producer_tag { };
  template <int Id> struct consumer_tag { };
  template <int Id> struct view_tag { };
  template <int Id> struct both_tag { };
  struct arg_t { int value; };

  template <template <int> class Tag, int Id, typename Context>
  struct actor_t
  {
    using hana_tag = Tag<Id>;
    Context context; int arg = -1;
    template <typename A> actor_t(nbdl::actor_initializer<Context, A>&& a) : context(a.context)
    {
      if constexpr (requires { a.value.value; }) arg = a.value.value;
      on_construct(Id, arg, &context);
    }
  };
}

namespace nbdl
{
  template <int Id, typename C> struct actor_type<ctx::producer_tag<Id>, C> { using type = ctx::actor_t<ctx::producer_tag, Id, C>; };
  template <int Id, typename C> struct actor_type<ctx::consumer_tag<Id>, C> { using type = ctx::actor_t<ctx::consumer_tag, Id, C>; };
  template <int Id, typename C> struct actor_type<ctx::view_tag<Id>, C> { using type = ctx::actor_t<ctx::view_tag, Id, C>; };
  template <int Id, typename C> struct actor_type<ctx::both_tag<Id>, C> { using type = ctx::actor_t<ctx::both_tag, Id, C>; };

  template <int Id> struct send_upstream_message_impl<ctx::producer_tag<Id>>
  { template <typename P, typename M> static void apply(P&, M const& m) { ctx::on_event(Id, ctx::to_rec(m)); } };
  template <int Id> struct producer_init_impl<ctx::producer_tag<Id>>
  { template <typename P> static void apply(P&) { ctx::on_init(Id, true); } };
  // alpha is a consumer too, and beta a state consumer
  template <> struct send_downstream_message_impl<ctx::producer_tag<ctx::ALPHA>>
  { template <typename P, typename M> static void apply(P&, M const& m) { ctx::on_event(ctx::ALPHA, ctx::to_rec(m)); } };
  template <> struct consumer_init_impl<ctx::producer_tag<ctx::ALPHA>>
  { template <typename P> static void apply(P&) { ctx::on_init(ctx::ALPHA, false); } };
  template <> struct notify_state_change_impl<ctx::producer_tag<ctx::BETA>>
  { template <typename P, typename M> static void apply(P&&, M const& m) { ctx::on_event(ctx::BETA, ctx::notify_rec(m)); } };
  template <int Id> struct send_downstream_message_impl<ctx::consumer_tag<Id>>
  { template <typename P, typename M> static void apply(P&, M const& m) { ctx::on_event(Id, ctx::to_rec(m)); } };
  template <int Id> struct consumer_init_impl<ctx::consumer_tag<Id>>
  { template <typename P> static void apply(P&) { ctx::on_init(Id, false); } };
  template <int Id> struct notify_state_change_impl<ctx::view_tag<Id>>
  { template <typename P, typename M> static void apply(P&&, M const& m) { ctx::on_event(Id, ctx::notify_rec(m)); } };
  template <int Id> struct send_downstream_message_impl<ctx::both_tag<Id>>
  { template <typename P, typename M> static void apply(P&, M const& m) { ctx::on_event(Id, ctx::to_rec(m)); } };
  template <int Id> struct notify_state_change_impl<ctx::both_tag<Id>>
  { template <typename P, typename M> static void apply(P&&, M const& m) { ctx::on_event(Id, ctx::notify_rec(m)); } };
  template <int Id> struct consumer_init_impl<ctx::both_tag<Id>>
  { template <typename P> static void apply(P&) { ctx::on_init(Id, false); } };

  // the listening store: remembers how often it was told, and what it heard
  template <int Z> struct make_store_impl<ctx::z_tag<Z>>
  { template <typename P, typename E> static constexpr auto apply(P, E) -> ctx::z_store<Z> { return {}; } };
  template <int Z> struct match_impl<ctx::z_tag<Z>>
  { template <typename S, typename K, typename F> static void apply(S&& s, K&&, F&& f) { std::forward<F>(f)(ctx::zvalue{s.hits, s.sum}); } };
  template <int Z> struct apply_message_impl<ctx::z_tag<Z>>
  {
    template <typename S, typename M> static bool apply(S& s, M const& m)
    {
      if constexpr (message::is_downstream<M> && message::is_update<M>)
      { int v = message::get_payload(m).val; bool changed = v % 2; if (changed) s.sum += v; return changed; }
      else return false;
    }
  };
  template <int Z> struct apply_foreign_message_impl<ctx::z_tag<Z>>
  {
    template <typename S, typename M, typename F> static void apply(S& s, M const& m, F const& f)
    {
      s.hits++;
      auto r = ctx::to_rec(m);
      ctx::on_foreign(Z, r, s.hits);
      for (int i = 0; i < r.value.val % 3; i++) f(ctx::path_t<Z>(r.root, i));
    }
  };
}

namespace ctx
{
  struct sim_context
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(
        Producers(
          Producer(Name("alpha"_s), Type<producer_tag<ALPHA>>,
            AccessPoints(AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<root_a>, PathKey<key<root_a>>,
              AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<item<AX>>, PathKey<key<item<AX>>>,
                nbdl_def::Store<nbdl::map_store_tag>, Actions(Create(), Read(), Update(), Delete()))),
            AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<root_a>, PathKey<key<root_a>>,
              AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<item<AZ>>, PathKey<key<item<AZ>>>,
                nbdl_def::Store<z_tag<AZ>>, Actions(Create(), Read(), Update(), Delete()),
                ListenPaths(Path<key<root_a>, key<item<AX>>>, Path<key<root_a>, key<item<AB>>>))),
            AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<root_a>, PathKey<key<root_a>>,
              AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<item<AB>>, PathKey<key<item<AB>>>,
                nbdl_def::Store<nbdl::basic_map_store_tag>, Actions(Create(), Update(), Delete()))))),
          Producer(Name("beta"_s), Type<producer_tag<BETA>>,
            AccessPoints(
              AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<root_b>, PathKey<key<root_b>>,
                AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<item<BX>>, PathKey<key<item<BX>>>,
                  nbdl_def::Store<nbdl::map_store_tag>, Actions(Create(), Read(), Update(), Delete()))),
              AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<root_b>, PathKey<key<root_b>>,
                AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<item<BZ>>, PathKey<key<item<BZ>>>,
                  nbdl_def::Store<z_tag<BZ>>, Actions(Create(), Read(), Update(), Delete()),
                  ListenPaths(Path<key<root_b>, key<item<BX>>>, Path<key<root_a>, key<item<AX>>>))),
              AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<root_b>, PathKey<key<root_b>>,
                AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<item<BY>>, PathKey<unit_b>,
                  nbdl_def::Store<nbdl::context_store<item<BY>>>, Actions(Create(), Read(), Update(), Delete()))))),
          Producer(Name("echo"_s), Type<nbdl::echo_producer>,
            AccessPoints(
              AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<root_c>, PathKey<key<root_c>>,
                AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<item<CW>>, PathKey<key<item<CW>>>,
                  nbdl_def::Store<nbdl::map_store_tag>, Actions(Create(), Read(), Update(), Delete()))),
              AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<root_c>, PathKey<key<root_c>>,
                AccessPoint(Name(hana::type_c<void>), nbdl_def::Entity<item<CV>>, PathKey<unit_c>,
                  nbdl_def::Store<nbdl::context_store<item<CV>>>, Actions(Create(), Read(), Update(), Delete())))))
        ),
        Consumers(
          Consumer(Name("cons"_s), Type<consumer_tag<CONS>>),
          Consumer(Name("view"_s), Type<view_tag<VIEW>>),
          Consumer(Name("both"_s), Type<both_tag<BOTH>>)
        ));
    }
  };
  using context_t = nbdl::context<sim_context>;
  static_assert(sizeof(context_t));   // completes the context before anything asks for its handle
  using handle_t = nbdl::context_detail::store_handle<context_t>;

  // builds the message an operation stands for and hands it to the context
  template <int P> void push(handle_t h, rec const& r);
  // looks a value up the way a consumer does
  template <int P> seen_t look(handle_t h, int root, int k);

#ifdef CTX_IMPL
  template <int P> auto make_path(int root, int k)
  {
    using T = path_t<P>; using R = std::decay_t<decltype(hana::front(std::declval<T>()))>;
    if constexpr (keyed<P>) return T(R(root), key<item<P>>(k));
    else return T(R(root), std::decay_t<decltype(hana::back(std::declval<T>()))>{});
  }

  template <int P> void push(handle_t h, rec const& r)
  {
    using T = path_t<P>; using K = std::decay_t<decltype(hana::back(std::declval<T>()))>;
    using R = std::decay_t<decltype(hana::front(std::declval<T>()))>;
    item<P> v{r.value.id, r.value.val, r.value.text};
    auto uid = [&] { if constexpr (with_uid<P>) return uid_make(r.uid); else return message::no_uid; }();
    auto conf = [&] { if constexpr (with_uid<P>) return r.confirmed == 1; else return message::no_is_confirmed; }();
    auto path = make_path<P>(r.root, r.key);
    auto go = [&](auto const& m) { nbdl::apply_message(h, m); };
    if (!r.down)
    {
      if (r.act == CREATE)
      {
        auto cp = message::make_create_path<K>(hana::make_tuple(R(r.root)));
        if constexpr (with_uid<P>) go(message::make_upstream_create(cp, uid, v, secret{r.secret}));
        else go(message::make_upstream_create(cp, uid, v));
      }
      if constexpr (readable<P>)
      if (r.act == READ) go(message::make_upstream_read(path, uid));
      if (r.act == UPDATE) go(message::make_upstream_update(path, uid, v));
      if (r.act == DELETE) go(message::make_upstream_delete(path, uid));
    }
    else
    {
      if (r.act == CREATE) go(message::make_downstream_create(path, uid, v, conf));
      if constexpr (readable<P>)
      if (r.act == READ && r.payload == VALUE) go(message::make_downstream_read(path, uid, v));
      if constexpr (keyed<P> && readable<P>)
      if (r.act == READ && r.payload == NOT_FOUND) go(message::make_downstream_read(path, uid, nbdl::not_found{}));
      if (r.act == UPDATE) go(message::make_downstream_update(path, uid, v, conf));
      if (r.act == DELETE) go(message::make_downstream_delete(path, uid, conf));
    }
  }

  template <int P> seen_t look(handle_t h, int root, int k)
  {
    seen_t s;
    auto path = make_path<P>(root, k);
    nbdl::match(h, path, [&](auto const& v) {
      using V = std::decay_t<decltype(v)>;
      s.calls++;
      if constexpr (std::is_same_v<V, nbdl::unresolved>) s.state = UNRESOLVED;
      else if constexpr (std::is_same_v<V, nbdl::not_found>) s.state = MISSING;
      else if constexpr (std::is_same_v<V, zvalue>) { s.state = LISTENING; s.hits = v.hits; s.sum = v.sum; }
      else if constexpr (std::is_same_v<V, item<P>>) { s.state = PRESENT; s.value = to_value(v); }
      else s.state = ABSENT;
    });
    return s;
  }
#endif
}
