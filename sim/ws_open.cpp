// The real endpoints, opened as an application opens them. PART picks the kind.
#include "ws_common.hpp"
#include <nbdl/catch.hpp>
#include <nbdl/endpoint_handler.hpp>
#include <nbdl/endpoint_open.hpp>
#include <nbdl/endpoint_send_close.hpp>
#include <nbdl/endpoint_send_message.hpp>
#include <nbdl/hold.hpp>
#include <nbdl/hold_lazy.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/websocket/client_endpoint.hpp>
#include <nbdl/websocket/server_endpoint.hpp>

namespace ws
{
  template <typename Ptr>
  static void attach(app_t& a, Ptr ep)
  {
    using E = typename Ptr::element_type;
    std::weak_ptr<E> w = ep;
    a.opened = true;
    a.hold = ep; a.alive = ep;
    a.do_send = [w](std::string const& m) { if (auto p = w.lock()) nbdl::endpoint_send_message(*p, m); };
    a.do_close = [w] { if (auto p = w.lock()) nbdl::endpoint_send_close(*p); };
    a.do_start = [w] { if (auto p = w.lock()) p->start_messaging(); };
    a.do_stop = [w] { if (auto p = w.lock()) return p->stop(); return false; };
  }

  namespace event = nbdl::websocket::event;
#if PART < 2

  template <typename Info>
  static void serve(app_t& a, Info&& info)
  {
    a.role = "server";
    auto ep = nbdl::endpoint_open(std::forward<Info>(info), std::queue<std::string>{}, nbdl::endpoint_handler(
      event::on_ready = [&a](auto&, nbdl::auth_token_t const& t)
      { a.ready++; a.token = t.value; log("%s: ready token=%s", a.name.c_str(), t.value.c_str()); if (a.on_ready_hook) a.on_ready_hook(); }
    , event::on_message = [&a](auto&, auto const& m) { a.on_msg(m); }
    , event::on_close = [&a](auto&&...) { a.closes++; a.on_end("close"); }
    , event::on_bad_request = [&a](auto&&...) { a.bads++; a.on_end("bad_request"); }
    , event::on<std::error_code> = [&a](auto&, auto&&) { a.errors++; a.on_end("error"); }
    ));
    attach(a, ep);
  }
#else
  template <typename Info>
  static void connect(app_t& a, Info&& info)
  {
    a.role = "client";
    auto ep = nbdl::endpoint_open(std::forward<Info>(info), std::queue<std::string>{}, nbdl::endpoint_handler(
      event::on_ready = [&a](auto&) { a.ready++; log("%s: ready", a.name.c_str()); if (a.on_ready_hook) a.on_ready_hook(); }
    , event::on_message = [&a](auto&, auto const& m) { a.on_msg(m); }
    , event::on_close = [&a](auto&&...) { a.closes++; a.on_end("close"); }
    , event::on_bad_request = [&a](auto&&...) { a.bads++; a.on_end("bad_request"); }
    , event::on<std::error_code> = [&a](auto&, auto&&) { a.errors++; a.on_end("error"); }
    ));
    attach(a, ep);
  }

#endif
#if PART == 0
  void open_server(app_t& a, tcp::socket s) { serve(a, nbdl::websocket::server_endpoint{std::move(s)}); }
#elif PART == 1
  void open_server_text(app_t& a, tcp::socket s) { serve(a, nbdl::websocket::server_endpoint_text{std::move(s)}); }
#elif PART == 2
  void open_client(app_t& a, tcp::socket& s, std::string const& token) { connect(a, nbdl::websocket::client_endpoint{s, {token}, {}}); }
#elif PART == 3
  void open_client_text(app_t& a, tcp::socket& s, std::string const& token) { connect(a, nbdl::websocket::client_endpoint_text{s, {token}, {"http://sim"}}); }
#endif
}
