// Two real endpoints over a simulated connection.
#pragma once
#include "ws_common.hpp"
#include "ws_wire.hpp"

namespace ws
{
  inline void check_prefix(app_t& r, app_t& s)
  {
    for (size_t i = 0; i < r.got.size(); i++)
    {
      if (i >= s.sent.size())
      { sim::fail("P01", "extra-message", "%s received %zu messages, %s sent %zu", r.name.c_str(), r.got.size(), s.name.c_str(), s.sent.size()); return; }
      if (r.got[i] != s.sent[i])
      {
        sim::fail("P01", "message-differs", "%s: message %zu arrived as %zu bytes #%llx, was sent as %zu bytes #%llx", r.name.c_str(), i
                , r.got[i].size(), (unsigned long long) sim::fnv(r.got[i]), s.sent[i].size(), (unsigned long long) sim::fnv(s.sent[i]));
        return;
      }
    }
  }

  inline void duplex()
  {
    sim::leaks_for("P05");
    world_t w;
    random_net(w.k.cfg);
    w.add_node(); w.add_node();
    auto& c = w.k.make_conn();
    app_t A, B; A.name = "S"; B.name = "C"; A.peer = &B; B.peer = &A;
    app_t* apps[2] = {&A, &B};

    // what this run is about
    uint32_t mode = sim::weighted({6, 4, 3, 3});   // 0 plain 1 close 2 connection loss 3 local stop
    uint32_t nmsg[2] = {choose(7), choose(7)};
    bool text[2] = {flip(1, 2), flip(1, 2)};
    uint32_t start_policy[2] = {sim::weighted({4, 1, 1}), sim::weighted({4, 1, 1})};  // in ready / by an op / sends first
    uint32_t next_id = 1;
    A.release_policy = sim::weighted({3, 1}); B.release_policy = sim::weighted({3, 1});
    uint32_t reply_budget[2] = {choose(3), choose(3)};
    // reentrant action inside the message handler, at which message
    uint32_t in_handler[2] = {mode == 1 ? sim::weighted({3, 1}) : 0, mode == 1 ? sim::weighted({3, 1}) : 0};
    uint32_t stop_in_handler[2] = {mode == 3 ? sim::weighted({3, 1}) : 0, mode == 3 ? sim::weighted({3, 1}) : 0};
    bool early_release[2] = {flip(1, 8), flip(1, 8)};
    std::string token = "tok" + std::to_string(choose(1000));
    log("duplex mode=%u", mode);

    auto fresh = [&](app_t& a) {
      size_t n = random_len();
      auto m = sim::pattern(next_id++, n);
      log("%s: hands over %zu bytes #%016llx", a.name.c_str(), n, (unsigned long long) sim::fnv(m));
      return m;
    };
    for (int i = 0; i < 2; i++)
    {
      auto& a = *apps[i];
      a.on_ready_hook = [&, i] {
        auto& a = *apps[i];
        if (start_policy[i] == 2) for (; nmsg[i]; nmsg[i]--) a.send(fresh(a));
        if (start_policy[i] != 1) { a.start(); log("%s: start", a.name.c_str()); if (early_release[i]) { a.release(); probe("ws:released-while-open"); } }
      };
      a.on_message_hook = [&, i](std::string const&) {
        auto& a = *apps[i];
        if (reply_budget[i] && !a.ends()) { reply_budget[i]--; probe("ws:send-inside-handler"); a.send(fresh(a)); }
        if (in_handler[i] && flip(1, 3)) { in_handler[i] = 0; probe("ws:close-inside-handler"); log("%s: close (in handler)", a.name.c_str()); a.close(); }
        if (stop_in_handler[i] && flip(1, 3)) { stop_in_handler[i] = 0; probe("ws:stop-inside-handler"); log("%s: stop (in handler)", a.name.c_str()); a.stop(); }
      };
    }
    if (text[0]) open_server_text(A, w.adopt(*w.nodes[0], c.e[0].fd));
    else open_server(A, w.adopt(*w.nodes[0], c.e[0].fd));
    tcp::socket cs = w.adopt(*w.nodes[1], c.e[1].fd);
    if (text[1]) open_client_text(B, cs, token);
    else open_client(B, cs, token);

    bool lost = false, faulted = false;
    uint32_t extra_ops = 0;
    if (mode == 1) extra_ops = 1 + choose(2);
    if (mode == 2) extra_ops = 1 + choose(2);
    if (mode == 3) extra_ops = 1;
    uint32_t stalls = sim::weighted({3, 1, 1});
    uint32_t cuts = sim::weighted({4, 1});
    uint64_t cut_until = 0;
    uint32_t opw = 1 + 2 * choose(3);

    auto do_op = [&] {
      std::vector<std::function<void()>> ops;
      for (int i = 0; i < 2; i++)
      {
        auto& a = *apps[i];
        if (a.opened && !a.released && nmsg[i] && !a.stopped) ops.push_back([&, i] { nmsg[i]--; apps[i]->send(fresh(*apps[i])); });
        if (a.ready && !a.started && !a.stopped && start_policy[i] == 1)
          ops.push_back([&, i] { log("%s: start", apps[i]->name.c_str()); apps[i]->start(); if (early_release[i]) apps[i]->release(); });
      }
      if (extra_ops)
      {
        if (mode == 1) for (int i = 0; i < 2; i++) if (apps[i]->ready) ops.push_back([&, i] { extra_ops--; log("%s: close", apps[i]->name.c_str()); if (!apps[i]->started) probe("ws:close-before-start"); apps[i]->close(); });
        if (mode == 2) ops.push_back([&] {
          extra_ops--; lost = true;
          static const int errs[] = {ECONNRESET, ETIMEDOUT, EPIPE};
          int e = errs[choose(3)]; bool d = flip(1, 2);
          fault(e == ECONNRESET ? "connection-reset" : e == ETIMEDOUT ? "connection-timeout" : "broken-pipe"); if (d) fault("receive-buffer-discarded");
          w.k.reset(c, e, d); });
        if (mode == 3) for (int i = 0; i < 2; i++) if (apps[i]->started) ops.push_back([&, i] { extra_ops--; fault("local-stop"); log("%s: stop", apps[i]->name.c_str()); apps[i]->stop(); if (flip(1, 2)) apps[i]->release(); });
      }
      if (stalls) ops.push_back([&] { stalls--; auto n = choose(2); w.nodes[n]->stalled = 5 + choose(60); fault("node-stall"); faulted = true; log("stall node %u", n); });
      if (cuts) ops.push_back([&] { cuts--; c.cut = true; cut_until = sim::g.sh->steps + 10 + choose(80); fault("partition"); log("partition"); });
      if (!ops.empty()) ops[choose(ops.size())]();
    };
    auto ops_left = [&] { return nmsg[0] + nmsg[1] + extra_ops + stalls + cuts; };

    uint32_t quiet = 0; uint32_t budget = 500 + choose(2500);
    while (budget--)
    {
      if (c.cut && sim::g.sh->steps >= cut_until) { c.cut = false; probe("ws:partition-healed"); log("heal"); w.wake(); }
      if (!w.chaos_step(ops_left(), do_op, opw))
      {
        sim::g.sh->steps++;
        w.wake();
        if (++quiet > 200) break;
        if (!c.cut && !ops_left() && quiet > 3) break;
      }
      else quiet = 0;
      check_prefix(A, B); check_prefix(B, A);
    }
    c.cut = false;
    // faults are over: apply what the script still asks for, then let everything run
    for (int r = 0; r < 3; r++)
    {
      if (!w.settle()) { sim::fail("P04", "no-rest", "endpoints do not come to rest once faults stop"); return; }
      for (int i = 0; i < 2; i++)
      {
        auto& a = *apps[i];
        if (a.ready && !a.started && !a.stopped) a.start();
        while (nmsg[i] && a.ready && !a.stopped && !a.released) { nmsg[i]--; a.send(fresh(a)); }
      }
      if (mode == 1 && extra_ops && !A.close_requested && !B.close_requested && A.ready && B.ready) { extra_ops = 0; apps[choose(2)]->close(); }
    }
    if (!w.settle()) { sim::fail("P04", "no-rest", "endpoints do not come to rest once faults stop"); return; }
    check_prefix(A, B); check_prefix(B, A);
    if (A.got.size() + B.got.size() >= 2 && sim::g.sh->n_choices > 20) sim::nontrivial();
    probe("ws:messages-delivered", A.got.size() + B.got.size());

    for (auto* a : apps)
    {
      auto n = a->name.c_str();
      if (a->ready > 1) sim::fail("P06", "ready-twice", "%s became ready %d times", n, a->ready);
      if (a->ends() > 1) sim::fail("P04", "two-ends", "%s was told of its end %d times (close %d, bad request %d, error %d)", n, a->ends(), a->closes, a->bads, a->errors);
      if (a->message_after_end) sim::fail("P04", "message-after-end", "%s was given a message after its end was reported", n);
      if (a->event_after_stop) sim::fail("P05", "event-after-stop", "%s was given an event after it was stopped", n);
    }
    check_wire(A, c.e[0].wire, text[0] ? 1 : 2, mode == 0); check_wire(B, c.e[1].wire, text[1] ? 1 : 2, mode == 0);
    if (!lost && mode != 3)
    {
      if (!A.ready || !B.ready) sim::fail("P06", "handshake-stuck", "handshake over a working connection: server ready=%d client ready=%d ends=%d/%d", A.ready, B.ready, A.ends(), B.ends());
      else if (A.token != token) sim::fail("P06", "token", "server was given the auth token '%s', the client has '%s'", A.token.c_str(), token.c_str());
      if (A.bads || B.bads || A.errors || B.errors)
        sim::fail("P04", "spurious-end", "a working connection between correct endpoints was reported as failed (server bad=%d err=%d, client bad=%d err=%d)", A.bads, A.errors, B.bads, B.errors);
      bool closing = A.close_requested || B.close_requested;
      for (int i = 0; i < 2; i++)
      {
        auto &s = *apps[i], &r = *apps[1 - i];
        if (!closing && r.got.size() != s.sent.size())
          sim::fail("P01", "not-delivered", "%s received %zu of %zu messages although the connection stayed up and nobody closed", r.name.c_str(), r.got.size(), s.sent.size());
        if (!closing && s.ends()) sim::fail("P04", "end-without-cause", "%s was told of its end although nobody closed", s.name.c_str());
        if (closing && s.closes != 1) sim::fail("P04", "close-not-reported", "%s was told of the close %d times (server asked %d, client asked %d)", s.name.c_str(), s.closes, A.close_requested, B.close_requested);
      }
    }
    if (lost)
      for (auto* a : apps)
        if (a->started && !a->stopped && !a->ends()) sim::fail("P04", "loss-not-reported", "%s was never told that its connection is lost", a->name.c_str());

    // teardown
    uint32_t how = sim::weighted({2, 2});
    log("teardown %u", how);
    if (how == 0) { for (auto* a : apps) { a->stop(); a->release(); } }
    else { w.k.reset(c, ECONNRESET, false); w.settle(); for (auto* a : apps) a->release(); }
    w.settle();
    for (auto* a : apps)
    {
      if (a->event_after_stop) sim::fail("P05", "event-after-stop", "%s was given an event after it was stopped", a->name.c_str());
      if (a->ends() > 1) sim::fail("P04", "two-ends", "%s was told of its end %d times", a->name.c_str(), a->ends());
    }
    if (how == 1) w.settle();
    for (auto* a : apps)
      if (!a->alive.expired()) sim::fail("P05", "endpoint-kept", "%s is still alive after its connection ended and it was released", a->name.c_str());
    if (w.k.open_socks() && A.alive.expired() && B.alive.expired()) sim::fail("P05", "socket-leak", "%zu sockets stay open after their endpoints are gone", w.k.open_socks());
  }
}
