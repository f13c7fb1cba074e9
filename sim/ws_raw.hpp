// One real endpoint talking to a scripted peer: conforming, hostile, or in the
// middle of a handshake.
#pragma once
#include "ws_common.hpp"
#include "ws_wire.hpp"

namespace ws
{
  inline std::string request_for(std::string const& key, std::string const& token)
  {
    return "GET / HTTP/1.1\r\nHost: sim\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + key
      + "\r\nSec-WebSocket-Version: 13\r\nCookies: nbdl_auth=" + token + ";\r\n\r\n";
  }
  inline const char* sample_key = "dGhlIHNhbXBsZSBub25jZQ==";

  struct raw_t
  {
    world_t& w; sim::end_t& e;
    std::string in;
    raw_t(world_t& w_, sim::end_t& e_) : w(w_), e(e_)
    {
      e.raw = true;
      w.background.push_back([this] { if (!e.rx.empty()) in += w.k.raw_read(e); });
    }
    void write(std::string const& s) { w.k.raw_write(e, s); w.wake(); }
    void fin() { e.wr_shut = true; e.fin_queued = true; log("peer fin"); w.wake(); }
    bool answered() const { return in.find("\r\n\r\n") != std::string::npos; }
  };

  struct script_t
  {
    std::vector<std::string> segs;       // what is written, one element at a time
    std::vector<std::string> msgs;       // messages fully contained
    std::vector<size_t> done_at;         // msgs[i] is complete once segs[0..done_at[i]] are written
    std::string bytes() const { std::string s; for (auto& x : segs) s += x; return s; }
  };

  inline size_t raw_len()
  {
    static const std::vector<size_t> edges = {125, 126, 127, 128, 255, 256, 257, 4095, 65535, 65536, 65537, 70000};
    return sim::weighted({3, 1}) ? sim::any_of(edges) : random_len();
  }

  // mask: 0 every frame, 1 none, 2 mixed
  inline script_t conforming(uint32_t nmsg, uint32_t mask, uint32_t& id)
  {
    script_t s;
    auto key = [&]() -> std::optional<uint32_t> {
      if (mask == 1 || (mask == 2 && flip(1, 2))) return {};
      switch (sim::weighted({1, 1, 6})) { case 0: return 0u; case 1: return 0xffffffffu; }
      uint32_t a = choose(65536), b = choose(65536); return a << 16 | b;
    };
    auto ctl = [&] {
      static const std::vector<size_t> ls = {0, 1, 4, 5, 31, 124, 125};
      unsigned op = flip(1, 2) ? 9 : 10; size_t n = sim::any_of(ls);
      probe(op == 9 ? "peer:ping" : "peer:pong"); if (n) probe("peer:control-payload");
      s.segs.push_back(encode(true, op, sim::pattern(id++, n), key()));
    };
    bool controls = flip(2, 3);
    for (uint32_t m = 0; m < nmsg; m++)
    {
      unsigned op = 1 + choose(2);
      size_t n = raw_len();
      std::string msg = sim::pattern(id++, n);
      uint32_t frags = sim::weighted({4, 3, 2, 1});      // extra fragments
      if (controls && flip(1, 4)) ctl();
      if (!frags) s.segs.push_back(encode(true, op, msg, key()));
      else
      {
        probe("peer:fragmented-message");
        size_t at = 0;
        for (uint32_t f = 0; f <= frags; f++)
        {
          size_t k = f == frags ? n - at : sim::weighted({1, 4}) ? choose(n - at + 1) : 0;
          if (f && controls && flip(1, 2)) { probe("peer:control-inside-message"); ctl(); }
          s.segs.push_back(encode(f == frags, f ? 0 : op, msg.substr(at, k), key()));
          at += k;
        }
      }
      s.msgs.push_back(msg); s.done_at.push_back(s.segs.size() - 1);
      log("peer message %u: %zu bytes #%016llx", m, n, (unsigned long long) sim::fnv(msg));
    }
    if (controls && flip(1, 4)) ctl();
    return s;
  }

  struct raw_world_t
  {
    world_t w; sim::conn_t* c; std::unique_ptr<raw_t> r; app_t A;
    bool server;            // the real endpoint is the server
    std::string token = "secret";
    std::string opcode_of() const { return server ? "binary" : "text"; }
    unsigned opcode() const { return server ? 2 : 1; }

    raw_world_t()
    {
      random_net(w.k.cfg);
      w.add_node();
      c = &w.k.make_conn();
      r = std::make_unique<raw_t>(w, c->e[1]);
      server = !flip(1, 2);
      A.name = server ? "S" : "C";
      A.release_policy = sim::weighted({3, 1});
    }
    void open()
    {
      tcp::socket s = w.adopt(*w.nodes[0], c->e[0].fd);
      if (server) open_server(A, std::move(s));
      else open_client_text(A, s, token);
    }
    template <typename Op>
    void chaos(Op&& op, std::function<uint32_t()> left, uint32_t weight)
    {
      uint32_t quiet = 0, budget = 300 + choose(1500);
      while (budget--)
      {
        if (!w.chaos_step(left(), op, weight)) { sim::g.sh->steps++; w.wake(); if (++quiet > 4) break; }
        else quiet = 0;
      }
    }
    void finish()
    {
      A.stop(); A.release();
      w.settle();
      if (!A.alive.expired()) { w.k.reset(*c, ECONNRESET, false); w.settle(); }
      if (A.event_after_stop) sim::fail("P05", "event-after-stop", "%s was given an event after it was stopped", A.name.c_str());
      if (!A.alive.expired()) sim::fail("P05", "endpoint-kept", "%s is still alive after its connection ended and it was released", A.name.c_str());
    }
  };

  // ------------------------------------------------- a conforming peer (P02)
  inline void peer()
  {
    sim::leaks_for("P05");
    raw_world_t x; auto& A = x.A; auto& w = x.w;
    uint32_t id = 1000;
    uint32_t mask = x.server ? sim::weighted({3, 1, 1}) : 1;
    script_t sc = conforming(1 + choose(6), mask, id);
    // 0 peer closes, 1 nothing, 2 end of stream, 3 end of stream inside a frame, 4 local close, 5 connection loss
    uint32_t ending = sim::weighted({4, 2, 2, 2, 3, 2});
    std::string close_payload;
    if (ending == 0)
    {
      static const std::vector<size_t> ls = {0, 2, 3, 60, 125};
      size_t n = sim::any_of(ls); close_payload = sim::pattern(id++, n);
      if (n) probe("peer:close-payload");
      std::optional<uint32_t> key; if (mask != 1) key = 0x01020304u + choose(1000);
      sc.segs.push_back(encode(true, 8, close_payload, key));
    }
    uint32_t cut_at = ending == 3 ? choose(sc.segs.size()) : sc.segs.size();
    if (ending == 5) cut_at = choose(sc.segs.size() + 1);
    if (ending == 4) cut_at = choose(sc.segs.size() + 1);
    log("peer server=%d mask=%u ending=%u segs=%zu msgs=%zu", x.server, mask, ending, sc.segs.size(), sc.msgs.size());

    uint32_t nout = choose(4), out_id = 1;
    auto fresh = [&] { size_t n = random_len(); return sim::pattern(out_id++, n); };
    bool early = x.server ? false : flip(1, 2);       // the response and the first frames in one go
    A.on_ready_hook = [&] { if (nout && flip(1, 3)) { nout--; A.send(fresh()); } if (!flip(1, 4)) A.start(); };
    A.on_message_hook = [&](std::string const&) { if (nout && !A.ends() && flip(1, 3)) { nout--; A.send(fresh()); } };
    x.open();
    if (x.server) { x.r->write(request_for(sample_key, x.token)); }
    size_t next = 0; bool responded = x.server, ended = false, local_closed = false, peer_closed = false;
    size_t written = 0;     // segments fully written
    auto write_next = [&] {
      if (next == cut_at)
      {
        if (ended) return;
        if (ending == 2) { fault("peer-end-of-stream"); x.r->fin(); }
        if (ending == 3) { auto& s = sc.segs[next]; size_t k = choose(s.size()); if (k) x.r->write(s.substr(0, k)); fault("peer-end-of-stream-inside-frame"); x.r->fin(); }
        if (ending == 5) { fault("connection-reset"); w.k.reset(*x.c, ECONNRESET, false); }
        if (ending == 4) { local_closed = true; log("local close"); A.close(); if (!A.started) probe("peer:close-before-start"); }
        ended = true; next = sc.segs.size(); return;
      }
      x.r->write(sc.segs[next++]); written = next;
      if (ending == 0 && next == sc.segs.size()) peer_closed = true;
    };
    auto can_write = [&] { return x.server ? x.r->answered() && A.ready : responded; };
    w.background.push_back([&] {
      if (!responded && x.r->answered())
      {
        responded = true;
        std::string resp = response_for(sample_key);
        if (early) { probe("peer:frames-with-the-response"); uint32_t k = 1 + choose(3); while (k-- && next < cut_at) { resp += sc.segs[next++]; written = next; } if (ending == 0 && next == sc.segs.size()) peer_closed = true; }
        x.r->write(resp);
      }
      // a conforming peer answers a close frame with one of its own
      if (x.r->answered() && !peer_closed && !x.c->e[1].wr_shut)
      {
        auto h = x.r->in.find("\r\n\r\n");
        for (auto& f : decode(x.r->in.substr(h + 4))) if (f.op == 8)
        { peer_closed = true; log("peer answers close"); std::optional<uint32_t> key; if (mask != 1) key = 77u; x.r->write(encode(true, 8, "", key)); if (flip(1, 2)) x.r->fin(); break; }
      }
    });
    auto ops_left = [&] { return (can_write() && !(next >= sc.segs.size() && (ended || cut_at == sc.segs.size() && ending < 2)) && !(peer_closed && ending != 0)) + (A.ready ? nout + !A.started : 0); };
    auto op = [&] {
      std::vector<std::function<void()>> ops;
      if (can_write() && (next < sc.segs.size() || (!ended && ending >= 2)) && !(peer_closed && ending != 0)) ops.push_back(write_next);
      if (A.ready && !A.started) ops.push_back([&] { A.start(); });
      if (A.ready && nout && !A.ends()) ops.push_back([&] { nout--; A.send(fresh()); });
      if (!ops.empty()) ops[choose(ops.size())]();
    };
    auto got_ok = [&] {
      for (size_t i = 0; i < A.got.size(); i++)
      {
        if (i >= sc.msgs.size() || sc.done_at[i] >= written) { sim::fail("P02", "message-from-nowhere", "%s received message %zu of %zu bytes which the peer has not (completely) sent", A.name.c_str(), i, A.got[i].size()); return false; }
        if (A.got[i] != sc.msgs[i])
        {
          sim::fail("P02", "message-differs", "%s: message %zu arrived as %zu bytes #%llx, the peer sent %zu bytes #%llx", A.name.c_str(), i
                  , A.got[i].size(), (unsigned long long) sim::fnv(A.got[i]), sc.msgs[i].size(), (unsigned long long) sim::fnv(sc.msgs[i]));
          return false;
        }
      }
      return true;
    };
    x.chaos([&] { op(); }, ops_left, 2 + choose(4));
    if (!w.settle()) { sim::fail("P02", "no-rest", "endpoint does not come to rest"); return; }
    if (A.ready && !A.started) A.start();
    w.settle();
    while (can_write() && (next < sc.segs.size() || (!ended && ending >= 2)) && !(peer_closed && ending != 0)) { write_next(); w.settle(); }
    while (nout && A.ready && !A.ends() && A.alive.lock()) { nout--; A.send(fresh()); }
    if (!w.settle()) { sim::fail("P02", "no-rest", "endpoint does not come to rest"); return; }
    got_ok();
    probe("peer:messages", A.got.size());
    if (A.got.size() >= 2) sim::nontrivial();

    size_t due = 0; while (due < sc.msgs.size() && sc.done_at[due] < written) due++;
    if (ending != 5)
    {
      if (!A.ready) sim::fail(x.server ? "P06" : "P07", "handshake-stuck", "handshake with a conforming peer: not ready");
      if (ending != 4 && A.got.size() != due) sim::fail("P02", "not-delivered", "%s received %zu of %zu messages of a conforming peer", A.name.c_str(), A.got.size(), due);
      if (A.bads) sim::fail("P02", "refused", "%s reported a bad request although the peer conforms", A.name.c_str());
      if (A.errors && ending != 2 && ending != 3 && !local_closed) sim::fail("P02", "spurious-error", "%s reported an error although the peer conforms and stays", A.name.c_str());
      if (ending == 0 && A.closes != 1) sim::fail("P04,P02", "close-not-reported", "%s was told of the peer's close %d times (errors %d)", A.name.c_str(), A.closes, A.errors);
      if (ending == 4 && A.closes != 1) sim::fail("P04", "close-not-reported", "%s closed and was told %d times (errors %d, peer closed %d)", A.name.c_str(), A.closes, A.errors, peer_closed);
      if (ending == 1 && A.ends()) sim::fail("P04", "end-without-cause", "%s was told of its end although nobody ended anything", A.name.c_str());
      if ((ending == 2 || ending == 3) && A.ends() != 1) sim::fail("P04", "loss-not-reported", "%s was told %d times that the stream ended", A.name.c_str(), A.ends());
    }
    else if (A.started && A.ends() != 1) sim::fail("P04", "loss-not-reported", "%s was told %d times that its connection is lost", A.name.c_str(), A.ends());
    if (A.ends() > 1) sim::fail("P04", "two-ends", "%s was told of its end %d times", A.name.c_str(), A.ends());
    if (A.message_after_end) sim::fail("P04", "message-after-end", "%s was given a message after its end was reported", A.name.c_str());
    check_wire(A, x.c->e[0].wire, x.opcode(), ending == 1);
    if (ending == 0)
    {
      auto h = x.r->in.find("\r\n\r\n"); int closes = 0;
      if (h != std::string::npos) for (auto& f : decode(x.r->in.substr(h + 4))) closes += f.op == 8;
      if (closes != 1) sim::fail("P04", "close-not-answered", "%s answered the peer's close with %d close frames", A.name.c_str(), closes);
    }
    x.finish();
  }

  // ------------------------------------------------- arbitrary bytes (P03)
  // A tolerant reading of the stream. `sure`: messages due before the first frame a
  // receiver may object to. From there on only safety is judged, except that a
  // reserved opcode, an oversize close frame or an impossible length has to be refused.
  struct verdict_t { std::vector<std::string> sure; bool questionable = false, must_refuse = false, closed = false, incomplete = false; };
  inline verdict_t judge(std::string const& s, uint64_t limit)
  {
    verdict_t v; size_t i = 0; bool in_msg = false; std::string acc;
    auto at = [&](size_t k) { return (unsigned char) s[k]; };
    while (true)
    {
      size_t p = i;
      if (s.size() - p < 2) { v.incomplete = true; return v; }
      bool fin = at(p) >> 7; unsigned rsv = (at(p) >> 4) & 7, op = at(p) & 15; bool masked = at(p + 1) >> 7;
      uint64_t code = at(p + 1) & 127, n = code; p += 2;
      size_t ext = code == 126 ? 2 : code == 127 ? 8 : 0;
      if (s.size() - p < ext) { v.incomplete = true; if (rsv || op > 10 || (op > 2 && op < 8)) v.questionable = true; return v; }
      if (ext) { n = 0; for (size_t k = 0; k < ext; k++) n = (n << 8) | at(p + k); p += ext; }
      bool ctl = op >= 8;
      bool reserved = (op > 2 && op < 8) || op > 10;
      bool q = rsv || reserved || (ctl && (!fin || n > 125)) || (ext == 2 && n < 126) || (ext == 8 && n < 65536) || n >> 63
             || (op == 0 && !in_msg) || ((op == 1 || op == 2) && in_msg) || acc.size() + n > limit;
      unsigned char key[4]{};
      bool have_key = true;
      if (masked) { if (s.size() - p < 4) have_key = false; else { for (int k = 0; k < 4; k++) key[k] = at(p + k); p += 4; } }
      if (q)
      {
        v.questionable = true;
        if (have_key && (reserved || (n > 125 && op == 8) || n >= 1ull << 62)) v.must_refuse = true;
        return v;
      }
      if (!have_key || s.size() - p < n) { v.incomplete = true; return v; }
      std::string pl = s.substr(p, n);
      if (masked) for (size_t k = 0; k < n; k++) pl[k] ^= key[k % 4];
      p += n; i = p;
      if (op == 8) { v.closed = true; return v; }
      if (ctl) continue;
      acc += pl; in_msg = true;
      if (fin) { v.sure.push_back(acc); acc.clear(); in_msg = false; }
    }
  }

  inline void hostile()
  {
    sim::leaks_for("P05");
    raw_world_t x; auto& A = x.A; auto& w = x.w;
    uint32_t id = 1;
    script_t sc = conforming(choose(4), sim::weighted({2, 2, 1}), id);
    std::vector<std::string> segs = sc.segs;
    const uint64_t limit = 1u << 24;
    auto odd_frame = [&]() -> std::string {
      static const std::vector<uint64_t> lens = {126, 127, 65535, 65536, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000005ull
        , 1ull << 40, (1ull << 62) + 1, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xfffffffffffffff0ull};
      std::optional<uint32_t> key; if (flip(1, 2)) key = choose(65536) * 65537u;
      switch (choose(9))
      {
        case 0: fault("reserved-opcode"); return encode(flip(1, 2), sim::any_of(std::vector<unsigned>{3, 4, 5, 6, 7, 11, 12, 13, 14, 15}), sim::pattern(id++, choose(130)), key);
        case 1: fault("false-length"); return encode(flip(3, 4), choose(3), sim::pattern(id++, choose(300)), key, 3, sim::any_of(lens));
        case 2: fault("false-control-length"); return encode(flip(3, 4), 8 + choose(3), sim::pattern(id++, choose(300)), key, flip(1, 2) ? 3 : 2, sim::any_of(lens));
        case 3: fault("fragmented-control"); return encode(false, 8 + choose(3), sim::pattern(id++, choose(126)), key);
        case 4: fault("reserved-bits"); return encode(flip(3, 4), choose(3), sim::pattern(id++, choose(200)), key, 0, ~0ull, 1 + choose(7));
        case 5: fault("stray-continuation"); return encode(flip(3, 4), 0, sim::pattern(id++, choose(200)), key);
        case 6: fault("padded-length"); return encode(flip(3, 4), 1 + choose(2), sim::pattern(id++, choose(100)), key, 2 + choose(2));
        case 7: fault("oversize-control"); return encode(true, 8 + choose(3), sim::pattern(id++, 126 + choose(200)), key);
        default: { fault("garbage"); size_t n = 1 + choose(40); std::string s; for (size_t i = 0; i < n; i++) s += (char) choose(256); return s; }
      }
    };
    uint32_t k = 1 + choose(3);
    while (k--)
    {
      switch (sim::weighted({5, 2, 1, 1, 1}))
      {
        case 0: segs.insert(segs.begin() + choose(segs.size() + 1), odd_frame()); break;
        case 1: if (!segs.empty()) { auto& s = segs[choose(segs.size())]; if (!s.empty()) { fault("corrupted-byte"); size_t at = flip(1, 2) ? choose(std::min<size_t>(s.size(), 4)) : choose(s.size()); s[at] ^= 1u << choose(8); } } break;
        case 2: if (!segs.empty()) { auto& s = segs[choose(segs.size())]; if (s.size() > 1) { fault("deleted-bytes"); size_t at = choose(s.size()); s.erase(at, 1 + choose(4)); } } break;
        case 3: if (!segs.empty()) { fault("duplicated-frame"); size_t i = choose(segs.size()); auto d = segs[i]; segs.insert(segs.begin() + i, d); } break;
        case 4: if (segs.size() > 1) { fault("swapped-frames"); size_t i = choose(segs.size() - 1); std::swap(segs[i], segs[i + 1]); } break;
      }
    }
    std::string stream; for (auto& s : segs) stream += s;
    verdict_t v = judge(stream, limit);
    // how the peer goes away
    uint32_t bye = sim::weighted({2, 2, 1});         // end of stream, reset, stays
    uint32_t nout = choose(3), out_id = 1;
    auto fresh = [&] { size_t n = random_len(); return sim::pattern(out_id++, n); };
    A.on_ready_hook = [&] { A.start(); };
    A.on_message_hook = [&](std::string const&) { if (nout && !A.ends() && flip(1, 3)) { nout--; A.send(fresh()); } };
    x.open();
    if (x.server) x.r->write(request_for(sample_key, x.token));
    bool responded = x.server, gone = false; size_t next = 0;
    w.background.push_back([&] { if (!responded && x.r->answered()) { responded = true; x.r->write(response_for(sample_key)); } });
    auto can = [&] { return A.ready && (next < segs.size() || (!gone && bye < 2)); };
    sim::alloc_limit = limit;
    auto op = [&] {
      if (can() && !flip(1, 4))
      {
        if (next < segs.size()) { x.r->write(segs[next++]); return; }
        gone = true;
        if (bye == 0) { fault("peer-end-of-stream"); x.r->fin(); } else { fault("connection-reset"); w.k.reset(*x.c, ECONNRESET, flip(1, 2)); }
      }
      else if (A.ready && nout && !A.ends()) { nout--; A.send(fresh()); }
    };
    x.chaos(op, [&]() -> uint32_t { return can() + (A.ready && nout && !A.ends()); }, 3);
    w.settle();
    while (next < segs.size()) { x.r->write(segs[next++]); }
    if (!w.settle()) { sim::fail("P03", "no-rest", "endpoint does not come to rest on peer input"); return; }
    bool reset_early = gone && bye == 1;
    if (bye == 0 && !gone) { gone = true; x.r->fin(); w.settle(); }
    if (v.must_refuse && !reset_early)
    {
      probe("hostile:must-refuse");
      if (A.bads != 1 && !A.closes && !A.errors) sim::fail("P03", "not-refused", "%s accepted a frame that must be refused (bad requests %d, closes %d, errors %d)", A.name.c_str(), A.bads, A.closes, A.errors);
      if (A.bads == 0 && A.closes == 0) sim::fail("P03", "not-refused", "%s reported an error instead of a bad request for a frame that must be refused", A.name.c_str());
    }
    if (A.ends() > 1) sim::fail("P03,P04", "two-ends", "%s was told of its end %d times", A.name.c_str(), A.ends());
    if (A.message_after_end) sim::fail("P03,P04", "message-after-end", "%s was given a message after its end was reported", A.name.c_str());
    if (!v.questionable)
    {
      if (A.bads) sim::fail("P03,P02", "refused", "%s reported a bad request although every frame it was sent is acceptable", A.name.c_str());
      if (A.got.size() > v.sure.size()) sim::fail("P03,P02", "message-from-nowhere", "%s received %zu messages, %zu were sent", A.name.c_str(), A.got.size(), v.sure.size());
    }
    for (size_t i = 0; i < v.sure.size(); i++)
    {
      if (i >= A.got.size()) { if (!reset_early) sim::fail("P03,P02", "not-delivered", "%s lost message %zu, which came before anything objectionable", A.name.c_str(), i); break; }
      if (A.got[i] != v.sure[i]) { sim::fail("P03,P02", "message-differs", "%s: message %zu differs from what was sent", A.name.c_str(), i); break; }
    }
    if (gone && A.started && A.ends() != 1) sim::fail("P03,P04", "loss-not-reported", "%s was told %d times of the end of its connection", A.name.c_str(), A.ends());
    if (A.ends()) sim::nontrivial();
    if (A.bads) probe("hostile:refused");
    check_wire(A, x.c->e[0].wire, x.opcode(), false);
    x.finish();
    sim::alloc_limit = 0;
  }

  // ------------------------------------------------- server handshake (P06)
  inline std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }

  struct head_t { std::string first; std::vector<std::pair<std::string, std::string>> fields; bool ok = false; size_t size = 0; };
  inline head_t parse_head(std::string const& s)
  {
    head_t h; auto e = s.find("\r\n\r\n"); if (e == std::string::npos) return h;
    h.size = e + 4; h.ok = true; size_t i = 0; bool first = true;
    while (i < e + 2)
    {
      auto n = s.find("\r\n", i); std::string line = s.substr(i, n - i); i = n + 2;
      if (first) { h.first = line; first = false; continue; }
      if (line.empty()) break;
      auto c = line.find(':'); if (c == std::string::npos) { h.ok = false; continue; }
      auto v = line.substr(c + 1); size_t b = v.find_first_not_of(" \t"); v = b == std::string::npos ? "" : v.substr(b);
      h.fields.emplace_back(lower(line.substr(0, c)), v);
    }
    return h;
  }
  inline std::string field(head_t const& h, std::string const& n, int* count = nullptr)
  {
    std::string r; int k = 0; for (auto& f : h.fields) if (f.first == n) { if (!k) r = f.second; k++; }
    if (count) *count = k;
    return r;
  }
  inline std::string any_case(std::string s)
  {
    switch (choose(4)) { case 1: return lower(s); case 2: for (auto& c : s) c = toupper(c); return s;
      case 3: for (auto& c : s) if (flip(1, 2)) c = isupper(c) ? tolower(c) : toupper(c); return s; }
    return s;
  }
  inline std::string printable(size_t n)
  {
    static const char cs[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_.~!*'()";
    std::string s; for (size_t i = 0; i < n; i++) s += cs[choose(sizeof cs - 1)]; return s;
  }

  inline void hs_server()
  {
    sim::leaks_for("P05");
    raw_world_t x; x.server = true; x.A.name = "S"; auto& A = x.A; auto& w = x.w;
    std::string key; { std::string raw; for (int i = 0; i < 16; i++) raw += (char) choose(256); key = b64(raw); }
    std::string token = printable(choose(40));
    bool has_cookie = !flip(1, 5), has_token = has_cookie && !flip(1, 5);
    std::string expect = has_token ? token : "";
    std::vector<std::string> lines;
    auto name = [&](const char* n) { return any_case(n) + ":" + std::string(sim::weighted({1, 5, 1}), ' '); };
    lines.push_back(name("Host") + "sim:8080");
    lines.push_back(name("Upgrade") + "websocket");
    lines.push_back(name("Connection") + "Upgrade");
    lines.push_back(name("Sec-WebSocket-Version") + "13");
    lines.push_back(name("Sec-WebSocket-Key") + key);
    if (has_cookie)
    {
      std::vector<std::string> cs; uint32_t n = choose(4);
      auto other = [&]() -> std::string {
        switch (choose(5)) { case 0: return "nbdl_authx=" + printable(4); case 1: return "xnbdl_auth=" + printable(4); case 2: return "a=nbdl_auth=" + printable(3);
          case 3: return "nbdl_aut=" + printable(2); default: return "c" + std::to_string(choose(100)) + "=" + printable(choose(12)); } };
      for (uint32_t i = 0; i < n; i++) cs.push_back(other());
      if (has_token) cs.insert(cs.begin() + choose(cs.size() + 1), "nbdl_auth=" + token);
      else if (cs.empty()) cs.push_back("z=1");
      std::string v; for (size_t i = 0; i < cs.size(); i++) v += (i ? "; " : "") + cs[i];
      if (flip(1, 2)) v += ";";
      lines.push_back(name("Cookies") + v);
    }
    uint32_t extra = choose(5);
    for (uint32_t i = 0; i < extra; i++)
    {
      static const std::vector<std::string> ns = {"User-Agent", "Sec-WebSocket-Protocol", "Sec-WebSocket-Extensions", "Origin", "X-Cookies", "Sec-WebSocket-Key1", "Cookies2", "Accept"};
      auto l = name(sim::any_of(ns).c_str()) + printable(flip(1, 4) ? 180 + choose(40) : choose(60));
      lines.push_back(l);
    }
    for (size_t i = lines.size(); i > 1; i--) std::swap(lines[i - 1], lines[choose(i)]);
    // what is wrong with it
    // 0 nothing 1 request line 2 line without colon 3 line too long 4 ends early 5 reset 6 garbage
    uint32_t wrong = sim::weighted({8, 3, 1, 2, 3, 1, 1});
    std::string first = "GET / HTTP/1.1";
    if (wrong == 1)
    {
      fault("bad-request-line");
      static const std::vector<std::string> fs = {"PUT / HTTP/1.1", "GET /x HTTP/1", "GET / HTTP/1.0", "GET / HTTP/2.1", "get / HTTP/1.1", "GET  /HTTP/1.1", "GET / http/1.1", "XET / HTTP/1.1"};
      first = sim::any_of(fs);
      while (first.size() < 14) first += " ";
    }
    if (wrong == 2)
    {
      static const std::vector<std::string> bad = {"sec-websocket-key", "Cookies", "Sec-WebSocket-Key", "nonsense", "GET / HTTP/1.1", " ", "\r"};
      fault("header-without-colon"); lines.insert(lines.begin() + choose(lines.size() + 1), sim::any_of(bad));
    }
    if (wrong == 3) { fault("oversize-header"); lines.insert(lines.begin() + choose(lines.size() + 1), "X-Long: " + printable(2) + std::string(256 + choose(600), 'x')); }
    std::string req = first + "\r\n"; for (auto& l : lines) req += l + "\r\n"; req += "\r\n";
    if (wrong == 6) { fault("garbage"); uint32_t n = 16 + choose(60); req.clear(); for (uint32_t i = 0; i < n; i++) req += (char) choose(256); }
    if (wrong == 4) { fault("peer-end-of-stream-inside-handshake"); req.resize(choose(req.size())); }
    log("handshake wrong=%u token=%s key=%s", wrong, expect.c_str(), key.c_str());
    uint32_t id = 1; script_t sc = conforming(choose(3), 0, id);
    A.on_ready_hook = [&] { A.start(); };
    x.open();
    size_t at = 0, next = 0; bool gone = false; uint32_t resets = wrong == 5;
    auto can_frame = [&] { return A.ready && x.r->answered() && next < sc.segs.size(); };
    bool whole = flip(1, 3);
    auto op = [&] {
      if (resets && flip(1, 4)) { resets = 0; fault("connection-reset"); w.k.reset(*x.c, ECONNRESET, false); return; }
      if (at < req.size()) { size_t k = whole ? req.size() : 1 + choose(80); x.r->write(req.substr(at, k)); at += k; }
      else if (wrong == 4 && !gone) { gone = true; x.r->fin(); }
      else if (can_frame()) x.r->write(sc.segs[next++]);
    };
    auto left = [&]() -> uint32_t { return (at < req.size()) + (wrong == 4 && !gone) + can_frame() + resets; };
    x.chaos(op, left, 3);
    w.settle();
    while (at < req.size() || can_frame() || (wrong == 4 && !gone))
    {
      if (at < req.size()) { x.r->write(req.substr(at)); at = req.size(); }
      else if (wrong == 4 && !gone) { gone = true; x.r->fin(); }
      else x.r->write(sc.segs[next++]);
      if (!w.settle()) { sim::fail("P06", "no-rest", "handshake does not come to rest"); return; }
    }
    w.settle();
    if (wrong == 6) { x.r->fin(); w.settle(); }
    std::string& wire = x.c->e[0].wire;
    head_t h = parse_head(wire);
    if (A.ready > 1) sim::fail("P06", "ready-twice", "server became ready %d times", A.ready);
    if (A.ends() > 1) sim::fail("P06,P04", "two-ends", "server was told of its end %d times", A.ends());
    if (A.ready && !(wrong == 0 || wrong == 2 || wrong == 5)) sim::fail("P06", "ready-on-bad-request", "server became ready on a request that must be refused (kind %u)", wrong);
    if (A.ready && (!h.ok)) sim::fail("P06", "no-response", "server is ready but has not sent a response");
    if (h.ok && wrong != 0 && wrong != 2 && wrong != 5 && h.first.find(" 101 ") != std::string::npos) sim::fail("P06", "switched-on-bad-request", "server switched protocols on a request that must be refused (kind %u)", wrong);
    if (h.ok && (wrong == 0 || wrong == 5))
    {
      int n = 0;
      if (h.first.substr(0, 12) != "HTTP/1.1 101") sim::fail("P06", "response-status", "server answered '%s'", h.first.c_str());
      auto acc = field(h, "sec-websocket-accept", &n);
      if (n != 1 || acc != accept_of(key)) sim::fail("P06", "accept-token", "server answered key %s with accept token '%s' (%d times), due is '%s'", key.c_str(), acc.c_str(), n, accept_of(key).c_str());
      if (lower(field(h, "upgrade")) != "websocket" || lower(field(h, "connection")).find("upgrade") == std::string::npos) sim::fail("P06", "response-fields", "response lacks Upgrade or Connection");
    }
    if (wrong == 0)
    {
      sim::nontrivial();
      if (A.ready != 1 || A.ends()) sim::fail("P06", "valid-refused", "a valid handshake request did not make the server ready (ready %d, bad %d, errors %d)", A.ready, A.bads, A.errors);
      if (A.token != expect) sim::fail("P06", "token", "server was given the auth token '%s', the request has '%s'", A.token.c_str(), expect.c_str());
      if (A.got != sc.msgs) sim::fail("P06,P02", "frames-after-handshake", "server received %zu of the %zu messages that followed the handshake", A.got.size(), sc.msgs.size());
    }
    if (wrong == 1) { sim::nontrivial(); if (A.bads != 1) sim::fail("P06", "bad-request-not-reported", "server reported %d bad requests, %d errors for the request line '%s'", A.bads, A.errors, first.c_str()); }
    if (wrong == 3 || wrong == 4 || wrong == 6) { sim::nontrivial(); if (A.ends() != 1) sim::fail("P06", "failure-not-reported", "server was told %d times that the handshake failed (kind %u)", A.ends(), wrong); }
    if (wrong == 5 && !A.ends()) sim::fail("P06", "failure-not-reported", "server was not told that the connection is lost");
    x.finish();
  }

  // ------------------------------------------------- client handshake (P07)
  inline void hs_client()
  {
    sim::leaks_for("P05");
    raw_world_t x; x.server = false; x.A.name = "C"; auto& A = x.A; auto& w = x.w;
    x.token = printable(choose(60));
    // 0 accepting response 1 another status 2 wrong accept token 3 corrupted 4 ends early 5 reset 6 garbage
    uint32_t wrong = sim::weighted({8, 2, 2, 3, 3, 1, 1});
    uint32_t id = 1; script_t sc = conforming(choose(4), 1, id);
    std::string resp; size_t at = 0, next = 0, head = 1; bool was_early = false;
    A.on_ready_hook = [&] { was_early = at < head; if (flip(2, 3)) A.start(); };
    x.open();
    bool decided = false, gone = false; uint32_t resets = wrong == 5;
    bool coalesce = flip(1, 2);
    head_t req;
    auto decide = [&] {
      decided = true;
      req = parse_head(x.r->in);
      std::string key = field(req, "sec-websocket-key");
      resp = response_for(key);
      if (wrong == 1) { fault("refusing-response"); static const std::vector<std::string> fs = {"HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n", "HTTP/1.1 200 OK\r\n", "HTTP/1.1 403 Forbidden\r\n", "HTTP/1.1 301 Moved Permanently\r\nLocation: /elsewhere\r\n"};
        resp = sim::any_of(fs); while (resp.size() < 200) resp += "X-Pad: " + printable(20) + "\r\n"; resp += "\r\n"; }
      if (wrong == 2) { fault("wrong-accept-token"); auto t = accept_of(key); auto p = resp.find(t); size_t i = choose(27); resp[p + i] = resp[p + i] == 'A' ? 'B' : 'A'; }
      if (wrong == 3) { fault("corrupted-response"); static const std::vector<size_t> spots = {9, 10, 11}; if (flip(1, 2)) resp[sim::any_of(spots)] ^= 1; else { size_t i = choose(resp.size()); resp[i] = resp[i] == '#' ? '%' : '#'; } }
      if (wrong == 4) { fault("peer-end-of-stream-inside-handshake"); resp.resize(choose(resp.size())); }
      if (wrong == 6) { fault("garbage"); uint32_t n = choose(300); resp.clear(); for (uint32_t i = 0; i < n; i++) resp += (char) choose(256); }
      log("response wrong=%u %zu bytes", wrong, resp.size());
      head = resp.size();
      if (wrong == 0 && coalesce) { probe("hs:frames-with-the-response"); while (next < sc.segs.size()) resp += sc.segs[next++]; }
    };
    auto can_resp = [&] { return x.r->answered() && (!decided || at < resp.size()); };
    auto can_frame = [&] { return wrong == 0 && decided && at >= resp.size() && next < sc.segs.size(); };
    auto can_fin = [&] { return (wrong == 4 || wrong == 6) && decided && at >= resp.size() && !gone; };
    bool whole = flip(1, 2);
    auto op = [&] {
      if (resets && flip(1, 4)) { resets = 0; fault("connection-reset"); w.k.reset(*x.c, ECONNRESET, flip(1, 2)); return; }
      if (can_resp()) { if (!decided) decide(); size_t k = whole ? resp.size() : 1 + choose(60); if (at < resp.size()) x.r->write(resp.substr(at, k)); at += k; }
      else if (can_fin()) { gone = true; x.r->fin(); }
      else if (can_frame()) x.r->write(sc.segs[next++]);
      else if (A.ready && !A.started) A.start();
    };
    x.chaos(op, [&]() -> uint32_t { return can_resp() + can_frame() + can_fin() + resets + (A.ready && !A.started); }, 3);
    w.settle();
    while (can_resp() || can_frame() || can_fin()) { auto f = resets; resets = 0; op(); resets = f; if (!w.settle()) { sim::fail("P07", "no-rest", "handshake does not come to rest"); return; } }
    if (A.ready && !A.started) A.start();
    w.settle();
    if (wrong != 5)
    {
      if (!decided) { sim::fail("P07", "no-request", "client did not send a complete handshake request"); x.finish(); return; }
      int n = 0; std::string key = field(req, "sec-websocket-key", &n);
      if (req.first != "GET / HTTP/1.1") sim::fail("P07", "request-line", "client sent the request line '%s'", req.first.c_str());
      bool kok = key.size() == 24 && key.substr(22) == "=="; for (size_t i = 0; i < 22 && kok; i++) kok = isalnum((unsigned char) key[i]) || key[i] == '+' || key[i] == '/';
      if (n != 1 || !kok) sim::fail("P07", "request-key", "client sent the key '%s' (%d times)", key.c_str(), n);
      if (lower(field(req, "upgrade")) != "websocket" || lower(field(req, "connection")).find("upgrade") == std::string::npos || field(req, "sec-websocket-version") != "13" || field(req, "host").empty())
        sim::fail("P07", "request-fields", "client's handshake request lacks a required field");
      std::string ck = field(req, "cookies", &n); if (!n) ck = field(req, "cookie", &n);
      std::string due = "nbdl_auth=" + x.token;
      if (n != 1 || ck.substr(0, due.size()) != due || (ck.size() > due.size() && ck[due.size()] != ';')) sim::fail("P07", "request-token", "client's auth token is '%s', it sent '%s'", x.token.c_str(), ck.c_str());
      if (field(req, "origin") != "http://sim") sim::fail("P07", "request-origin", "client sent the origin '%s'", field(req, "origin").c_str());
    }
    if (was_early) sim::fail("P07", "ready-early", "client became ready before the whole response arrived");
    if (A.ready > 1) sim::fail("P07", "ready-twice", "client became ready %d times", A.ready);
    if (A.ends() > 1) sim::fail("P07,P04", "two-ends", "client was told of its end %d times", A.ends());
    if (wrong == 0)
    {
      sim::nontrivial();
      if (A.ready != 1 || A.ends()) sim::fail("P07", "accepted-not-ready", "client did not become ready on an accepting response (ready %d, bad %d, errors %d)", A.ready, A.bads, A.errors);
      if (A.got != sc.msgs) sim::fail("P07,P02", "frames-after-handshake", "client received %zu of the %zu messages that followed the response", A.got.size(), sc.msgs.size());
    }
    else if (wrong != 5)
    {
      sim::nontrivial();
      if (A.ready) sim::fail("P07", "ready-on-refusal", "client became ready on a response that does not accept it (kind %u)", wrong);
      if (A.ends() != 1) sim::fail("P07", "failure-not-reported", "client was told %d times that its handshake failed (kind %u)", A.ends(), wrong);
      if ((wrong == 1 || wrong == 2 || wrong == 3) && A.bads != 1) sim::fail("P07", "bad-request-not-reported", "client reported %d bad requests, %d errors for a refusing response", A.bads, A.errors);
    }
    else if (!resets && A.ends() != 1 && !(A.ready && !A.started)) sim::fail("P07", "failure-not-reported", "client was not told that the connection is lost");
    x.finish();
  }
}
