// Shared pieces of the WebSocket simulations: nodes, applications driving real
// nbdl endpoints, and independent reference codecs.
#pragma once
#include "core.hpp"
#include "kernel.hpp"

#include <boost/asio.hpp>
#include <optional>
#include <queue>

namespace ws
{
  namespace asio = boost::asio;
  using asio::ip::tcp;
  using sim::choose; using sim::flip; using sim::log; using sim::fault; using sim::probe;

  struct node_t
  {
    asio::io_context io{1};
    asio::executor_work_guard<asio::io_context::executor_type> work{io.get_executor()};
    bool idle = false;
    uint32_t stalled = 0;
    size_t poll()
    {
      if (io.stopped()) io.restart();
      return io.poll_one();
    }
  };

  struct world_t
  {
    sim::kernel_t k;
    std::vector<std::unique_ptr<node_t>> nodes;
    std::vector<std::function<void()>> background;     // scripted peers, run at every chance

    node_t& add_node() { nodes.push_back(std::make_unique<node_t>()); return *nodes.back(); }
    tcp::socket adopt(node_t& n, int fd)
    {
      tcp::socket s(n.io);
      s.assign(tcp::v4(), fd);
      return s;
    }
    void wake() { for (auto& n : nodes) n->idle = false; }
    void run_node(size_t i)
    {
      sim::advance(10);
      auto r = nodes[i]->poll();
      if (r) { wake(); }
      else nodes[i]->idle = !k.any_ready();
    }
    std::vector<sim::end_t*> links()
    {
      std::vector<sim::end_t*> l;
      for (auto& c : k.conns) for (auto& e : c->e) if (k.can_deliver(e)) l.push_back(&e);
      return l;
    }
    // everything that can still happen happens, fairly and without new faults
    bool settle(uint64_t limit = 400000)
    {
      bool f = k.cfg.faults; k.cfg.faults = false;
      // buffers are roomy once the faults stop, so that rest is a bounded number of steps away
      k.cfg.sndcap = std::max<size_t>(k.cfg.sndcap, 8192); k.cfg.rcvcap = std::max<size_t>(k.cfg.rcvcap, 8192);
      wake();
      for (auto& n : nodes) n->stalled = 0;
      uint64_t used = 0;
      while (true)
      {
        bool progress = false;
        for (size_t i = 0; i < nodes.size(); i++)
        {
          size_t c = 0;
          while (true)
          {
            sim::step();
            auto r = nodes[i]->poll(); sim::advance(10);
            if (!r && !k.any_ready()) break;
            if (!r && ++c > 4) break;
            if (r) { progress = true; c = 0; }
            if (++used > limit) { k.cfg.faults = f; return false; }
          }
        }
        for (auto e : links()) { k.deliver(*e, true); progress = true; sim::advance(100); sim::step(); }
        for (auto& b : background) b();
        if (!links().empty()) progress = true;
        if (!progress) break;
        if (++used > limit) { k.cfg.faults = f; return false; }
      }
      k.cfg.faults = f;
      return true;
    }
    // one step chosen by the scheduler; `ops` are the application steps left
    // returns false when nothing is enabled
    template <typename OpFn>
    bool chaos_step(size_t ops_left, OpFn&& do_op, uint32_t op_weight)
    {
      std::vector<uint32_t> w; std::vector<std::function<void()>> a;
      for (size_t i = 0; i < nodes.size(); i++)
      {
        if (nodes[i]->stalled) { nodes[i]->stalled--; continue; }
        if (nodes[i]->idle) continue;
        w.push_back(4); a.push_back([this, i] { run_node(i); });
      }
      for (auto e : links()) { w.push_back(3); a.push_back([this, e] { k.deliver(*e, false); sim::advance(100); wake(); }); }
      if (ops_left) { w.push_back(op_weight); a.push_back([&] { do_op(); sim::advance(50); wake(); }); }
      for (auto& b : background) b();
      if (a.empty()) return false;
      sim::step();
      a[a.size() == 1 ? 0 : sim::weighted(w)]();
      return true;
    }
  };

  inline void random_net(sim::net_cfg& c, bool small_buffers = true)
  {
    using sim::weighted;
    static const uint32_t lv[] = {0, 2, 8, 15};
    c.short_read = lv[weighted({4, 2, 2, 2})];
    c.short_write = lv[weighted({4, 2, 2, 2})];
    c.eagain = lv[weighted({6, 2, 2, 0})];
    c.eintr = lv[weighted({6, 3, 1, 0})];
    c.skip_ready = lv[weighted({4, 2, 2, 1})];
    c.shuffle = choose(2);
    c.chunk = weighted({3, 4, 2});
    static const size_t caps[] = {1 << 20, 4096, 300, 128, 17, 1};
    if (small_buffers)
    {
      c.sndcap = caps[weighted({4, 2, 3, 2, 2, 1})];
      c.rcvcap = caps[weighted({6, 2, 2, 2, 1, 1})];
    }
  }

  struct app_t
  {
    std::string name;
    const char* role = "";
    std::shared_ptr<void> hold;
    std::weak_ptr<void> alive;
    std::function<void(std::string const&)> do_send;
    std::function<void()> do_close, do_start;
    std::function<bool()> do_stop;
    std::function<void()> on_ready_hook, on_terminal_hook;
    std::function<void(std::string const&)> on_message_hook;
    std::vector<std::string> sent;      // in the order handed over
    std::vector<std::string> got;
    size_t sent_before_close = 0;
    int ready = 0, closes = 0, bads = 0, errors = 0;
    int terminal_after_stop = 0;
    bool started = false, stopped = false, close_requested = false, released = false, opened = false;
    bool message_after_end = false, event_after_stop = false;
    bool keep_received = true;
    std::string token;
    app_t* peer = nullptr;
    uint32_t release_policy = 0;        // 0: at the first terminal event, in the handler; 1: later
    int ends() const { return closes + bads + errors; }

    void send(std::string const& m)
    {
      if (auto p = alive.lock()) { sent.push_back(m); do_send(m); }
    }
    void close()
    {
      if (auto p = alive.lock()) { if (!close_requested) { close_requested = true; sent_before_close = sent.size(); } do_close(); }
    }
    void start() { if (auto p = alive.lock()) { if (!stopped) started = true; do_start(); } }
    void stop() { if (auto p = alive.lock()) { stopped = true; do_stop(); } }
    void release() { released = true; hold.reset(); }

    void on_end(const char* what)
    {
      log("%s: %s", name.c_str(), what);
      if (stopped && started) event_after_stop = true;
      if (on_terminal_hook) on_terminal_hook();
      if (ends() == 1 && release_policy == 0) release();
    }
    void on_msg(std::string const& m)
    {
      log("%s: message %zu #%016llx", name.c_str(), m.size(), (unsigned long long) sim::fnv(m));
      if (ends()) message_after_end = true;
      if (stopped) event_after_stop = true;
      got.push_back(m);
      if (on_message_hook) on_message_hook(got.back());
    }
  };

  // defined in ws_open.cpp, one translation unit each
  void open_server(app_t& a, tcp::socket s);
  void open_server_text(app_t& a, tcp::socket s);
  void open_client(app_t& a, tcp::socket& s, std::string const& token);
  void open_client_text(app_t& a, tcp::socket& s, std::string const& token);

  // ------------------------------------------------------------ references
  struct frame_t { bool fin; unsigned op; bool masked; std::string payload; size_t lenform; unsigned rsv; };

  inline std::string encode(bool fin, unsigned op, std::string payload, std::optional<uint32_t> mask = {}, int lenform = 0, uint64_t fake_len = ~0ull, unsigned rsv = 0)
  {
    std::string f;
    f += (char) ((fin ? 0x80 : 0) | (rsv << 4) | op);
    uint64_t n = fake_len != ~0ull ? fake_len : payload.size();
    int form = lenform ? lenform : n < 126 ? 1 : n < 65536 ? 2 : 3;
    unsigned mb = mask ? 0x80 : 0;
    if (form == 1) f += (char) (mb | (unsigned) n);
    else if (form == 2) { f += (char) (mb | 126); for (int i = 1; i >= 0; i--) f += (char) (n >> (8 * i)); }
    else { f += (char) (mb | 127); for (int i = 7; i >= 0; i--) f += (char) (n >> (8 * i)); }
    if (mask)
    {
      unsigned char key[4]; for (int i = 0; i < 4; i++) { key[i] = *mask >> (8 * i); f += (char) key[i]; }
      for (size_t i = 0; i < payload.size(); i++) payload[i] ^= key[i % 4];
    }
    return f + payload;
  }

  // Reads as many complete frames as there are; `rest` gets the unread tail.
  inline std::vector<frame_t> decode(std::string const& s, std::string* rest = nullptr)
  {
    std::vector<frame_t> v; size_t i = 0;
    auto at = [&](size_t k) { return (unsigned char) s[k]; };
    while (true)
    {
      size_t p = i;
      if (s.size() - p < 2) break;
      frame_t f; f.fin = at(p) >> 7; f.rsv = (at(p) >> 4) & 7; f.op = at(p) & 15; f.masked = at(p + 1) >> 7;
      uint64_t n = at(p + 1) & 127; p += 2; f.lenform = 1;
      size_t ext = n == 126 ? 2 : n == 127 ? 8 : 0;
      if (s.size() - p < ext) break;
      if (ext) { n = 0; for (size_t k = 0; k < ext; k++) n = (n << 8) | at(p + k); p += ext; f.lenform = ext == 2 ? 2 : 3; }
      unsigned char key[4]{};
      if (f.masked) { if (s.size() - p < 4) break; for (int k = 0; k < 4; k++) key[k] = at(p + k); p += 4; }
      if (s.size() - p < n) break;
      f.payload = s.substr(p, n);
      if (f.masked) for (size_t k = 0; k < n; k++) f.payload[k] ^= key[k % 4];
      p += n; i = p;
      v.push_back(f);
    }
    if (rest) *rest = s.substr(i);
    return v;
  }

  // SHA-1 and base64 written from RFC 3174 and RFC 4648
  inline std::string sha1(std::string m)
  {
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    uint64_t bits = (uint64_t) m.size() * 8;
    m += (char) 0x80; while (m.size() % 64 != 56) m += (char) 0;
    for (int i = 7; i >= 0; i--) m += (char) (bits >> (8 * i));
    auto rol = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
    for (size_t o = 0; o < m.size(); o += 64)
    {
      uint32_t w[80];
      for (int i = 0; i < 16; i++) w[i] = (uint32_t) (unsigned char) m[o + 4 * i] << 24 | (uint32_t) (unsigned char) m[o + 4 * i + 1] << 16 | (uint32_t) (unsigned char) m[o + 4 * i + 2] << 8 | (unsigned char) m[o + 4 * i + 3];
      for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
      uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
      for (int i = 0; i < 80; i++)
      {
        uint32_t f, k;
        if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; }
        else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; } else { f = b ^ c ^ d; k = 0xCA62C1D6; }
        uint32_t t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t;
      }
      h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    std::string r; for (auto x : h) for (int i = 3; i >= 0; i--) r += (char) (x >> (8 * i));
    return r;
  }
  inline std::string b64(std::string const& s)
  {
    static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r; size_t i = 0;
    for (; i + 2 < s.size(); i += 3)
    { uint32_t x = (unsigned char) s[i] << 16 | (unsigned char) s[i + 1] << 8 | (unsigned char) s[i + 2]; for (int k = 3; k >= 0; k--) r += T[(x >> (6 * k)) & 63]; }
    if (s.size() - i == 1) { uint32_t x = (unsigned char) s[i] << 16; r += T[x >> 18]; r += T[(x >> 12) & 63]; r += "=="; }
    if (s.size() - i == 2) { uint32_t x = (unsigned char) s[i] << 16 | (unsigned char) s[i + 1] << 8; r += T[x >> 18]; r += T[(x >> 12) & 63]; r += T[(x >> 6) & 63]; r += "="; }
    return r;
  }
  inline std::string accept_of(std::string const& key) { return b64(sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }
  inline std::string response_for(std::string const& key)
  {
    return "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + accept_of(key) + "\r\n\r\n";
  }
  inline size_t random_len()
  {
    static const std::vector<size_t> edges = {0, 1, 2, 3, 7, 31, 124, 125, 126, 127, 249, 250, 251, 374, 375, 376, 500, 501, 1000};
    switch (sim::weighted({150, 120, 30, 1}))
    {
      case 0: return sim::any_of(edges);
      case 1: return choose(700);
      case 3: return sim::any_of(std::vector<size_t>{32768, 65375, 65535, 65536, 65537, 131072});
      default: return sim::any_of(std::vector<size_t>{2000, 4096, 8125, 16384});
    }
  }
}
