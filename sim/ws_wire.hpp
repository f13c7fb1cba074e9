// What an endpoint may put on the wire.
#pragma once
#include "ws_common.hpp"

namespace ws
{
  // P01/P04: what an endpoint put on the wire is a well formed frame stream that
  // carries a prefix of what the application handed over, and nothing after close.
  inline void check_wire(app_t& a, std::string const& wire, unsigned opcode, bool complete)
  {
    auto h = wire.find("\r\n\r\n");
    if (h == std::string::npos) return;
    std::string rest;
    auto fs = decode(wire.substr(h + 4), &rest);
    size_t k = 0; std::string acc; bool in_msg = false, closed = false;
    for (auto& f : fs)
    {
      if (closed) { sim::fail("P04", "frame-after-close", "%s sent a frame (opcode %u) after its close frame", a.name.c_str(), f.op); return; }
      if (f.op == 8)
      {
        closed = true;
        if (in_msg) sim::fail("P04", "close-inside-message", "%s sent close in the middle of a fragmented message", a.name.c_str());
        if (!f.fin || f.payload.size() > 125) sim::fail("P04", "bad-close-frame", "%s sent a fragmented or oversize close frame", a.name.c_str());
        continue;
      }
      if (f.op == 9 || f.op == 10) continue;
      if (f.rsv || (in_msg ? f.op != 0 : f.op != opcode))
      { sim::fail("P01", "wire-opcode", "%s sent opcode %u (rsv %u) where %s is due", a.name.c_str(), f.op, f.rsv, in_msg ? "a continuation" : "a new message"); return; }
      acc += f.payload; in_msg = true;
      if (f.fin)
      {
        if (k >= a.sent.size() || a.sent[k] != acc)
        { sim::fail("P01", "wire-message", "%s: message %zu on the wire (%zu bytes) is not what was handed over", a.name.c_str(), k, acc.size()); return; }
        k++; acc.clear(); in_msg = false;
      }
    }
    if (closed && !rest.empty()) sim::fail("P04", "bytes-after-close", "%s sent %zu bytes after its close frame", a.name.c_str(), rest.size());
    if (complete && k < a.sent.size() && !a.close_requested)
      sim::fail("P01", "wire-incomplete", "%s put %zu of %zu messages on the wire although the connection stayed up", a.name.c_str(), k, a.sent.size());
  }
}
