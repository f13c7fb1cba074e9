// A simulated kernel: stream sockets, epoll and eventfd, reached by the real
// Boost.Asio through link-time wrapping of the system calls it makes. Byte
// delivery, readiness, partial transfers, resets and EINTR are decided by the
// simulator's choices.
#pragma once
#include "core.hpp"
#include <algorithm>
#include <cerrno>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <netinet/in.h>

extern "C"
{
  int __real_close(int); ssize_t __real_write(int, const void*, size_t); ssize_t __real_read(int, void*, size_t);
  int __real_ioctl(int, unsigned long, ...); int __real_fcntl(int, int, ...);
}

namespace sim
{
  struct net_cfg
  {
    bool faults = true;          // may partial transfers and delays happen at all
    uint32_t short_read = 0;     // chances in 16
    uint32_t short_write = 0;
    uint32_t eagain = 0;
    uint32_t eintr = 0;
    uint32_t skip_ready = 0;
    uint32_t shuffle = 0;
    size_t sndcap = 1 << 20, rcvcap = 1 << 20;
    uint32_t chunk = 0;          // 0: whole, 1: random, 2: byte by byte
  };

  struct kernel_t;
  inline kernel_t* K = nullptr;

  struct conn_t;
  struct end_t
  {
    int fd = -1; bool open = true; conn_t* conn = nullptr; int side = 0; bool raw = false;
    std::deque<unsigned char> tx, rx;
    bool wr_shut = false, rd_shut = false, fin_queued = false, fin_sent = false, rx_fin = false, dead = false;
    int err = 0;
    uint64_t sent = 0, received = 0;
    std::string wire;     // every byte the application handed to the kernel
    std::function<void(const unsigned char*, size_t)> tap;
    end_t* peer();
  };
  struct conn_t { end_t e[2]; bool cut = false; };
  inline end_t* end_t::peer() { return &conn->e[1 - side]; }

  struct kernel_t
  {
    static constexpr int base = 100000;
    struct reg { int fd; uint32_t events; epoll_data_t data; uint32_t pend; };
    struct epoll_t { std::vector<reg> regs; };
    int next_fd = base;
    net_cfg cfg;
    std::vector<std::unique_ptr<conn_t>> conns;
    std::map<int, end_t*> socks;
    std::map<int, epoll_t> epolls;
    std::map<int, uint64_t> events;
    int wall_fd = -1;

    kernel_t() { K = this; }
    ~kernel_t() { K = nullptr; }
    kernel_t(kernel_t const&) = delete;

    static bool mine(int fd) { return fd >= base; }

    conn_t& make_conn()
    {
      conns.push_back(std::make_unique<conn_t>());
      auto& c = *conns.back();
      for (int i = 0; i < 2; i++)
      {
        c.e[i].conn = &c; c.e[i].side = i; c.e[i].fd = next_fd++;
        socks[c.e[i].fd] = &c.e[i];
      }
      return c;
    }

    uint32_t level(end_t& e)
    {
      uint32_t m = 0;
      if (!e.rx.empty() || e.rx_fin || e.rd_shut || e.err || e.dead) m |= EPOLLIN;
      if (e.err || e.dead || e.wr_shut || e.tx.size() < cfg.sndcap) m |= EPOLLOUT;
      if (e.err) m |= EPOLLERR;
      if (e.dead || ((e.rx_fin || e.rd_shut) && e.wr_shut)) m |= EPOLLHUP;
      if (e.rx_fin || e.rd_shut || e.dead) m |= EPOLLRDHUP;
      return m;
    }
    void edge(end_t& e, uint32_t m)
    {
      for (auto& [id, ep] : epolls) for (auto& r : ep.regs) if (r.fd == e.fd) r.pend |= m | (level(e) & (EPOLLERR | EPOLLHUP | EPOLLRDHUP));
    }
    end_t* sock(int fd) { auto i = socks.find(fd); return i == socks.end() ? nullptr : i->second; }

    bool can_deliver(end_t& e)
    {
      if (e.conn->cut || e.dead) return false;
      auto& p = *e.peer();
      if (!e.tx.empty()) return !p.open || p.rd_shut || p.dead || p.rx.size() < cfg.rcvcap;
      return e.fin_queued && !e.fin_sent;
    }
    // moves bytes from e's send buffer to the peer's receive buffer
    void deliver(end_t& e, bool fair)
    {
      auto& p = *e.peer();
      if (!e.tx.empty())
      {
        if (!p.open)
        { // data for a closed socket is answered by a reset
          e.tx.clear(); kill(e, ECONNRESET, false); probe("net:rst-from-closed-peer"); return;
        }
        if (p.dead) { e.tx.clear(); return; }
        size_t n = std::min(e.tx.size(), p.rd_shut ? e.tx.size() : cfg.rcvcap - p.rx.size());
        if (!fair && n > 1 && cfg.chunk)
        {
          if (cfg.chunk == 2) n = std::max<size_t>(1, n / 64);
          else if (!flip(1, 4)) { n = 1 + choose(std::min<size_t>(n, 300)); }
          if (n < e.tx.size()) fault("segmented-delivery");
        }
        n = std::min(n, e.tx.size());
        if (!p.rd_shut) p.rx.insert(p.rx.end(), e.tx.begin(), e.tx.begin() + n);
        e.tx.erase(e.tx.begin(), e.tx.begin() + n);
        log("net %d->%d %zu bytes", e.fd - base, p.fd - base, n);
        edge(p, EPOLLIN); if (e.open) edge(e, EPOLLOUT);
        return;
      }
      if (e.fin_queued && !e.fin_sent)
      {
        e.fin_sent = true;
        if (p.open) { p.rx_fin = true; log("net %d->%d fin", e.fd - base, p.fd - base); edge(p, EPOLLIN | EPOLLRDHUP); }
      }
    }
    void kill(end_t& e, int err, bool discard)
    {
      if (e.dead) return;
      e.dead = true; e.tx.clear(); if (discard) e.rx.clear();
      if (e.open) { e.err = err; edge(e, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP); }
      log("net reset %d err=%d", e.fd - base, err);
    }
    void reset(conn_t& c, int err, bool discard)
    {
      kill(c.e[0], err, discard); kill(c.e[1], err, discard);
    }

    ssize_t do_recv(int fd, iovec* iov, size_t n, int flags)
    {
      auto* e = sock(fd); if (!e || !e->open) { errno = EBADF; return -1; }
      (void) flags;
      size_t want = 0; for (size_t i = 0; i < n; i++) want += iov[i].iov_len;
      if (cfg.faults && cfg.eintr && flip(cfg.eintr, 64)) { fault("eintr-recv"); errno = EINTR; return -1; }
      if (e->rd_shut) return 0;
      if (e->rx.empty())
      {
        if (e->err) { errno = e->err; e->err = 0; log("recv %d -> errno %d", fd - base, errno); return -1; }
        if (e->dead || e->rx_fin) { log("recv %d -> eof", fd - base); return 0; }
        errno = EAGAIN; return -1;
      }
      if (want == 0) return 0;
      if (cfg.faults && cfg.eagain && flip(cfg.eagain, 64)) { fault("spurious-eagain-recv"); edge(*e, EPOLLIN); errno = EAGAIN; return -1; }
      size_t k = std::min(want, e->rx.size());
      if (cfg.faults && k > 1 && cfg.short_read && flip(cfg.short_read, 16)) { k = 1 + choose(std::min<size_t>(k - 1, 200)); fault("short-read"); }
      size_t left = k;
      for (size_t i = 0; i < n && left; i++)
      {
        size_t t = std::min(left, iov[i].iov_len);
        std::copy(e->rx.begin(), e->rx.begin() + t, static_cast<unsigned char*>(iov[i].iov_base));
        e->rx.erase(e->rx.begin(), e->rx.begin() + t);
        left -= t;
      }
      e->received += k;
      log("recv %d %zu", fd - base, k);
      return k;
    }
    ssize_t do_send(int fd, const iovec* iov, size_t n, int)
    {
      auto* e = sock(fd); if (!e || !e->open) { errno = EBADF; return -1; }
      size_t want = 0; for (size_t i = 0; i < n; i++) want += iov[i].iov_len;
      if (cfg.faults && cfg.eintr && flip(cfg.eintr, 64)) { fault("eintr-send"); errno = EINTR; return -1; }
      if (e->err) { errno = e->err; e->err = 0; log("send %d -> errno %d", fd - base, errno); return -1; }
      if (e->wr_shut || e->dead) { errno = EPIPE; log("send %d -> epipe", fd - base); return -1; }
      if (want == 0) return 0;
      size_t space = cfg.sndcap > e->tx.size() ? cfg.sndcap - e->tx.size() : 0;
      if (!space) { probe("net:send-buffer-full"); errno = EAGAIN; return -1; }
      if (cfg.faults && cfg.eagain && flip(cfg.eagain, 64)) { fault("spurious-eagain-send"); edge(*e, EPOLLOUT); errno = EAGAIN; return -1; }
      size_t k = std::min(want, space);
      if (k < want) fault("short-write");
      else if (cfg.faults && k > 1 && cfg.short_write && flip(cfg.short_write, 16)) { k = 1 + choose(std::min<size_t>(k - 1, 200)); fault("short-write"); }
      size_t left = k; size_t off = e->wire.size();
      for (size_t i = 0; i < n && left; i++)
      {
        size_t t = std::min(left, iov[i].iov_len);
        auto b = static_cast<const unsigned char*>(iov[i].iov_base);
        e->tx.insert(e->tx.end(), b, b + t);
        e->wire.append(reinterpret_cast<const char*>(b), t);
        left -= t;
      }
      e->sent += k;
      mix_bytes(e->wire.data() + off, k);
      log("send %d %zu", fd - base, k);
      if (e->tap) e->tap(reinterpret_cast<const unsigned char*>(e->wire.data()) + off, k);
      return k;
    }
    // used by scripted peers, which have no send limit
    void raw_write(end_t& e, std::string const& s)
    {
      if (e.dead || !e.open || e.wr_shut) return;
      e.tx.insert(e.tx.end(), s.begin(), s.end());
      mix_bytes(s.data(), s.size());
      log("peer %d writes %zu", e.fd - base, s.size());
    }
    std::string raw_read(end_t& e)
    {
      std::string s(e.rx.begin(), e.rx.end()); e.rx.clear(); return s;
    }
    int do_shutdown(int fd, int how)
    {
      auto* e = sock(fd); if (!e || !e->open) { errno = EBADF; return -1; }
      log("shutdown %d how=%d", fd - base, how);
      if (e->dead) { errno = ENOTCONN; return -1; }
      if (how == SHUT_RD || how == SHUT_RDWR) { e->rd_shut = true; e->rx.clear(); }
      if (how == SHUT_WR || how == SHUT_RDWR) { e->wr_shut = true; e->fin_queued = true; }
      edge(*e, EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP);
      return 0;
    }
    int do_close(int fd)
    {
      if (epolls.erase(fd)) return 0;
      if (events.erase(fd)) return 0;
      auto* e = sock(fd); if (!e || !e->open) { errno = EBADF; return -1; }
      log("close %d", fd - base);
      e->open = false;
      for (auto& [id, ep] : epolls)
        ep.regs.erase(std::remove_if(ep.regs.begin(), ep.regs.end(), [&](reg& r) { return r.fd == fd; }), ep.regs.end());
      if (!e->dead)
      {
        if (!e->rx.empty()) { e->tx.clear(); kill(*e->peer(), ECONNRESET, false); e->dead = true; probe("net:rst-by-unread-close"); }
        else { e->fin_queued = true; e->wr_shut = true; }
      }
      return 0;
    }
    int ctl(int ep, int op, int fd, epoll_event* ev)
    {
      auto i = epolls.find(ep); if (i == epolls.end()) { errno = EBADF; return -1; }
      auto& rs = i->second.regs;
      auto it = std::find_if(rs.begin(), rs.end(), [&](reg& r) { return r.fd == fd; });
      if (op == EPOLL_CTL_DEL) { if (it == rs.end()) { errno = ENOENT; return -1; } rs.erase(it); return 0; }
      if (!sock(fd) && !events.count(fd)) { errno = EPERM; return -1; }
      if (op == EPOLL_CTL_ADD)
      { if (it != rs.end()) { errno = EEXIST; return -1; } rs.push_back({}); it = rs.end() - 1; it->fd = fd; }
      else if (it == rs.end()) { errno = ENOENT; return -1; }
      it->events = ev->events; it->data = ev->data;
      it->pend |= sock(fd) ? level(*sock(fd)) : (uint32_t) EPOLLIN;
      return 0;
    }
    int wait(int ep, epoll_event* out, int max)
    {
      auto i = epolls.find(ep); if (i == epolls.end()) { errno = EBADF; return -1; }
      auto& rs = i->second.regs;
      std::vector<size_t> ready;
      for (size_t k = 0; k < rs.size(); k++)
      {
        auto& r = rs[k];
        uint32_t cur = sock(r.fd) ? level(*sock(r.fd)) : (uint32_t) EPOLLIN;
        uint32_t m = r.pend & cur & (r.events | EPOLLERR | EPOLLHUP);
        if (!m) { r.pend &= ~(r.events | EPOLLERR | EPOLLHUP) | cur; continue; }
        ready.push_back(k);
      }
      if (cfg.faults && cfg.skip_ready && !ready.empty() && flip(cfg.skip_ready, 32)) { fault("delayed-readiness"); return 0; }
      if (cfg.faults && cfg.shuffle && ready.size() > 1)
        for (size_t k = ready.size(); k > 1; k--) std::swap(ready[k - 1], ready[k - 1 - choose(k)]);
      int n = 0;
      for (auto k : ready)
      {
        if (n >= max) break;
        auto& r = rs[k];
        uint32_t cur = sock(r.fd) ? level(*sock(r.fd)) : (uint32_t) EPOLLIN;
        out[n].events = r.pend & cur & (r.events | EPOLLERR | EPOLLHUP); out[n].data = r.data; n++;
        r.pend = 0;
      }
      return n;
    }
    bool any_ready()
    {
      for (auto& [id, ep] : epolls) for (auto& r : ep.regs)
      {
        uint32_t cur = sock(r.fd) ? level(*sock(r.fd)) : (uint32_t) EPOLLIN;
        if (r.pend & cur & (r.events | EPOLLERR | EPOLLHUP)) return true;
      }
      return false;
    }
    size_t open_socks() { size_t n = 0; for (auto& [fd, e] : socks) n += e->open && !e->raw; return n; }
  };
}

using sim::K;
using sim::kernel_t;
#ifdef SIM_KERNEL_IMPL
extern "C"
{
  int __wrap_epoll_create1(int) { if (!K) { errno = ENOSYS; return -1; } int f = K->next_fd++; K->epolls[f]; return f; }
  int __wrap_epoll_create(int) { return __wrap_epoll_create1(0); }
  int __wrap_epoll_ctl(int e, int op, int fd, epoll_event* ev) { if (!K) { errno = EBADF; return -1; } return K->ctl(e, op, fd, ev); }
  int __wrap_epoll_wait(int e, epoll_event* ev, int max, int timeout)
  { if (!K) { errno = EBADF; return -1; } int n = K->wait(e, ev, max);
    if (n == 0 && timeout != 0) sim::fail_always("harness", "blocking epoll_wait"); return n; }
  int __wrap_eventfd(unsigned v, int) { if (!K) { errno = ENOSYS; return -1; } int f = K->next_fd++; K->events[f] = v; return f; }
  int __wrap_timerfd_create(int, int) { errno = ENOSYS; return -1; }
  int __wrap_timerfd_settime(int, int, const itimerspec*, itimerspec*) { errno = EBADF; return -1; }
  int __wrap_pipe(int*) { errno = ENOSYS; return -1; }
  int __wrap_close(int fd) { if (!kernel_t::mine(fd)) return __real_close(fd); if (!K) return 0; return K->do_close(fd); }
  ssize_t __wrap_write(int fd, const void* b, size_t n)
  { if (!kernel_t::mine(fd)) return __real_write(fd, b, n);
    if (K && K->events.count(fd)) return n; iovec v{const_cast<void*>(b), n}; return K ? K->do_send(fd, &v, 1, 0) : -1; }
  ssize_t __wrap_read(int fd, void* b, size_t n)
  { if (!kernel_t::mine(fd)) return __real_read(fd, b, n);
    if (K && K->events.count(fd)) { errno = EAGAIN; return -1; } iovec v{b, n}; return K ? K->do_recv(fd, &v, 1, 0) : -1; }
  ssize_t __wrap_recv(int fd, void* b, size_t n, int f) { iovec v{b, n}; if (!K) { errno = EBADF; return -1; } return K->do_recv(fd, &v, 1, f); }
  ssize_t __wrap_recvmsg(int fd, msghdr* m, int f) { if (!K) { errno = EBADF; return -1; } return K->do_recv(fd, m->msg_iov, m->msg_iovlen, f); }
  ssize_t __wrap_readv(int fd, const iovec* v, int n) { if (!K) { errno = EBADF; return -1; } return K->do_recv(fd, const_cast<iovec*>(v), n, 0); }
  ssize_t __wrap_send(int fd, const void* b, size_t n, int f) { iovec v{const_cast<void*>(b), n}; if (!K) { errno = EBADF; return -1; } return K->do_send(fd, &v, 1, f); }
  ssize_t __wrap_sendmsg(int fd, const msghdr* m, int f) { if (!K) { errno = EBADF; return -1; } return K->do_send(fd, m->msg_iov, m->msg_iovlen, f); }
  ssize_t __wrap_writev(int fd, const iovec* v, int n) { if (!K) { errno = EBADF; return -1; } return K->do_send(fd, v, n, 0); }
  int __wrap_shutdown(int fd, int how) { if (!K) { errno = EBADF; return -1; } return K->do_shutdown(fd, how); }
  int __wrap_ioctl(int fd, unsigned long req, void* arg)
  { if (!kernel_t::mine(fd)) return __real_ioctl(fd, req, arg);
    if (K && req == FIONREAD) { auto* e = K->sock(fd); *static_cast<int*>(arg) = e ? e->rx.size() : 0; } return 0; }
  int __wrap_fcntl(int fd, int cmd, long arg) { if (!kernel_t::mine(fd)) return __real_fcntl(fd, cmd, arg); return 0; }
  int __wrap_setsockopt(int, int, int, const void*, socklen_t) { return 0; }
  int __wrap_getsockopt(int fd, int lvl, int opt, void* v, socklen_t* l)
  { if (v && l && *l >= sizeof(int)) { int r = 0; if (K && lvl == SOL_SOCKET && opt == SO_ERROR) { auto* e = K->sock(fd); if (e) { r = e->err; e->err = 0; } }
      memcpy(v, &r, sizeof r); *l = sizeof r; } return 0; }
  int __wrap_getpeername(int, sockaddr* a, socklen_t* l)
  { sockaddr_in s{}; s.sin_family = AF_INET; s.sin_port = htons(1); memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; return 0; }
  int __wrap_getsockname(int f, sockaddr* a, socklen_t* l) { return __wrap_getpeername(f, a, l); }
}
#endif
