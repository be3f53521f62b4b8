// Descriptors, sockets, epoll, pipes.
#include "io.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <net/if.h>
#include <netdb.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>

static const int FDBASE = 10000;
static std::vector<File*>* g_fds;
u64 g_fdmax = 4096;
std::map<int, Server*>& g_servers = *new std::map<int, Server*>();
static std::map<std::pair<int, int>, File*>* g_listen;   // (port, family)
static std::map<std::pair<int, int>, File*>* g_udp;
static std::vector<Ep*>* g_eps;
std::set<std::string>* g_dns;
int g_dns6 = 0;
static int g_ephem = 40000;

void net_init() {
  g_fds = new std::vector<File*>();
  g_listen = new std::map<std::pair<int, int>, File*>();
  g_udp = new std::map<std::pair<int, int>, File*>();
  g_eps = new std::vector<Ep*>();
  g_dns = new std::set<std::string>();
}
File* fd_file(int fd) {
  if (fd < FDBASE || !g_fds) return nullptr;
  size_t i = fd - FDBASE;
  return i < g_fds->size() ? (*g_fds)[i] : nullptr;
}
u64 open_fds() {
  u64 n = 0;
  for (File* f : *g_fds) if (f) n++;
  return n;
}
void fd_stat_log() {
  int tcp = 0, reg = 0, oth = 0, conn_in = 0;
  for (File* f : *g_fds) {
    if (!f) continue;
    if (f->t == T_TCP) { tcp++; if (f->ep && f->ep->srv == nullptr && f->ep->port && !f->target) conn_in++; }
    else if (f->t == T_REG) reg++;
    else oth++;
  }
  logf("STAT fds=%llu tcp=%d tcpin=%d reg=%d other=%d", (unsigned long long)open_fds(), tcp, conn_in, reg, oth);
}
int fd_alloc(File* f) {
  InSim s;
  for (size_t i = 0; i < g_fds->size(); i++)
    if (!(*g_fds)[i]) { (*g_fds)[i] = f; return FDBASE + (int)i; }
  if (g_fds->size() >= g_fdmax) { errno = EMFILE; return -1; }
  g_fds->push_back(f);
  return FDBASE + (int)g_fds->size() - 1;
}

// ---------------------------------------------------------------- endpoints
static Ep* new_ep(bool app) {
  Ep* e = new Ep();
  e->id = (int)g_eps->size() + 1;
  e->is_app = app;
  e->cap = scn.sndbuf;
  g_eps->push_back(e);
  return e;
}
static u64 latency() {
  u64 l = scn.lat_min;
  if (fault(K_LATENCY)) l += drawk(K_LATENCY, scn.lat_max - scn.lat_min + 1);
  return l;
}
// arrival time of something sent now on e (keeps order)
static u64 arrival(Ep* e) {
  u64 t = g_now + latency();
  if (t < e->last_arr) t = e->last_arr;
  e->last_arr = t;
  return t;
}
static void ep_in(Ep* e) { e->in_seq++; }
static void ep_out(Ep* e) { e->out_seq++; }
static void deliver_rst(Ep* to) {
  if (to->rst) return;
  if (to->is_app) {
    to->rst = true;
    ep_in(to); ep_out(to);
    logf("RSTIN %d", to->id);
  } else {
    to->rst = true;
    logf("SRST %d", to->id);
    if (to->actor) to->actor->on_rst(to);
  }
}
static void send_rst(Ep* from) {
  Ep* to = from->other;
  at(arrival(from), [to] { deliver_rst(to); });
}
static void to_actor(Ep* dst, const std::string& d) {
  dst->rx_total += d.size();
  if (dst->actor) dst->actor->on_data(dst, d);
}
// bytes d from `from` arrive at from->other
static void arrive(Ep* from, std::string d) {
  Ep* to = from->other;
  if (to->closed) {
    from->inflight -= d.size();
    if (!from->rst) { Ep* f = from; at(g_now + latency(), [f] { deliver_rst(f); }); }
    return;
  }
  if (to->rst) { from->inflight -= d.size(); return; }
  if (to->is_app) {
    if (to->rxo > 65536 && to->rxo * 2 > to->rx.size()) { to->rx.erase(0, to->rxo); to->rxo = 0; }
    to->rx.append(d);
    to->rx_total += d.size();
    if (!from->is_app) from->inflight -= d.size();
    ep_in(to);
    return;
  }
  if (to->stalled) { to->stall_buf.append(d); return; }
  bool full = from->inflight >= from->cap;
  from->inflight -= d.size();
  if (full) ep_out(from);
  // reset plan: the remote end dies once it has received that many bytes
  if (to->rx_total + d.size() >= to->rst_after) {
    size_t k = to->rst_after - to->rx_total;
    to_actor(to, d.substr(0, k));
    to->rst_after = ~0ull;
    ep_rst(to);
    if (to->actor) to->actor->on_rst(to);
    return;
  }
  to_actor(to, d);
}
void ep_unstall(Ep* ep) {
  if (!ep->stalled) return;
  ep->stalled = false;
  std::string d;
  d.swap(ep->stall_buf);
  Ep* from = ep->other;
  if (!d.empty()) {
    bool full = from->inflight >= from->cap;
    (void)full;
    arrive(from, d);
    ep_out(from);
  }
}
void ep_send(Ep* ep, const std::string& d) {
  if (ep->closed || ep->rst || d.empty()) return;
  // cut into segments
  size_t o = 0;
  while (o < d.size()) {
    size_t n = d.size() - o;
    if (fault(K_SEG)) n = 1 + drawk(K_SEG, n);
    else if (n > 16384) n = 16384;
    std::string part = d.substr(o, n);
    o += n;
    ep->inflight += n;
    at(arrival(ep), [ep, part] { arrive(ep, part); });
  }
  ep->tx_total += d.size();
}
static void arrive_fin(Ep* from) {
  Ep* to = from->other;
  if (to->closed) return;
  to->fin_rx = true;
  if (to->is_app) { ep_in(to); logf("FININ %d", to->id); }
  else { logf("SFIN %d", to->id); if (to->actor) to->actor->on_fin(to); }
}
void ep_fin(Ep* ep) {
  if (ep->fin_sent || ep->rst) return;
  ep->fin_sent = true;
  at(arrival(ep), [ep] { arrive_fin(ep); });
}
void ep_rst(Ep* ep) {
  if (ep->closed && ep->fin_sent && ep->rst) return;
  ep->closed = true;
  if (ep->rst) return;
  ep->rst = true;
  Ep* o = ep->other;
  at(arrival(ep), [o] { deliver_rst(o); });
}
static void ep_close_actor(Ep* ep) {
  if (!ep->stall_buf.empty()) { ep->stall_buf.clear(); ep_rst(ep); return; }   // closed with data unread
  ep_fin(ep);
  ep->closed = true;
}
void ep_close(Ep* ep) { ep_close_actor(ep); }

Ep* client_connect(int port, Actor* a) {
  bool have = g_listen->count({port, AF_INET}) || g_listen->count({port, AF_INET6});
  Ep* act = new_ep(false);
  Ep* app = new_ep(true);
  act->other = app; app->other = act;
  act->actor = a;
  act->port = app->port = port;
  act->myport = g_ephem++;
  app->connected = act->connected = true;
  if (!have) {
    logf("CREFUSED %d port=%d", app->id, port);
    act->closed = act->rst = true;
    return act;
  }
  logf("CCONN %d port=%d", app->id, port);
  app->last_arr = act->last_arr = g_now;
  at(arrival(act), [app, act, port] {
    auto it = g_listen->find({port, AF_INET});
    if (it == g_listen->end()) it = g_listen->find({port, AF_INET6});
    if (it == g_listen->end()) { app->closed = true; deliver_rst(act); return; }
    it->second->backlog.push_back(app);
    it->second->in_seq++;
  });
  return act;
}
bool udp_inject(int port, const std::string& d) {
  auto put = [port](const std::string& d) {
    auto it = g_udp->find({port, AF_INET});
    if (it == g_udp->end()) it = g_udp->find({port, AF_INET6});
    if (it == g_udp->end()) { log_hex("UNOSOCK", d.data(), d.size()); return; }
    File* f = it->second;
    if (f->dqbytes + d.size() + 256 > 212992) { log_hex("UOVER", d.data(), d.size()); return; }
    f->dq.push_back(d);
    f->dqbytes += d.size() + 256;
    f->in_seq++;
    logf("UQ %d %zu", port, d.size());
  };
  if (fault(K_UDP_DROP)) return false;
  u64 t = g_now + scn.lat_min;
  if (fault(K_UDP_REORDER)) t += drawk(K_UDP_REORDER, 3000000);
  at(t, [put, d] { put(d); });
  if (fault(K_UDP_DUP)) at(t + drawk(K_UDP_DUP, 3000000), [put, d] { put(d); });
  return true;
}

// ---------------------------------------------------------------- readiness
static u32 poll_mask(File* f) {
  u32 m = 0;
  switch (f->t) {
    case T_LISTEN: if (!f->backlog.empty()) m |= EPOLLIN; break;
    case T_UDP: if (!f->dq.empty()) m |= EPOLLIN; m |= EPOLLOUT; break;
    case T_TCP: {
      Ep* e = f->ep;
      if (f->connecting == 1) break;
      if (f->so_error) { m |= EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP; break; }
      if (!e) { m |= EPOLLOUT | EPOLLHUP; break; }
      if (e->unread()) m |= EPOLLIN;
      if (e->fin_rx || f->shut_rd) m |= EPOLLIN | EPOLLRDHUP;
      if (e->fin_rx && e->fin_sent) m |= EPOLLHUP;
      if (e->rst) m |= EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP | (e->rst_reported ? 0 : EPOLLERR);
      if (f->shut_wr || e->inflight < e->cap) m |= EPOLLOUT;
      break;
    }
    case T_SOCK: m |= EPOLLOUT | EPOLLHUP; break;
    case T_EVENTFD: if (f->counter) m |= EPOLLIN; m |= EPOLLOUT; break;
    case T_PIPER: if (!f->pipe->buf.empty()) m |= EPOLLIN; if (!f->pipe->writers) m |= EPOLLHUP; break;
    case T_PIPEW: if (f->pipe->buf.size() < 65536) m |= EPOLLOUT; if (!f->pipe->readers) m |= EPOLLERR; break;
    case T_REG: case T_DIR: m |= EPOLLIN | EPOLLOUT; break;
    case T_EPOLL: break;
  }
  return m;
}
static u64 iseq(File* f) { return (f->t == T_TCP && f->ep) ? f->ep->in_seq + f->in_seq : f->in_seq; }
static u64 oseq(File* f) { return (f->t == T_TCP && f->ep) ? f->ep->out_seq + f->out_seq : f->out_seq; }
static u32 reg_ready(Reg& r) {
  if (r.disabled) return 0;
  u32 m = poll_mask(r.f) & (r.events | EPOLLERR | EPOLLHUP);
  if (!m) return 0;
  if (r.events & EPOLLET) {
    bool edge = false;
    if (iseq(r.f) != r.seen_in && ((r.events & (EPOLLIN | EPOLLRDHUP)) || (m & (EPOLLERR | EPOLLHUP)))) edge = true;
    if (oseq(r.f) != r.seen_out && ((r.events & EPOLLOUT) || (m & (EPOLLERR | EPOLLHUP)))) edge = true;
    if (!edge) return 0;
  }
  return m;
}
EXPORT int epoll_create1(int) {
  InSim s;
  File* f = new File();
  f->t = T_EPOLL;
  int fd = fd_alloc(f);
  if (fd < 0) delete f;
  return fd;
}
EXPORT int epoll_create(int) { InSim s; return epoll_create1(0); }
EXPORT int epoll_ctl(int epfd, int op, int fd, struct epoll_event* ev) {
  File* e = fd_file(epfd);
  File* f = fd_file(fd);
  if (!e || e->t != T_EPOLL || !f) { errno = EBADF; return -1; }
  sched_point('e');
  InSim s;
  // (fd, file) is the key, as in Linux
  size_t i = 0;
  while (i < e->regs.size() && !(e->regs[i].fd == fd && e->regs[i].f == f)) i++;
  bool have = i < e->regs.size();
  if (op == EPOLL_CTL_ADD) {
    if (have) { errno = EEXIST; return -1; }
    if (f->t == T_REG || f->t == T_DIR) { errno = EPERM; return -1; }
    e->regs.push_back(Reg{fd, f, ev->events, ev->data.u64, 0, 0, false});
    return 0;
  }
  if (!have) { errno = ENOENT; return -1; }
  if (op == EPOLL_CTL_DEL) { e->regs.erase(e->regs.begin() + i); return 0; }
  e->regs[i].events = ev->events;
  e->regs[i].data = ev->data.u64;
  e->regs[i].seen_in = e->regs[i].seen_out = 0;
  e->regs[i].disabled = false;
  return 0;
}
EXPORT int epoll_wait(int epfd, struct epoll_event* evs, int maxev, int timeout) {
  File* e = fd_file(epfd);
  if (!e || e->t != T_EPOLL) { errno = EBADF; return -1; }
  sched_point('w');
  InSim s;
  if (fault(K_EINTR)) { errno = EINTR; return -1; }
  auto any = [e]() { for (auto& r : e->regs) if (reg_ready(r)) return true; return false; };
  u64 dl = timeout < 0 ? 0 : g_now + (u64)timeout * 1000000ull;
  if (!any()) {
    if (timeout == 0) return 0;
    if (fault(K_EPOLL_SPUR)) return 0;
    if (!block_on(any, dl)) return 0;
  }
  int n = 0, lim = maxev;
  size_t start = 0;
  if (fault(K_EPOLL_FEW)) {
    lim = 1 + (int)drawk(K_EPOLL_FEW, maxev < 3 ? maxev : 3);
    if (!e->regs.empty()) start = drawk(K_EPOLL_FEW, e->regs.size());
  }
  for (size_t k = 0; k < e->regs.size() && n < lim; k++) {
    Reg& r = e->regs[(start + k) % e->regs.size()];
    u32 m = reg_ready(r);
    if (!m) continue;
    evs[n].events = m;
    evs[n].data.u64 = r.data;
    n++;
    if (r.events & EPOLLET) { r.seen_in = iseq(r.f); r.seen_out = oseq(r.f); }
    if (r.events & EPOLLONESHOT) r.disabled = true;
  }
  mix('P', n);
  return n;
}
EXPORT int epoll_pwait(int epfd, struct epoll_event* evs, int maxev, int timeout, const sigset_t*) { return epoll_wait(epfd, evs, maxev, timeout); }

static int do_poll(struct pollfd* p, nfds_t n, int timeout) {
  sched_point('p');
  InSim s;
  auto scan = [p, n]() {
    int c = 0;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0;
      if (p[i].fd < 0) continue;
      File* f = fd_file(p[i].fd);
      if (!f) { p[i].revents = POLLNVAL; c++; continue; }
      u32 m = poll_mask(f);
      short want = p[i].events | POLLERR | POLLHUP;
      p[i].revents = (short)(m & (u32)want);
      if (p[i].revents) c++;
    }
    return c;
  };
  int c = scan();
  if (c || timeout == 0) return c;
  if (fault(K_EINTR)) { errno = EINTR; return -1; }
  block_on([&] { return scan() > 0; }, timeout < 0 ? 0 : g_now + (u64)timeout * 1000000ull);
  return scan();
}
EXPORT int poll(struct pollfd* p, nfds_t n, int timeout) {
  bool ours = false;
  for (nfds_t i = 0; i < n; i++) if (p[i].fd >= FDBASE) ours = true;
  if (!simming() || (!ours && n)) return (int)rawret(raws(SYS_poll, (long)p, n, simming() ? 0 : timeout));
  return do_poll(p, n, timeout);
}
EXPORT int __poll_chk(struct pollfd* p, nfds_t n, int timeout, size_t) { return poll(p, n, timeout); }
EXPORT int ppoll(struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t*) { return poll(p, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1); }

// ---------------------------------------------------------------- sockets
EXPORT int socket(int dom, int type, int proto) {
  if (!g_active) return (int)rawret(raws(SYS_socket, dom, type, proto));
  sched_point('k');
  InSim s;
  if (dom != AF_INET && dom != AF_INET6) { errno = EAFNOSUPPORT; return -1; }
  File* f = new File();
  f->family = dom;
  f->stype = type & 0xf;
  f->t = f->stype == SOCK_DGRAM ? T_UDP : T_SOCK;
  f->nonblock = type & SOCK_NONBLOCK;
  int fd = fd_alloc(f);
  if (fd < 0) delete f;
  return fd;
}
static int sa_port(const struct sockaddr* a) {
  return a->sa_family == AF_INET6 ? ntohs(((struct sockaddr_in6*)a)->sin6_port) : ntohs(((struct sockaddr_in*)a)->sin_port);
}
static void put_addr(struct sockaddr* a, socklen_t* l, int family, int port) {
  if (!a || !l) return;
  if (family == AF_INET6) {
    struct sockaddr_in6 s;
    memset(&s, 0, sizeof s);
    s.sin6_family = AF_INET6; s.sin6_port = htons(port); s.sin6_addr = in6addr_loopback;
    memcpy(a, &s, *l < sizeof s ? *l : sizeof s);
    *l = sizeof s;
  } else {
    struct sockaddr_in s;
    memset(&s, 0, sizeof s);
    s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    memcpy(a, &s, *l < sizeof s ? *l : sizeof s);
    *l = sizeof s;
  }
}
#define GETF(fd)                                  \
  File* f = fd_file(fd);                          \
  if (!f) { errno = EBADF; return -1; }
EXPORT int bind(int fd, const struct sockaddr* a, socklen_t) {
  GETF(fd);
  sched_point('b');
  InSim s;
  int port = sa_port(a);
  if (!port) port = g_ephem++;
  auto& m = f->t == T_UDP ? *g_udp : *g_listen;
  if (m.count({port, f->family})) { errno = EADDRINUSE; return -1; }
  f->port = port;
  if (f->t == T_UDP) (*g_udp)[{port, f->family}] = f;
  return 0;
}
EXPORT int listen(int fd, int) {
  GETF(fd);
  sched_point('l');
  InSim s;
  if (!f->port) f->port = g_ephem++;
  if (g_listen->count({f->port, f->family})) { errno = EADDRINUSE; return -1; }
  f->t = T_LISTEN;
  (*g_listen)[{f->port, f->family}] = f;
  logf("LISTEN %d", f->port);
  return 0;
}
EXPORT int accept4(int fd, struct sockaddr* a, socklen_t* l, int flags) {
  GETF(fd);
  sched_point('a');
  InSim s;
  if (f->t != T_LISTEN) { errno = EINVAL; return -1; }
  if (fault(K_ACCEPT_ERR)) {
    static const int errs[] = {ECONNABORTED, EMFILE, ENFILE, ENOBUFS, EINTR, ENOMEM};
    int e = errs[drawk(K_ACCEPT_ERR, 6)];
    if (!f->backlog.empty() || e == EINTR) {
      if (e == ECONNABORTED) { Ep* x = f->backlog.front(); f->backlog.pop_front(); x->closed = true; send_rst(x); logf("ABORTED %d", x->id); }
      logf("ACCERR %d", e);
      errno = e;
      return -1;
    }
  }
  if (f->backlog.empty()) {
    if (f->nonblock) { errno = EAGAIN; return -1; }
    block_on([f] { return !f->backlog.empty() || f->refs == 0; }, f->rcvtimeo ? g_now + f->rcvtimeo : 0);
    if (f->refs == 0) { errno = EINVAL; return -1; }
    if (f->backlog.empty()) { errno = EAGAIN; return -1; }
  }
  File* c = new File();
  c->t = T_TCP;
  c->family = f->family;
  c->nonblock = flags & SOCK_NONBLOCK;
  c->port = f->port;
  int nfd = fd_alloc(c);
  if (nfd < 0) { delete c; return -1; }
  c->ep = f->backlog.front();
  f->backlog.pop_front();
  put_addr(a, l, f->family, c->ep->other->myport);
  logf("A %d port=%d fd=%d", c->ep->id, f->port, nfd);
  return nfd;
}
EXPORT int accept(int fd, struct sockaddr* a, socklen_t* l) { return accept4(fd, a, l, 0); }

static void conn_done(File* f, int err) {
  f->connecting = 2;
  f->so_error = err;
  f->in_seq++; f->out_seq++;
  if (f->ep && err) { f->ep = nullptr; }
}
EXPORT int connect(int fd, const struct sockaddr* a, socklen_t) {
  GETF(fd);
  sched_point('c');
  InSim s;
  int port = sa_port(a);
  if (f->t == T_UDP) { f->target = port; return 0; }
  if (f->t == T_TCP) {
    if (f->connecting == 1) { errno = EALREADY; return -1; }
    if (f->connecting == 2 && f->so_error) { int e = f->so_error; f->so_error = 0; errno = e; return -1; }
    if (f->connecting == 2) { f->connecting = 0; return 0; }
    errno = EISCONN; return -1;
  }
  f->t = T_TCP;
  f->target = port;
  f->connecting = 1;
  Server* srv = g_servers.count(port) ? g_servers[port] : nullptr;
  File* lis = nullptr;
  if (!srv) {
    auto it = g_listen->find({port, f->family});
    if (it != g_listen->end()) lis = it->second;
  }
  bool refuse = (!srv && !lis) || (srv && srv->down) || (fault(K_CONN_REFUSE));
  u64 t = g_now + latency() + scn.lat_min;
  if (refuse) {
    logf("XREFUSED port=%d", port);
    at(t, [f] { conn_done(f, ECONNREFUSED); });
  } else if (srv && srv->blackhole) {
    logf("XBLACKHOLE port=%d", port);
    at(g_now + 127000000000ull, [f] { if (f->connecting == 1) conn_done(f, ETIMEDOUT); });
  } else {
    Ep* app = new_ep(true);
    Ep* oth = new_ep(lis != nullptr);
    app->other = oth; oth->other = app;
    app->port = oth->port = port;
    app->myport = g_ephem++;
    oth->myport = port;
    f->ep = app;
    app->srv = oth->srv = srv;
    at(t, [f, app, oth, srv, port] {
      if (srv) {
        if (srv->down) { if (f->ep == app) conn_done(f, ECONNREFUSED); return; }
        oth->connno = app->connno = srv->nconn++;
        srv->conns.push_back(oth);
        oth->connected = app->connected = true;
        logf("C %d port=%d connno=%llu", app->id, port, (unsigned long long)app->connno);
        conn_done(f, 0);
        oth->actor = srv->make(oth, oth->connno);
      } else {
        File* l2 = nullptr;
        for (auto& x : *g_listen) if (x.first.first == port) l2 = x.second;
        if (!l2) { conn_done(f, ECONNREFUSED); return; }
        oth->connected = app->connected = true;
        l2->backlog.push_back(oth);
        l2->in_seq++;
        logf("C %d port=%d connno=0 peer=%d", app->id, port, oth->id);
        conn_done(f, 0);
      }
    });
  }
  if (f->nonblock) { errno = EINPROGRESS; return -1; }
  u64 dl = f->sndtimeo ? g_now + f->sndtimeo : 0;
  if (!block_on([f] { return f->connecting == 2; }, dl)) { errno = EINPROGRESS; return -1; }
  f->connecting = 0;
  if (f->so_error) { errno = f->so_error; f->so_error = 0; f->t = T_SOCK; return -1; }
  return 0;
}
static void sock_shut_wr(File* f) {
  if (f->shut_wr || !f->ep) return;
  f->shut_wr = true;
  if (!f->ep->rst) { logf("SHUTW %d", f->ep->id); ep_fin(f->ep); }
}
EXPORT int shutdown(int fd, int how) {
  GETF(fd);
  sched_point('h');
  InSim s;
  if (f->t == T_LISTEN) { f->in_seq++; return 0; }
  if (f->t != T_TCP || !f->ep || f->connecting) { errno = ENOTCONN; return -1; }
  if (how != SHUT_WR) { f->shut_rd = true; f->in_seq++; }
  if (how != SHUT_RD) sock_shut_wr(f);
  return 0;
}
static void file_close(File* f) {
  if (--f->refs > 0) return;
  switch (f->t) {
    case T_LISTEN: {
      g_listen->erase({f->port, f->family});
      for (Ep* e : f->backlog) { e->closed = true; send_rst(e); }
      logf("UNLISTEN %d", f->port);
      break;
    }
    case T_UDP: if (f->port) { auto it = g_udp->find({f->port, f->family}); if (it != g_udp->end() && it->second == f) g_udp->erase(it); logf("UCLOSE %d unread=%zu", f->port, f->dq.size()); } break;
    case T_TCP:
      if (f->ep) {
        Ep* e = f->ep;
        logf("CLOSE %d unread=%llu", e->id, (unsigned long long)e->unread());
        e->closed = true;
        if (!e->rst) {
          if (e->unread()) { e->rst = true; send_rst(e); }
          else ep_fin(e);
        }
      }
      break;
    case T_PIPER: f->pipe->readers--; break;
    case T_PIPEW: f->pipe->writers--; break;
    case T_REG: case T_DIR: vfs_close(f); break;
    default: break;
  }
  // Linux removes a closed file from every epoll set
  for (File* e : *g_fds)
    if (e && e->t == T_EPOLL)
      e->regs.erase(std::remove_if(e->regs.begin(), e->regs.end(), [f](Reg& r) { return r.f == f; }), e->regs.end());
}
EXPORT int close(int fd) {
  File* f = fd_file(fd);
  if (!f) {
    if (fd >= FDBASE && g_active) { errno = EBADF; return -1; }
    return (int)rawret(raws(SYS_close, fd));
  }
  sched_point('x');
  InSim s;
  (*g_fds)[fd - FDBASE] = nullptr;
  file_close(f);
  return 0;
}
static void tv_to_ns(const void* v, u64& ns) { const struct timeval* tv = (const struct timeval*)v; ns = (u64)tv->tv_sec * 1000000000ull + (u64)tv->tv_usec * 1000; }
EXPORT int setsockopt(int fd, int level, int opt, const void* v, socklen_t n) {
  GETF(fd);
  if (level == SOL_SOCKET && opt == SO_RCVTIMEO) tv_to_ns(v, f->rcvtimeo);
  if (level == SOL_SOCKET && opt == SO_SNDTIMEO) tv_to_ns(v, f->sndtimeo);
  return 0;
}
EXPORT int getsockopt(int fd, int level, int opt, void* v, socklen_t* n) {
  GETF(fd);
  int val = 0;
  if (level == SOL_SOCKET) switch (opt) {
      case SO_ERROR:
        val = f->so_error;
        f->so_error = 0;
        if (f->connecting == 2 && !val) f->connecting = 0;
        if (!val && f->t == T_TCP && f->ep && f->ep->rst && !f->ep->rst_reported) { f->ep->rst_reported = true; val = ECONNRESET; }
        break;
      case SO_TYPE: val = f->stype; break;
      case SO_RCVBUF: case SO_SNDBUF: val = (int)scn.sndbuf; break;
      case SO_RCVTIMEO: case SO_SNDTIMEO: {
        u64 ns = opt == SO_RCVTIMEO ? f->rcvtimeo : f->sndtimeo;
        struct timeval tv = {(time_t)(ns / 1000000000ull), (suseconds_t)(ns % 1000000000ull / 1000)};
        memcpy(v, &tv, sizeof tv);
        *n = sizeof tv;
        return 0;
      }
      default: val = 0;
    }
  if (*n >= sizeof val) { memcpy(v, &val, sizeof val); *n = sizeof val; }
  return 0;
}
EXPORT int getsockname(int fd, struct sockaddr* a, socklen_t* l) {
  GETF(fd);
  put_addr(a, l, f->family, f->ep ? (f->target ? f->ep->myport : f->ep->port) : f->port);
  return 0;
}
EXPORT int getpeername(int fd, struct sockaddr* a, socklen_t* l) {
  GETF(fd);
  if (f->t != T_TCP || !f->ep || f->connecting == 1 || f->ep->rst) { errno = ENOTCONN; return -1; }
  put_addr(a, l, f->family, f->ep->other->myport);
  return 0;
}
EXPORT int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  File* f = fd_file(fd);
  if (!f) return (int)rawret(raws(SYS_ioctl, fd, req, (long)arg));
  switch (req) {
    case FIONBIO: f->nonblock = *(int*)arg; return 0;
    case FIOCLEX: case FIONCLEX: return 0;
    case FIONREAD: *(int*)arg = f->t == T_TCP && f->ep ? (int)f->ep->unread() : f->t == T_UDP && !f->dq.empty() ? (int)f->dq.front().size() : 0; return 0;
  }
  errno = ENOTTY;
  return -1;
}
static int do_fcntl(int fd, int cmd, long arg) {
  File* f = fd_file(fd);
  if (!f) return (int)rawret(raws(SYS_fcntl, fd, cmd, arg));
  switch (cmd) {
    case F_GETFL: return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    case F_SETFL: f->nonblock = arg & O_NONBLOCK; return 0;
    case F_GETFD: return FD_CLOEXEC;
    case F_SETFD: return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: {
      InSim s;
      int n = fd_alloc(f);
      if (n >= 0) f->refs++;
      return n;
    }
  }
  return 0;
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int dup(int fd) {
  File* f = fd_file(fd);
  if (!f) return (int)rawret(raws(SYS_dup, fd));
  InSim s;
  return do_fcntl(fd, F_DUPFD, 0);
}

// ---------------------------------------------------------------- data transfer
static ssize_t tcp_recv(File* f, void* p, size_t n, int flags) {
  bool nb = f->nonblock || (flags & MSG_DONTWAIT);
  if (f->connecting == 1) {
    if (nb) { errno = EAGAIN; return -1; }
    block_on([f] { return f->connecting == 2; }, 0);
  }
  if (f->so_error) { errno = f->so_error; f->so_error = 0; return -1; }
  if (!f->ep) { errno = ENOTCONN; return -1; }
  Ep* e = f->ep;
  if (!nb && fault(K_EINTR)) { errno = EINTR; return -1; }
  if (n == 0) return 0;
  if (!e->unread() && !e->fin_rx && !e->rst && !f->shut_rd) {
    if (nb) { errno = EAGAIN; return -1; }
    if (!block_on([f, e] { return e->unread() || e->fin_rx || e->rst || f->shut_rd; }, f->rcvtimeo ? g_now + f->rcvtimeo : 0)) { errno = EAGAIN; return -1; }
  }
  if (e->unread()) {
    size_t k = std::min<u64>(n, e->unread());
    if (k > 1 && fault(K_SHORT_READ)) k = 1 + drawk(K_SHORT_READ, k - 1);
    memcpy(p, e->rx.data() + e->rxo, k);
    if (!(flags & MSG_PEEK)) {
      e->rxo += k;
      if (e->other->is_app) {
        bool full = e->other->inflight >= e->other->cap;
        e->other->inflight -= k;
        if (full) ep_out(e->other);
      }
      logf("r %d %zu %llu", e->id, k, (unsigned long long)e->unread());
    }
    return k;
  }
  if (e->rst) {
    if (!e->rst_reported) { e->rst_reported = true; errno = ECONNRESET; logf("re %d", e->id); return -1; }
    return 0;
  }
  logf("r %d 0 0", e->id);
  return 0;
}
static ssize_t tcp_send(File* f, const void* p, size_t n, int flags) {
  bool nb = f->nonblock || (flags & MSG_DONTWAIT);
  if (f->connecting == 1) {
    if (nb) { errno = EAGAIN; return -1; }
    block_on([f] { return f->connecting == 2; }, 0);
  }
  if (f->so_error) { errno = f->so_error; f->so_error = 0; return -1; }
  if (!f->ep) { errno = EPIPE; return -1; }
  Ep* e = f->ep;
  if (!nb && fault(K_EINTR)) { errno = EINTR; return -1; }
  if (f->shut_wr) { errno = EPIPE; return -1; }
  if (n == 0) return 0;
  if (!e->rst && e->srv && fault(K_CONN_RST)) {
    // the remote end dies now: whatever is in flight is lost
    Ep* o = e->other;
    o->closed = true; o->rst = true;
    e->rst = true;
    logf("XRST %d", e->id);
    if (o->actor) o->actor->on_rst(o);
    ep_in(e);
  }
  if (e->rst) {
    if (!e->rst_reported) { e->rst_reported = true; errno = e->fin_rx ? EPIPE : ECONNRESET; logf("we %d %d", e->id, errno); return -1; }
    errno = EPIPE;
    logf("we %d %d", e->id, errno);
    return -1;
  }
  if (e->inflight >= e->cap) {
    if (nb) { errno = EAGAIN; return -1; }
    logf("wblock %d", e->id);
    if (!block_on([e] { return e->inflight < e->cap || e->rst; }, f->sndtimeo ? g_now + f->sndtimeo : 0)) { errno = EAGAIN; logf("we %d %d", e->id, errno); return -1; }
    if (e->rst) { e->rst_reported = true; errno = e->fin_rx ? EPIPE : ECONNRESET; logf("we %d %d", e->id, errno); return -1; }
  }
  size_t total = 0;
  const char* c = (const char*)p;
  for (;;) {
    size_t k = std::min<u64>(n - total, e->cap - e->inflight);
    bool cut = false;
    if (k > 1 && fault(K_SHORT_WRITE)) { k = 1 + drawk(K_SHORT_WRITE, k - 1); cut = true; }
    std::string d(c + total, k);
    e->tx_total += k;
    e->inflight += k;
    char pre[64];
    snprintf(pre, sizeof pre, "w %d %d %llu", e->id, e->port, (unsigned long long)e->connno);
    log_hex(pre, d.data(), d.size());
    at(arrival(e), [e, d] { arrive(e, d); });
    total += k;
    if (total == n || cut || nb) break;
    // a blocking send waits until everything is queued
    if (!block_on([e] { return e->inflight < e->cap || e->rst; }, f->sndtimeo ? g_now + f->sndtimeo : 0) || e->rst) break;
  }
  return total;
}
static ssize_t udp_recv(File* f, void* p, size_t n, int flags, struct sockaddr* a, socklen_t* l) {
  bool nb = f->nonblock || (flags & MSG_DONTWAIT);
  if (!nb && fault(K_EINTR)) { errno = EINTR; return -1; }
  if (!f->dq.empty() && fault(K_UDP_ERR)) {
    static const int errs[] = {ENOMEM, ENOBUFS, EIO};
    errno = errs[drawk(K_UDP_ERR, 3)];
    logf("UERR %d", errno);
    return -1;
  }
  if (f->dq.empty()) {
    if (nb) { errno = EAGAIN; return -1; }
    if (!block_on([f] { return !f->dq.empty(); }, f->rcvtimeo ? g_now + f->rcvtimeo : 0)) { errno = EAGAIN; return -1; }
  }
  std::string d = f->dq.front();
  f->dq.pop_front();
  f->dqbytes -= d.size() + 256;
  size_t k = std::min(n, d.size());
  memcpy(p, d.data(), k);
  put_addr(a, l, f->family, 55555);
  char pre[64];
  snprintf(pre, sizeof pre, "UR %d %zu", f->port, k);
  log_hex(pre, d.data(), d.size());
  return k;
}
static ssize_t file_read(File* f, void* p, size_t n, int flags) {
  switch (f->t) {
    case T_TCP: return tcp_recv(f, p, n, flags);
    case T_UDP: return udp_recv(f, p, n, flags, nullptr, nullptr);
    case T_REG: return vfs_read(f, p, n);
    case T_EVENTFD:
      if (!f->counter) { if (f->nonblock) { errno = EAGAIN; return -1; } block_on([f] { return f->counter > 0; }, 0); }
      memcpy(p, &f->counter, 8); f->counter = 0;
      return 8;
    case T_PIPER: {
      Pipe* q = f->pipe;
      if (q->buf.empty()) {
        if (!q->writers) return 0;
        if (f->nonblock) { errno = EAGAIN; return -1; }
        block_on([q] { return !q->buf.empty() || !q->writers; }, 0);
      }
      size_t k = std::min(n, q->buf.size());
      memcpy(p, q->buf.data(), k);
      q->buf.erase(0, k);
      return k;
    }
    default: errno = f->t == T_SOCK ? ENOTCONN : EINVAL; return -1;
  }
}
static std::vector<File*>* g_pipes;
static ssize_t file_write(File* f, const void* p, size_t n, int flags) {
  switch (f->t) {
    case T_TCP: return tcp_send(f, p, n, flags);
    case T_UDP: return n;
    case T_REG: return vfs_write(f, p, n);
    case T_EVENTFD: { u64 v; memcpy(&v, p, 8); f->counter += v; f->in_seq++; return 8; }
    case T_PIPEW: {
      Pipe* q = f->pipe;
      if (!q->readers) { errno = EPIPE; return -1; }
      if (q->buf.size() >= 65536) { if (f->nonblock) { errno = EAGAIN; return -1; } block_on([q] { return q->buf.size() < 65536 || !q->readers; }, 0); }
      q->buf.append((const char*)p, n);
      for (File* r : *g_pipes) if (r->pipe == q && r->t == T_PIPER) r->in_seq++;
      return n;
    }
    default: errno = f->t == T_SOCK ? EPIPE : EINVAL; return -1;
  }
}
int sim_pipe(int* out, int flags) {
  InSim s;
  if (!g_pipes) g_pipes = new std::vector<File*>();
  Pipe* p = new Pipe();
  File* r = new File(); r->t = T_PIPER; r->pipe = p; r->nonblock = flags & O_NONBLOCK; p->readers = 1;
  File* w = new File(); w->t = T_PIPEW; w->pipe = p; w->nonblock = flags & O_NONBLOCK; p->writers = 1;
  out[0] = fd_alloc(r);
  if (out[0] < 0) return -1;
  out[1] = fd_alloc(w);
  if (out[1] < 0) { (*g_fds)[out[0] - FDBASE] = nullptr; return -1; }
  g_pipes->push_back(r);
  return 0;
}
EXPORT int pipe(int* o) { if (!g_active) return (int)rawret(raws(SYS_pipe, (long)o)); return sim_pipe(o, 0); }
EXPORT int pipe2(int* o, int fl) { if (!g_active) return (int)rawret(raws(SYS_pipe2, (long)o, fl)); return sim_pipe(o, fl); }
EXPORT int eventfd(unsigned v, int fl) {
  InSim s;
  File* f = new File();
  f->t = T_EVENTFD; f->counter = v; f->nonblock = fl & EFD_NONBLOCK;
  return fd_alloc(f);
}
EXPORT ssize_t read(int fd, void* p, size_t n) {
  File* f = fd_file(fd);
  if (!f) return rawret(raws(SYS_read, fd, (long)p, n));
  sched_point('r');
  InSim s;
  return file_read(f, p, n, 0);
}
EXPORT ssize_t __read_chk(int fd, void* p, size_t n, size_t) { return read(fd, p, n); }
EXPORT ssize_t write(int fd, const void* p, size_t n) {
  File* f = fd_file(fd);
  if (!f) {
    if (g_active && (fd == 1 || fd == 2)) {
      if (!g_insim) sched_point('o');
      InSim s;
      log_hex(fd == 1 ? "O1" : "O2", p, n);
      return n;
    }
    return rawret(raws(SYS_write, fd, (long)p, n));
  }
  sched_point('q');
  InSim s;
  return file_write(f, p, n, 0);
}
EXPORT ssize_t readv(int fd, const struct iovec* v, int c) {
  File* f = fd_file(fd);
  if (!f) return rawret(raws(SYS_readv, fd, (long)v, c));
  sched_point('r');
  InSim s;
  size_t tot = 0;
  for (int i = 0; i < c; i++) tot += v[i].iov_len;
  std::string b(tot, 0);
  ssize_t r = file_read(f, &b[0], tot, 0);
  if (r <= 0) return r;
  size_t o = 0;
  for (int i = 0; i < c && o < (size_t)r; i++) { size_t k = std::min<size_t>(v[i].iov_len, r - o); memcpy(v[i].iov_base, b.data() + o, k); o += k; }
  return r;
}
static std::string gather(const struct iovec* v, size_t c) {
  std::string b;
  for (size_t i = 0; i < c; i++) b.append((const char*)v[i].iov_base, v[i].iov_len);
  return b;
}
EXPORT ssize_t writev(int fd, const struct iovec* v, int c) {
  File* f = fd_file(fd);
  if (!f) {
    if (g_active && (fd == 1 || fd == 2)) { InSim s; std::string b = gather(v, c); log_hex(fd == 1 ? "O1" : "O2", b.data(), b.size()); return b.size(); }
    return rawret(raws(SYS_writev, fd, (long)v, c));
  }
  sched_point('q');
  InSim s;
  std::string b = gather(v, c);
  return file_write(f, b.data(), b.size(), 0);
}
EXPORT ssize_t recv(int fd, void* p, size_t n, int fl) {
  GETF(fd);
  sched_point('r');
  InSim s;
  return file_read(f, p, n, fl);
}
EXPORT ssize_t __recv_chk(int fd, void* p, size_t n, size_t, int fl) { return recv(fd, p, n, fl); }
EXPORT ssize_t recvfrom(int fd, void* p, size_t n, int fl, struct sockaddr* a, socklen_t* l) {
  GETF(fd);
  sched_point('r');
  InSim s;
  if (f->t == T_UDP) return udp_recv(f, p, n, fl, a, l);
  return file_read(f, p, n, fl);
}
EXPORT ssize_t __recvfrom_chk(int fd, void* p, size_t n, size_t, int fl, struct sockaddr* a, socklen_t* l) { return recvfrom(fd, p, n, fl, a, l); }
EXPORT ssize_t recvmsg(int fd, struct msghdr* m, int fl) {
  GETF(fd);
  sched_point('r');
  InSim s;
  size_t tot = 0;
  for (size_t i = 0; i < m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
  std::string b(tot, 0);
  ssize_t r = f->t == T_UDP ? udp_recv(f, &b[0], tot, fl, (struct sockaddr*)m->msg_name, &m->msg_namelen) : file_read(f, &b[0], tot, fl);
  m->msg_controllen = 0;
  m->msg_flags = 0;
  if (r <= 0) return r;
  size_t o = 0;
  for (size_t i = 0; i < m->msg_iovlen && o < (size_t)r; i++) { size_t k = std::min<size_t>(m->msg_iov[i].iov_len, r - o); memcpy(m->msg_iov[i].iov_base, b.data() + o, k); o += k; }
  return r;
}
EXPORT ssize_t send(int fd, const void* p, size_t n, int fl) {
  GETF(fd);
  sched_point('q');
  InSim s;
  return file_write(f, p, n, fl);
}
EXPORT ssize_t sendto(int fd, const void* p, size_t n, int fl, const struct sockaddr*, socklen_t) { return send(fd, p, n, fl); }
EXPORT ssize_t sendmsg(int fd, const struct msghdr* m, int fl) {
  GETF(fd);
  sched_point('q');
  InSim s;
  std::string b = gather(m->msg_iov, m->msg_iovlen);
  return file_write(f, b.data(), b.size(), fl);
}
EXPORT int socketpair(int, int, int, int*) { errno = EAFNOSUPPORT; return -1; }

// ---------------------------------------------------------------- names
static bool parse_v4(const char* s, in_addr* a) { return inet_pton(AF_INET, s, a) == 1; }
EXPORT int getaddrinfo(const char* node, const char* service, const struct addrinfo* hints, struct addrinfo** out) {
  sched_point('n');
  InSim s;
  int port = service ? atoi(service) : 0;
  int st = hints ? hints->ai_socktype : 0, fam = hints ? hints->ai_family : AF_UNSPEC;
  if (!st) st = SOCK_STREAM;
  std::vector<int> fams;
  in_addr a4;
  in6_addr a6;
  std::string n = node ? node : "";
  if (n.empty() || parse_v4(n.c_str(), &a4)) fams.push_back(AF_INET);
  else if (inet_pton(AF_INET6, n.c_str(), &a6) == 1) fams.push_back(AF_INET6);
  else if (n == "localhost" || g_dns->count(n)) {
    if (g_dns6) fams.push_back(AF_INET6);
    fams.push_back(AF_INET);
  } else { logf("DNSFAIL %s", n.c_str()); return EAI_NONAME; }
  struct addrinfo *head = nullptr, **tail = &head;
  for (int fm : fams) {
    if (fam != AF_UNSPEC && fam != fm) continue;
    size_t sz = sizeof(addrinfo) + sizeof(sockaddr_in6);
    struct addrinfo* ai = (struct addrinfo*)calloc(1, sz);
    ai->ai_family = fm; ai->ai_socktype = st; ai->ai_protocol = st == SOCK_DGRAM ? IPPROTO_UDP : IPPROTO_TCP;
    ai->ai_addr = (struct sockaddr*)(ai + 1);
    ai->ai_addrlen = sizeof(sockaddr_in6);
    put_addr(ai->ai_addr, &ai->ai_addrlen, fm, port);
    *tail = ai;
    tail = &ai->ai_next;
  }
  if (!head) return EAI_NONAME;
  *out = head;
  return 0;
}
EXPORT void freeaddrinfo(struct addrinfo* a) {
  InSim s;
  while (a) { struct addrinfo* n = a->ai_next; free(a); a = n; }
}
EXPORT int getnameinfo(const struct sockaddr* a, socklen_t, char* host, socklen_t hl, char* serv, socklen_t sl, int) {
  if (host && hl) snprintf(host, hl, "%s", a->sa_family == AF_INET6 ? "::1" : "127.0.0.1");
  if (serv && sl) snprintf(serv, sl, "%d", sa_port(a));
  return 0;
}
EXPORT int gethostname(char* b, size_t n) { snprintf(b, n, "simhost"); return 0; }
