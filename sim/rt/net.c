// Simulated TCP (included by rt.c): sockets, epoll and eventfd of the simulated process live here and never reach the kernel.
// Delays, short reads and writes, refused and lost connections, cuts and partitions are choices of the workload streams.
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/uio.h>

#define NFD 0x100000
#define NMAX 512
#define REGS 64
enum { N_FREE, N_SOCK, N_LISTEN, N_STREAM, N_EPOLL, N_EVENT };
enum { G_DATA, G_FIN, G_RST };
struct seg { struct seg *next; uint64_t at; int kind; uint32_t n, off; char d[]; };
struct nobj;
struct nreg { int fd; struct nobj *o; uint32_t ev; uint64_t data, sin, sout; };
struct nobj {
  int kind, refs, nonblock, port, pport, server;
  // stream
  struct nobj *peer;
  struct seg *head, *tail;
  uint64_t consumed, unread, last_at, freed;
  int fin_sent, broken, full, closed;
  uint64_t conn_at; int conn_err, connecting;
  // listener
  struct nobj *q[64]; uint64_t qat[64]; int qh, qn, down; uint64_t qtotal;
  // eventfd
  uint64_t cnt, writes;
  // epoll
  struct nreg r[REGS]; int nr, rot;
};
static struct nobj *fds[NMAX];
static struct nobj *objs[NMAX]; static int nobjs;
static struct sim_net NC;
static int partitioned;
static int nextport = 40000;

static struct nobj *nget(int fd) { return active && me && fd >= NFD && fd < NFD + NMAX ? fds[fd - NFD] : NULL; }
static int isours(int fd) { return fd >= NFD && fd < NFD + NMAX; }
static int nalloc(struct nobj *o) {
  for (int i = 0; i < NMAX; i++) if (!fds[i]) { fds[i] = o; o->refs++; return NFD + i; }
  internal("too many descriptors"); return -1;
}
static struct nobj *nnew(int kind) {
  struct nobj *o = calloc(1, sizeof *o);
  o->kind = kind; o->conn_at = NEVER;
  if (nobjs >= NMAX) internal("too many sockets");
  objs[nobjs++] = o; // never freed: a run is short
  return o;
}
static void net_wake(void) {
  for (int i = 0; i < nT; i++) if (T[i].state == BLOCKED && T[i].why == B_NET) make_runnable(&T[i], 0);
}
static void net_block(uint64_t dl, uintptr_t site) {
  me->state = BLOCKED; me->why = B_NET; me->deadline = NEVER;
  if (dl != NEVER) set_deadline(me, dl);
  block(site);
  me->timed_out = 0;
}
#define NS 63
static int roll(uint32_t n) { return n && sim_choose(NS, n) == n - 1; }
static uint64_t delay(void) {
  if (!NC.max_delay_us || !roll(NC.p_delay)) return 0;
  cnt("fault.net_delay");
  return 1000ull * (1 + sim_choose(NS, NC.max_delay_us));
}
static int earr(struct seg *s) { return s->at <= vnow; }
static void push(struct nobj *to, int kind, const void *d, uint32_t n) {
  struct seg *s = malloc(sizeof *s + n);
  s->next = NULL; s->kind = kind; s->n = n; s->off = 0;
  if (n) memcpy(s->d, d, n);
  uint64_t at = vnow + (kind == G_RST ? 0 : delay());
  if (partitioned) at = NEVER;
  else if (to->last_at != NEVER && at < to->last_at) at = to->last_at;
  else if (to->last_at == NEVER) at = NEVER;
  s->at = at; to->last_at = at;
  if (to->tail) to->tail->next = s; else to->head = s;
  to->tail = s; to->unread += n;
  net_wake();
}
static int arrived_kind(struct nobj *o, int kind) {
  for (struct seg *s = o->head; s && earr(s); s = s->next) if (s->kind == kind) return 1;
  return 0;
}
static uint64_t narrived(struct nobj *o) {
  uint64_t n = o->consumed;
  for (struct seg *s = o->head; s && earr(s); s = s->next) n++;
  return n;
}
static uint64_t next_at(struct nobj *o) {
  if (o->kind == N_SOCK) return o->connecting && o->conn_at > vnow ? o->conn_at : NEVER;
  if (o->kind == N_STREAM) {
    uint64_t b = o->connecting && o->conn_at > vnow ? o->conn_at : NEVER;
    for (struct seg *s = o->head; s; s = s->next) if (!earr(s)) return s->at < b ? s->at : b;
    return b;
  }
  if (o->kind == N_LISTEN) for (int i = 0; i < o->qn; i++) { uint64_t a = o->qat[(o->qh + i) % 64]; if (a > vnow) return a; }
  return NEVER;
}
static uint32_t space(struct nobj *o) { // bytes o may send
  uint32_t cap = NC.cap ? NC.cap : 1 << 16;
  return o->peer->unread >= cap ? 0 : cap - o->peer->unread;
}
static int connected(struct nobj *o) { return o->kind == N_STREAM && (!o->connecting || (o->conn_at <= vnow && !o->conn_err)); }
static uint32_t events(struct nobj *o, uint64_t *gi, uint64_t *go) {
  uint32_t e = 0; *gi = *go = 0;
  switch (o->kind) {
  case N_STREAM:
    if (!connected(o)) {
      if (o->conn_at <= vnow) { *gi = *go = 1; return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP; }
      return 0;
    }
    *gi = narrived(o) + 1; *go = o->freed + 1;
    if (o->broken || arrived_kind(o, G_RST)) { *go += 1; return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP; }
    if (o->head && earr(o->head)) e |= EPOLLIN;
    if (arrived_kind(o, G_FIN)) { e |= EPOLLIN | EPOLLRDHUP; if (o->fin_sent) e |= EPOLLHUP; }
    if (space(o) || o->fin_sent) e |= EPOLLOUT; else o->full = 1;
    return e;
  case N_SOCK: return 0;
  case N_LISTEN: {
    uint64_t n = o->qtotal - o->qn;
    for (int i = 0; i < o->qn; i++) if (o->qat[(o->qh + i) % 64] <= vnow) n++;
    *gi = n;
    return o->qn && o->qat[o->qh] <= vnow ? EPOLLIN : 0;
  }
  case N_EVENT: *gi = o->writes; *go = 1; return (o->cnt ? EPOLLIN : 0) | EPOLLOUT;
  }
  return 0;
}
static ssize_t nrecv(struct nobj *o, void *b, size_t n, int peek, uintptr_t site) {
  for (;;) {
    if (o->kind == N_SOCK || !connected(o)) {
      if (o->kind == N_STREAM && o->conn_at <= vnow) { errno = o->conn_err; return -1; }
      if (o->kind == N_SOCK) { errno = ENOTCONN; return -1; }
    } else {
      if (o->broken) { errno = ECONNRESET; return -1; }
      struct seg *s = o->head;
      if (s && earr(s)) {
        if (s->kind == G_RST) { o->broken = 1; errno = ECONNRESET; return -1; }
        if (s->kind == G_FIN) return 0;
        size_t k = 0;
        for (struct seg *x = s; x && earr(x) && x->kind == G_DATA && k < n;) {
          size_t c = x->n - x->off; if (c > n - k) c = n - k;
          memcpy((char *)b + k, x->d + x->off, c); k += c;
          struct seg *nx = x->next;
          if (!peek) {
            x->off += c; o->unread -= c;
            if (x->off == x->n) { o->consumed++; o->head = nx; if (!nx) o->tail = NULL; free(x); }
          }
          x = nx;
        }
        if (!peek && o->peer && o->peer->full && space(o->peer)) { o->peer->full = 0; o->peer->freed++; net_wake(); }
        return k;
      }
    }
    if (o->nonblock) { errno = EAGAIN; return -1; }
    net_block(next_at(o), site);
  }
}
static void nreset(struct nobj *o) { // both ends are told
  if (!o->peer || o->broken) return;
  push(o->peer, G_RST, NULL, 0); push(o, G_RST, NULL, 0);
}
static ssize_t nsend(struct nobj *o, const void *b, size_t n, uintptr_t site) {
  for (;;) {
    if (o->kind == N_SOCK) { errno = ENOTCONN; return -1; }
    if (!connected(o)) {
      if (o->conn_at <= vnow) { errno = o->conn_err; return -1; }
    } else {
      if (o->fin_sent) { errno = EPIPE; return -1; }
      if (o->broken || arrived_kind(o, G_RST)) { errno = o->broken ? EPIPE : ECONNRESET; o->broken = 1; return -1; }
      if (o->peer->closed) { push(o, G_RST, NULL, 0); return n; } // the answer to data for a closed socket
      uint32_t sp = space(o);
      if (sp) {
        if (n > sp) n = sp;
        if (roll(NC.p_cut)) {
          uint32_t k = sim_choose(NS, n + 1); cnt("fault.net_cut");
          trf("net: cut after %u of %lu bytes to %d", k, (unsigned long)n, o->pport);
          if (k) push(o->peer, G_DATA, b, k);
          nreset(o);
          return n;
        }
        if (n > 1 && roll(NC.p_split)) { // arrives in two pieces
          uint32_t k = 1 + sim_choose(NS, n - 1); cnt("fault.net_split");
          push(o->peer, G_DATA, b, k);
          if (o->peer->last_at != NEVER) o->peer->last_at += 1 + sim_choose(NS, 100000);
          push(o->peer, G_DATA, (const char *)b + k, n - k);
        } else push(o->peer, G_DATA, b, n);
        return n;
      }
      o->full = 1;
    }
    if (o->nonblock) { errno = EAGAIN; return -1; }
    net_block(next_at(o), site);
  }
}
static void nclose(int fd) {
  struct nobj *o = fds[fd - NFD];
  fds[fd - NFD] = NULL;
  for (int i = 0; i < nobjs; i++) {
    struct nobj *e = objs[i];
    if (e->kind != N_EPOLL) continue;
    for (int k = 0; k < e->nr; k++) if (e->r[k].fd == fd) e->r[k--] = e->r[--e->nr];
  }
  if (--o->refs) return;
  o->closed = 1;
  if (o->kind == N_STREAM && o->peer && !o->broken) {
    if (o->unread && !o->connecting) push(o->peer, G_RST, NULL, 0);
    else if (!o->fin_sent) push(o->peer, G_FIN, NULL, 0);
    o->fin_sent = 1;
    // nobody reads any more
    for (struct seg *s = o->head; s; s = s->next) if (s->kind == G_DATA) o->unread -= s->n - s->off;
    o->head = o->tail = NULL;
  }
  if (o->kind == N_LISTEN) { o->down = 1; for (int i = 0; i < o->qn; i++) nreset(o->q[(o->qh + i) % 64]); o->port = 0; }
  net_wake();
}
// harness controls
void sim_net_config(const struct sim_net *c) { NC = *c; }
void sim_net_partition(int on) {
  if (on == partitioned) return;
  partitioned = on;
  trf("net: %s", on ? "partitioned" : "healed");
  if (on) cnt("fault.net_partition");
  else {
    for (int i = 0; i < nobjs; i++) {
      struct nobj *o = objs[i];
      for (struct seg *s = o->head; s; s = s->next) if (s->at == NEVER) s->at = vnow;
      if (o->last_at == NEVER) o->last_at = vnow;
      if (o->kind == N_STREAM && o->connecting && o->conn_at == NEVER) o->conn_at = vnow;
      if (o->kind == N_LISTEN) for (int k = 0; k < o->qn; k++) if (o->qat[(o->qh + k) % 64] == NEVER) o->qat[(o->qh + k) % 64] = vnow;
    }
    net_wake();
  }
}
void sim_net_crash(int port, int down) { // all connections of a server are reset, and new ones refused while it is down
  trf("net: port %d %s", port, down == 2 ? "connections reset" : down ? "down" : "up");
  for (int i = 0; i < nobjs; i++) {
    struct nobj *o = objs[i];
    if (o->kind == N_LISTEN && o->port == port && down != 2) o->down = down;
    if (down && o->kind == N_STREAM && o->server && o->port == port && o->refs) nreset(o);
  }
  if (down) cnt(down == 2 ? "fault.net_reset" : "fault.net_server_down");
}
static void addr_fill(struct sockaddr *a, socklen_t *l, int port) {
  if (!a || !l) return;
  struct sockaddr_in x = {.sin_family = AF_INET, .sin_port = htons(port), .sin_addr = {htonl(0x7f000001)}};
  memcpy(a, &x, *l < sizeof x ? *l : sizeof x); *l = sizeof x;
}
#define RET(x) do { long r_ = (x); if (r_ < 0) { errno = -r_; return -1; } return r_; } while (0)
int socket(int d, int t, int p) {
  if (!active || !me) RET(raw(SYS_socket, d, t, p, 0, 0, 0));
  if ((t & 0xf) != SOCK_STREAM || d != AF_INET) { errno = EAFNOSUPPORT; return -1; }
  struct nobj *o = nnew(N_SOCK); o->nonblock = !!(t & SOCK_NONBLOCK);
  return nalloc(o);
}
int bind(int fd, const struct sockaddr *a, socklen_t l) {
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_bind, fd, (long)a, l, 0, 0, 0));
  o->port = ntohs(((const struct sockaddr_in *)a)->sin_port);
  return 0;
}
int listen(int fd, int b) {
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_listen, fd, b, 0, 0, 0, 0));
  o->kind = N_LISTEN; if (!o->port) o->port = nextport++;
  return 0;
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_connect, fd, (long)a, l, 0, 0, 0));
  point_at(SITE);
  if (o->kind == N_STREAM) { errno = EISCONN; return -1; }
  int port = ntohs(((const struct sockaddr_in *)a)->sin_port);
  struct nobj *ls = NULL;
  for (int i = 0; i < nobjs; i++) if (objs[i]->kind == N_LISTEN && objs[i]->refs && objs[i]->port == port && !objs[i]->down) ls = objs[i];
  o->kind = N_STREAM; o->port = nextport++; o->pport = port; o->connecting = 1;
  o->conn_at = vnow + delay();
  if (!ls || ls->qn >= 64) { o->conn_err = ECONNREFUSED; cnt("fault.net_refused"); }
  else if (roll(NC.p_refuse)) { o->conn_err = ECONNREFUSED; cnt("fault.net_refused"); }
  else if (roll(NC.p_lost)) { o->conn_err = ETIMEDOUT; o->conn_at = vnow + 127 * SEC; cnt("fault.net_connect_lost"); }
  else {
    struct nobj *s = nnew(N_STREAM);
    s->server = 1; s->port = port; s->pport = o->port; s->peer = o; o->peer = s;
    if (partitioned) o->conn_at = NEVER;
    ls->q[(ls->qh + ls->qn) % 64] = s; ls->qat[(ls->qh + ls->qn) % 64] = o->conn_at; ls->qn++; ls->qtotal++;
  }
  trf("net: connect to %d from %d%s", port, o->port, o->conn_err ? " will fail" : "");
  net_wake();
  if (o->nonblock) { errno = EINPROGRESS; return -1; }
  while (o->conn_at > vnow) net_block(o->conn_at, SITE);
  if (o->conn_err) { errno = o->conn_err; return -1; }
  return 0;
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_accept4, fd, (long)a, (long)l, fl, 0, 0));
  point_at(SITE);
  while (!o->qn || o->qat[o->qh] > vnow) {
    if (o->nonblock) { errno = EAGAIN; return -1; }
    net_block(next_at(o), SITE);
  }
  struct nobj *s = o->q[o->qh]; o->qh = (o->qh + 1) % 64; o->qn--;
  s->nonblock = !!(fl & SOCK_NONBLOCK);
  addr_fill(a, l, s->pport);
  return nalloc(s);
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
int getsockname(int fd, struct sockaddr *a, socklen_t *l) {
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_getsockname, fd, (long)a, (long)l, 0, 0, 0));
  addr_fill(a, l, o->port); return 0;
}
int getpeername(int fd, struct sockaddr *a, socklen_t *l) {
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_getpeername, fd, (long)a, (long)l, 0, 0, 0));
  if (o->kind != N_STREAM || !connected(o) || o->broken) { errno = ENOTCONN; return -1; }
  addr_fill(a, l, o->pport); return 0;
}
int getsockopt(int fd, int lv, int n, void *v, socklen_t *l) {
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_getsockopt, fd, lv, n, (long)v, (long)l, 0));
  memset(v, 0, *l);
  if (lv == SOL_SOCKET && n == SO_ERROR && *l >= 4) {
    int e = 0;
    if (o->kind == N_STREAM && o->connecting && o->conn_at <= vnow) e = o->conn_err;
    else if (o->kind == N_STREAM && !o->broken && arrived_kind(o, G_RST)) e = ECONNRESET;
    memcpy(v, &e, 4);
  }
  return 0;
}
int setsockopt(int fd, int lv, int n, const void *v, socklen_t l) {
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_setsockopt, fd, lv, n, (long)v, l, 0));
  return 0;
}
ssize_t recv(int fd, void *b, size_t n, int fl) {
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_recvfrom, fd, (long)b, n, fl, 0, 0));
  point_at(SITE);
  return nrecv(o, b, n, !!(fl & MSG_PEEK), SITE);
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_sendto, fd, (long)b, n, fl, 0, 0));
  point_at(SITE);
  return nsend(o, b, n, SITE);
}
ssize_t read(int fd, void *b, size_t n) {
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_read, fd, (long)b, n, 0, 0, 0));
  point_at(SITE);
  if (o->kind != N_EVENT) return nrecv(o, b, n, 0, SITE);
  while (!o->cnt) {
    if (o->nonblock) { errno = EAGAIN; return -1; }
    net_block(NEVER, SITE);
  }
  memcpy(b, &o->cnt, 8); o->cnt = 0; return 8;
}
ssize_t write(int fd, const void *b, size_t n) {
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_write, fd, (long)b, n, 0, 0, 0));
  point_at(SITE);
  if (o->kind != N_EVENT) return nsend(o, b, n, SITE);
  uint64_t v; memcpy(&v, b, 8); o->cnt += v; o->writes++;
  net_wake();
  return 8;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_writev, fd, (long)v, c, 0, 0, 0));
  point_at(SITE);
  size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
  char *b = malloc(n + 1); n = 0;
  for (int i = 0; i < c; i++) { memcpy(b + n, v[i].iov_base, v[i].iov_len); n += v[i].iov_len; }
  ssize_t r = nsend(o, b, n, SITE);
  int e = errno; free(b); errno = e;
  return r;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_readv, fd, (long)v, c, 0, 0, 0));
  point_at(SITE);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return nrecv(o, v[i].iov_base, v[i].iov_len, 0, SITE);
  return 0;
}
int shutdown(int fd, int how) {
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_shutdown, fd, how, 0, 0, 0, 0));
  point_at(SITE);
  if (o->kind != N_STREAM || !connected(o) || o->broken) { errno = ENOTCONN; return -1; }
  if (how != SHUT_RD && !o->fin_sent) { push(o->peer, G_FIN, NULL, 0); o->fin_sent = 1; }
  return 0;
}
int close(int fd) {
  if (active && me && isours(fd)) {
    if (!nget(fd)) { errno = EBADF; return -1; }
    point_at(SITE);
    nclose(fd); return 0;
  }
  RET(raw(SYS_close, fd, 0, 0, 0, 0, 0));
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_fcntl, fd, cmd, a, 0, 0, 0));
  switch (cmd) {
  case F_DUPFD: case F_DUPFD_CLOEXEC: return nalloc(o);
  case F_GETFL: return O_RDWR | (o->nonblock ? O_NONBLOCK : 0);
  case F_SETFL: o->nonblock = !!(a & O_NONBLOCK); return 0;
  default: return 0;
  }
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); long a = va_arg(ap, long); va_end(ap);
  struct nobj *o = nget(fd); if (!o) RET(raw(SYS_ioctl, fd, req, a, 0, 0, 0));
  if (req == FIONBIO) o->nonblock = *(int *)a;
  return 0;
}
int eventfd(unsigned v, int fl) {
  if (!active || !me) RET(raw(SYS_eventfd2, v, fl, 0, 0, 0, 0));
  struct nobj *o = nnew(N_EVENT); o->cnt = v; o->nonblock = !!(fl & EFD_NONBLOCK);
  return nalloc(o);
}
int epoll_create1(int fl) {
  if (!active || !me) RET(raw(SYS_epoll_create1, fl, 0, 0, 0, 0, 0));
  return nalloc(nnew(N_EPOLL));
}
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
  struct nobj *e = nget(ep); if (!e) RET(raw(SYS_epoll_ctl, ep, op, fd, (long)ev, 0, 0));
  struct nobj *o = nget(fd);
  if (!o) { errno = EBADF; return -1; }
  int k = 0; while (k < e->nr && e->r[k].fd != fd) k++;
  if (op == EPOLL_CTL_DEL) {
    if (k == e->nr) { errno = ENOENT; return -1; }
    e->r[k] = e->r[--e->nr]; return 0;
  }
  if (op == EPOLL_CTL_ADD) { if (k < e->nr) { errno = EEXIST; return -1; } if (e->nr == REGS) internal("epoll full"); e->nr++; }
  else if (k == e->nr) { errno = ENOENT; return -1; }
  e->r[k] = (struct nreg){fd, o, ev->events, ev->data.u64, NEVER, NEVER};
  net_wake();
  return 0;
}
int epoll_wait(int ep, struct epoll_event *out, int max, int to) {
  struct nobj *e = nget(ep); if (!e) RET(raw(SYS_epoll_wait, ep, (long)out, max, to, 0, 0));
  uint64_t dl = to < 0 ? NEVER : vnow + (uint64_t)to * 1000000;
  point_at(SITE);
  for (;;) {
    int n = 0; uint64_t nx = dl;
    int start = e->nr ? e->rot++ % e->nr : 0;
    for (int k = 0; k < e->nr; k++) {
      struct nreg *r = &e->r[(start + k) % e->nr];
      uint64_t gi, go;
      uint32_t x = events(r->o, &gi, &go) & (r->ev | EPOLLERR | EPOLLHUP);
      int edge = !(r->ev & EPOLLET) || ((x & ~EPOLLOUT) && gi != r->sin) || ((x & (EPOLLOUT | EPOLLERR)) && go != r->sout);
      if (x && edge && n < max) { out[n].events = x; out[n].data.u64 = r->data; n++; r->sin = gi; r->sout = go; }
      uint64_t a = next_at(r->o); if (a < nx) nx = a;
    }
    if (n || vnow >= dl) return n;
    net_block(nx, SITE);
  }
}
int poll(struct pollfd *p, nfds_t np, int to) {
  if (!np || !nget(p[0].fd)) {
    if (active && me && !np) { sleep_until(vnow + (uint64_t)to * 1000000, SITE); return 0; }
    RET(raw(SYS_poll, (long)p, np, to, 0, 0, 0));
  }
  uint64_t dl = to < 0 ? NEVER : vnow + (uint64_t)to * 1000000;
  point_at(SITE);
  for (;;) {
    int n = 0; uint64_t nx = dl;
    for (nfds_t i = 0; i < np; i++) {
      struct nobj *o = nget(p[i].fd); uint64_t gi, go;
      p[i].revents = 0; if (!o) continue;
      p[i].revents = events(o, &gi, &go) & (p[i].events | POLLERR | POLLHUP);
      if (p[i].revents) n++;
      uint64_t a = next_at(o); if (a < nx) nx = a;
    }
    if (n || vnow >= dl) return n;
    net_block(nx, SITE);
  }
}
static void net_start(void) {
  memset(fds, 0, sizeof fds); memset(&NC, 0, sizeof NC); nobjs = 0; partitioned = 0; nextport = 40000;
}
