// Simulated network: TCP streams with latency, windows, FIN/RST; UDP datagrams with loss,
// duplication and reordering; name resolution.
#include "desc.h"
#include "raw.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim {
template <typename F> static F next(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
namespace net { uint32_t sndbuf = 65536; bool die_on_sigpipe = true; bool strict_peer_close = true; uint64_t bytes_moved = 0; }

struct addr { int family = AF_INET; unsigned char ip[16] = {}; int port = 0;
    bool any() const { for (int i = 0; i < 16; i++) if (ip[i]) return false; return true; }
    bool operator==(const addr& o) const { return family == o.family && port == o.port && !memcmp(ip, o.ip, 16); } };
struct dgram { std::string data; addr from; };
struct sock : std::enable_shared_from_this<sock> {
    uint64_t id = 0;
    int type = SOCK_STREAM, family = AF_INET;
    addr local, remote; bool bound = false, connected = false, listening = false, closed = false, reuse = false;
    // stream
    std::weak_ptr<sock> peer;
    std::deque<std::shared_ptr<sock>> pending; int backlog = 0;
    std::string rx; size_t rx_off = 0;
    bool fin_rx = false, wr_shut = false, rd_shut = false, was_stream_end = false;
    int err = 0; bool dead = false;            // dead: reset
    // outgoing direction
    int64_t last_delivery = 0; size_t inflight = 0; uint64_t epoch = 0; bool fin_sent = false;
    int64_t rcvtimeo = 0, sndtimeo = 0; bool linger0 = false;
    // datagram
    std::deque<dgram> dq;
    size_t avail() const { return rx.size() - rx_off; }
    uint64_t key(int k) const { return mix(id * 16 + k + 0x5000000); }
};
enum { K_RX = 1, K_TX = 2, K_ACC = 3 };
static uint64_t sock_seq = 0;
static std::vector<std::weak_ptr<sock>>* all_socks;
static int next_port = 40000;
static std::map<int, int64_t>* time_wait;
static std::vector<std::weak_ptr<sock>>& all() { if (!all_socks) all_socks = new std::vector<std::weak_ptr<sock>>(); return *all_socks; }

static bool from_sa(const sockaddr* sa, socklen_t len, addr& a) {
    if (len < sizeof(sa_family_t)) return false;
    a = addr(); a.family = sa->sa_family;
    if (sa->sa_family == AF_INET) { if (len < sizeof(sockaddr_in)) return false; auto* i = (const sockaddr_in*)sa; memcpy(a.ip, &i->sin_addr, 4); a.port = ntohs(i->sin_port); return true; }
    if (sa->sa_family == AF_INET6) { if (len < 24) return false; auto* i = (const sockaddr_in6*)sa; memcpy(a.ip, &i->sin6_addr, 16); a.port = ntohs(i->sin6_port); return true; }
    return false;
}
static void to_sa(const addr& a, void* out, unsigned* len) {
    sockaddr_in6 b6; sockaddr_in b4; const void* src; unsigned n;
    if (a.family == AF_INET) { memset(&b4, 0, sizeof b4); b4.sin_family = AF_INET; b4.sin_port = htons(a.port); memcpy(&b4.sin_addr, a.ip, 4); src = &b4; n = sizeof b4; }
    else { memset(&b6, 0, sizeof b6); b6.sin6_family = AF_INET6; b6.sin6_port = htons(a.port); memcpy(&b6.sin6_addr, a.ip, 16); src = &b6; n = sizeof b6; }
    memcpy(out, src, std::min(*len, n));
    *len = n;
}
static addr loopback(int family, int port) { addr a; a.family = family; a.port = port; if (family == AF_INET) { a.ip[0] = 127; a.ip[3] = 1; } else a.ip[15] = 1; return a; }
static std::shared_ptr<sock> new_sock(int family, int type) {
    auto s = std::make_shared<sock>();
    s->id = ++sock_seq; s->family = family; s->type = type;
    all().push_back(s);
    return s;
}
static int sock_fd(std::shared_ptr<sock> s) { int fd = alloc_fd(); desc d; d.kind = desc::SOCK; d.s = s; d.path = "socket"; fds()[fd] = d; return fd; }
static bool matches(const sock* s, const addr& a) { return s->bound && !s->closed && s->local.family == a.family && s->local.port == a.port && (s->local.any() || !memcmp(s->local.ip, a.ip, 16)); }
static std::shared_ptr<sock> find_bound(int type, const addr& a, bool listening) {
    for (auto& w : all()) { auto s = w.lock(); if (s && s->type == type && matches(s.get(), a) && (!listening || s->listening)) return s; }
    return nullptr;
}
static int64_t latency() {
    int64_t d = 20000 + (int64_t)choose(64, "net.lat") * 2000;
    if (fault(F_NET_DELAY)) { d += (int64_t)pick(1, 300, "net.delay.ms") * 1000000; if (chance(100, "net.delay.long")) d *= 20; }
    return d;
}
static void wake_all(sock* s) { wake(s->key(K_RX)); wake(s->key(K_TX)); wake(s->key(K_ACC)); }
// The connection ends for s with an error.
static void reset_end(sock* s, int e) {
    if (s->dead || s->closed) return;
    s->dead = true; s->err = e;
    s->epoch++; s->inflight = 0;
    wake_all(s);
    evh("rst", s->id);
}
static void reset_both(sock* s) {
    auto p = s->peer.lock();
    if (p) { p->epoch++; reset_end(p.get(), p->fin_rx ? EPIPE : ECONNRESET); }
    s->epoch++;
    reset_end(s, ECONNRESET);
}
static void deliver(std::shared_ptr<sock> from, std::string data, bool fin) {
    auto to = from->peer.lock();
    uint64_t ep = from->epoch;
    int64_t t = std::max(from->last_delivery + 1, now() + latency());
    from->last_delivery = t;
    size_t n = data.size();
    from->inflight += n;
    at(t, [from, to, data, fin, ep, n]() {
        if (from->epoch != ep) return;
        from->inflight -= n;
        if (!to || to->dead) { wake(from->key(K_TX)); return; }
        if (to->closed) {
            if (n) { // data for a socket that is gone: its kernel answers with a reset
                at(now() + 30000, [from]() { reset_end(from.get(), from->fin_rx ? EPIPE : ECONNRESET); });
            }
            wake(from->key(K_TX));
            return;
        }
        if (n) { if (to->rx_off) { to->rx.erase(0, to->rx_off); to->rx_off = 0; } to->rx += data; net::bytes_moved += n; evh("rx", to->id, n); }
        if (fin) { to->fin_rx = true; evh("fin", to->id); }
        wake(to->key(K_RX)); wake(from->key(K_TX));
    });
}
static int sigpipe(int flags) {
    if (flags & MSG_NOSIGNAL) return -EPIPE;
    struct ksa { void (*h)(int); unsigned long f; void* r; unsigned long m; } sa{};
    raw(SYS_rt_sigaction, SIGPIPE, 0, (long)&sa, 8);
    if (sa.h == SIG_IGN) return -EPIPE;
    unsigned long mask = 0;
    raw(SYS_rt_sigprocmask, SIG_BLOCK, 0, (long)&mask, 8);
    if (mask & (1ul << (SIGPIPE - 1))) return -EPIPE;
    if (net::die_on_sigpipe) violation("sigpipe", "the process is killed by SIGPIPE: a write on a connection that the peer has closed");
    return -EPIPE;
}
static bool nonblocking(int fd_flags) { return fd_flags & O_NONBLOCK; }

ssize_t net_recv(sock* sp, void* b, size_t n, int flags, void* from, unsigned* alen) {
    auto s = sp->shared_from_this();
    enter_syscall("recv");
    if (flags & MSG_OOB) return -EINVAL;
    if (fault(F_EINTR)) return -EINTR;
    int64_t dl = s->rcvtimeo ? now() + s->rcvtimeo : -1;
    if (s->type == SOCK_DGRAM) {
        for (;;) {
            if (!s->dq.empty()) {
                dgram d = s->dq.front();
                if (!(flags & MSG_PEEK)) s->dq.pop_front();
                size_t k = std::min(n, d.data.size());
                memcpy(b, d.data.data(), k);
                if (from && alen) to_sa(d.from, from, alen);
                evh("recvfrom", s->id, k);
                return (flags & MSG_TRUNC) ? d.data.size() : k;
            }
            if (s->rd_shut || s->closed) return 0;
            if (s->err) { int e = s->err; s->err = 0; return -e; }
            if (flags & MSG_DONTWAIT) return -EAGAIN;
            if (!block(s->key(K_RX), dl, "recvfrom")) return -EAGAIN;
        }
    }
    if (!s->connected && !s->dead) return -ENOTCONN;
    if (!s->dead && fault(F_RESET)) { reset_both(s.get()); }
    for (;;) {
        if (s->closed) return -EBADF;
        if (s->avail()) {
            size_t k = std::min(n, s->avail());
            if (k > 1 && fault(F_SHORT_RECV)) k = 1 + choose((uint32_t)(k - 1), "short.recv");
            if (flags & MSG_WAITALL && k < n && !s->fin_rx && !s->dead && !s->rd_shut) { if (!block(s->key(K_RX), dl, "recv")) {} else continue; }
            memcpy(b, s->rx.data() + s->rx_off, k);
            if (!(flags & MSG_PEEK)) { s->rx_off += k; if (s->rx_off == s->rx.size()) { s->rx.clear(); s->rx_off = 0; } auto p = s->peer.lock(); if (p) wake(p->key(K_TX)); }
            evh("recv", s->id, k);
            return k;
        }
        if (s->err) { int e = s->err; s->err = 0; return e == EPIPE ? 0 : -e; }
        if (s->dead || s->fin_rx || s->rd_shut) return 0;
        if (n == 0) return 0;
        if (flags & MSG_DONTWAIT) return -EAGAIN;
        if (!block(s->key(K_RX), dl, "recv")) return -EAGAIN;
    }
}
static void send_dgram(std::shared_ptr<sock> s, const std::string& data, const addr& to) {
    addr from = s->local;
    if (from.any()) { addr l = loopback(s->family, from.port); from = l; }
    if (fault(F_DGRAM_LOSS)) return;
    int copies = fault(F_DGRAM_DUP) ? 2 : 1;
    for (int i = 0; i < copies; i++) {
        int64_t t = now() + latency();
        if (fault(F_DGRAM_REORDER)) t += (int64_t)pick(1, 500, "dgram.reorder") * 10000;
        else { t = std::max(t, s->last_delivery + 1); s->last_delivery = t; }
        at(t, [data, from, to, s]() {
            auto d = find_bound(SOCK_DGRAM, to, false);
            if (!d) { if (s->connected && !s->closed) { s->err = ECONNREFUSED; wake(s->key(K_RX)); } return; }
            if (d->connected && !(d->remote == from)) return;
            d->dq.push_back({data, from});
            evh("dgram", d->id, data.size());
            wake_one_random(d->key(K_RX));
        });
    }
}
static void autobind(sock* s) { if (!s->bound) { s->local = addr(); s->local.family = s->family; s->local.port = next_port++; s->bound = true; } }
ssize_t net_send(sock* sp, const void* b, size_t n, int flags, const void* to, unsigned tolen) {
    auto s = sp->shared_from_this();
    enter_syscall("send");
    if (fault(F_EINTR)) return -EINTR;
    if (s->type == SOCK_DGRAM) {
        addr a;
        if (to) { if (!from_sa((const sockaddr*)to, tolen, a)) return -EINVAL; if (a.family != s->family) return -EAFNOSUPPORT; }
        else { if (!s->connected) return -EDESTADDRREQ; a = s->remote; }
        if (n > 65507) return -EMSGSIZE;
        if (s->err) { int e = s->err; s->err = 0; return -e; }
        autobind(s.get());
        if (a.any()) a = loopback(a.family, a.port);
        send_dgram(s, std::string((const char*)b, n), a);
        evh("sendto", s->id, n);
        return n;
    }
    if (!s->connected && !s->dead) return s->type == SOCK_STREAM ? (flags & MSG_NOSIGNAL ? -EPIPE : sigpipe(flags)) : -ENOTCONN;
    if (!s->dead && fault(F_RESET)) reset_both(s.get());
    size_t want = n;
    if (n > 1 && fault(F_SHORT_SEND)) want = 1 + choose((uint32_t)std::min<size_t>(n - 1, 1u << 30), "short.send");
    size_t done = 0;
    int64_t dl = s->sndtimeo ? now() + s->sndtimeo : -1;
    for (;;) {
        if (s->closed) return -EBADF;
        if (s->dead || s->wr_shut) {
            if (done) return done;
            if (s->err && s->err != EPIPE) { int e = s->err; s->err = 0; return -e; }
            s->err = 0;
            return sigpipe(flags);
        }
        if (done >= want) { evh("send", s->id, done, hash64(b, done)); return done; }
        auto p = s->peer.lock();
        size_t used = s->inflight + (p && !p->closed ? p->avail() : 0);
        if (used < net::sndbuf) {
            size_t k = std::min<size_t>(want - done, net::sndbuf - used);
            deliver(s, std::string((const char*)b + done, k), false);
            done += k;
            continue;
        }
        if (flags & MSG_DONTWAIT) return done ? (ssize_t)done : -EAGAIN;
        if (!block(s->key(K_TX), dl, "send")) return done ? (ssize_t)done : -EAGAIN;
    }
}
static void net_shutdown_wr(sock* sp) {
    auto s = sp->shared_from_this();
    if (s->wr_shut) return;
    s->wr_shut = true;
    if (s->connected && !s->dead) deliver(s, "", true);
    wake(s->key(K_TX));
}
void net_close(sock* sp, int) {
    auto s = sp->shared_from_this();
    if (s->closed) return;
    if (s->type == SOCK_STREAM && s->connected && !s->dead) {
        bool unread = s->avail() > 0;
        if ((unread && net::strict_peer_close) || s->linger0) {
            // unread data: the kernel resets the connection; what the peer has not received yet may be lost
            auto p = s->peer.lock();
            evh("close.rst", s->id);
            bool keep = !s->linger0 && !choose(2, "net.rst.drop");
            if (!keep) s->epoch++;
            int64_t t = keep ? s->last_delivery + 1 : now() + latency();
            if (p) { std::shared_ptr<sock> pp = p; at(t, [pp]() { reset_end(pp.get(), pp->fin_rx ? EPIPE : ECONNRESET); }); }
        } else net_shutdown_wr(s.get());
    }
    if (s->listening) {
        for (auto& c : s->pending) { auto p = c->peer.lock(); c->closed = true; if (p) { std::shared_ptr<sock> pp = p; at(now() + latency(), [pp]() { reset_end(pp.get(), ECONNRESET); }); } }
        s->pending.clear();
    }
    if (s->type == SOCK_STREAM && s->connected && s->bound) { if (!time_wait) time_wait = new std::map<int, int64_t>(); (*time_wait)[s->local.port] = now() + 60000000000ll; }
    s->closed = true; s->listening = false;
    wake_all(s.get());
    evh("sock.close", s->id);
}
int net_poll(struct pollfd* p, nfds_t n, int to) {
    int64_t dl = to < 0 ? -1 : now() + (int64_t)to * 1000000;
    enter_syscall("poll");
    for (;;) {
        int r = 0; std::shared_ptr<sock> first;
        for (nfds_t i = 0; i < n; i++) {
            p[i].revents = 0;
            desc* d = find_fd(p[i].fd);
            if (!d) { if (p[i].fd >= 0) p[i].revents = POLLNVAL; }
            else if (d->kind != desc::SOCK) p[i].revents = p[i].events & (POLLIN | POLLOUT);
            else {
                auto s = d->s; if (!first) first = s;
                if ((p[i].events & POLLIN) && (s->avail() || s->fin_rx || s->dead || s->rd_shut || !s->dq.empty() || !s->pending.empty())) p[i].revents |= POLLIN;
                auto q = s->peer.lock();
                if ((p[i].events & POLLOUT) && (s->type == SOCK_DGRAM || s->dead || s->inflight + (q && !q->closed ? q->avail() : 0) < net::sndbuf)) p[i].revents |= POLLOUT;
                if (s->dead) p[i].revents |= POLLHUP | POLLERR;
            }
            if (p[i].revents) r++;
        }
        if (r || to == 0) return r;
        if (dl >= 0 && now() >= dl) return 0;
        int64_t w = now() + 1000000; if (dl >= 0 && w > dl) w = dl;
        if (!first) { sleep_ns(w - now()); continue; }
        block(first->key(K_RX), w, "poll");
    }
}
namespace net {
int open_fds() { int n = 0; for (auto& d : fds()) if (d.second.kind == desc::SOCK) n++; return n; }
int connections() { int n = 0; for (auto& w : all()) { auto s = w.lock(); if (s && s->connected && !s->closed && !s->dead) n++; } return n; }
void reset_all() { for (auto& w : all()) { auto s = w.lock(); if (s && s->type == SOCK_STREAM && s->connected && !s->closed) reset_both(s.get()); } }
bool listening(const char*, int port) { for (auto& w : all()) { auto s = w.lock(); if (s && s->listening && !s->closed && s->local.port == port) return true; } return false; }
}
static sock* sk(int fd, std::shared_ptr<sock>& hold) { desc* d = find_fd(fd); if (!d || d->kind != desc::SOCK) return nullptr; hold = d->s; return hold.get(); }
static long ret(long r) { if (r < 0) { errno = (int)-r; return -1; } return r; }
} // namespace sim
using namespace sim;

extern "C" {
int socket(int domain, int type, int proto) {
    if (!on()) return (int)raw(SYS_socket, domain, type, proto);
    enter_syscall("socket");
    int t = type & 0xf;
    if ((domain != AF_INET && domain != AF_INET6) || (t != SOCK_STREAM && t != SOCK_DGRAM)) { errno = EAFNOSUPPORT; return -1; }
    if (proto && ((t == SOCK_STREAM) != (proto == IPPROTO_TCP))) { errno = EPROTONOSUPPORT; return -1; }
    if (fault(F_SOCKET_FAIL)) { errno = EMFILE; return -1; }
    return sock_fd(new_sock(domain, t));
}
static bool is_local(const addr& a) { return a.family == AF_INET ? a.ip[0] == 127 : !memcmp(a.ip, loopback(AF_INET6, 0).ip, 16); }
int bind(int fd, const sockaddr* sa, socklen_t len) {
    std::shared_ptr<sock> h; sock* s = on() ? sk(fd, h) : nullptr;
    if (!s) return (int)raw(SYS_bind, fd, (long)sa, len);
    enter_syscall("bind");
    addr a; if (!from_sa(sa, len, a) || a.family != s->family) { errno = EINVAL; return -1; }
    if (s->bound) { errno = EINVAL; return -1; }
    if (!a.any() && !is_local(a)) { errno = EADDRNOTAVAIL; return -1; }
    if (a.port == 0) a.port = next_port++;
    for (auto& w : all()) {
        auto o = w.lock();
        if (!o || o->closed || o->type != s->type || !o->bound || o->local.family != a.family || o->local.port != a.port) continue;
        if (o->type == SOCK_STREAM && !o->listening && o->connected) { if (!s->reuse) { errno = EADDRINUSE; return -1; } continue; }
        if (o->type == SOCK_STREAM && s->reuse && o->reuse && !o->listening) continue;
        if (o->type == SOCK_DGRAM && s->reuse && o->reuse) continue;
        if (o->local.any() || a.any() || !memcmp(o->local.ip, a.ip, 16)) { errno = EADDRINUSE; return -1; }
    }
    if (s->type == SOCK_STREAM && !s->reuse && time_wait && time_wait->count(a.port) && (*time_wait)[a.port] > now()) { errno = EADDRINUSE; return -1; }
    s->local = a; s->bound = true;
    evh("bind", a.port);
    return 0;
}
int listen(int fd, int backlog) {
    std::shared_ptr<sock> h; sock* s = on() ? sk(fd, h) : nullptr;
    if (!s) return (int)raw(SYS_listen, fd, backlog);
    enter_syscall("listen");
    if (s->type != SOCK_STREAM) { errno = EOPNOTSUPP; return -1; }
    autobind(s);
    if (!s->listening) for (auto& w : all()) {
        auto o = w.lock();
        if (o && o.get() != s && !o->closed && o->listening && o->local.family == s->local.family && o->local.port == s->local.port && (o->local.any() || s->local.any() || !memcmp(o->local.ip, s->local.ip, 16))) { errno = EADDRINUSE; return -1; }
    }
    s->listening = true; s->backlog = backlog;
    return 0;
}
int accept4(int fd, sockaddr* sa, socklen_t* len, int) {
    std::shared_ptr<sock> h; sock* s = on() ? sk(fd, h) : nullptr;
    if (!s) return (int)raw(SYS_accept, fd, (long)sa, (long)len);
    enter_syscall("accept");
    if (!s->listening) { errno = EINVAL; return -1; }
    for (;;) {
        if (s->closed) { errno = EBADF; return -1; }
        if (s->rd_shut) { errno = EINVAL; return -1; }
        if (!s->pending.empty()) {
            if (fault(F_ACCEPT_FAIL)) {
                static const int es[] = {ECONNABORTED, EMFILE, EINTR, ENFILE, ENOBUFS, EPROTO};
                int e = es[choose(6, "accept.errno")];
                if (e == ECONNABORTED || e == EPROTO) { auto c = s->pending.front(); s->pending.pop_front(); reset_both(c.get()); c->closed = true; wake(s->key(K_ACC)); }
                evh("accept.fail", e);
                errno = e;
                return -1;
            }
            auto c = s->pending.front(); s->pending.pop_front();
            wake(s->key(K_ACC));
            int nfd = sock_fd(c);
            if (sa && len) { unsigned l = *len; to_sa(c->remote, sa, &l); *len = l; }
            evh("accept", c->id);
            return nfd;
        }
        desc* d = find_fd(fd);
        if (d && nonblocking(d->flags)) { errno = EAGAIN; return -1; }
        block(s->key(K_RX), -1, "accept");
    }
}
int accept(int fd, sockaddr* sa, socklen_t* len) { return accept4(fd, sa, len, 0); }
int connect(int fd, const sockaddr* sa, socklen_t len) {
    std::shared_ptr<sock> h; sock* s = on() ? sk(fd, h) : nullptr;
    if (!s) return (int)raw(SYS_connect, fd, (long)sa, len);
    enter_syscall("connect");
    addr a; if (!from_sa(sa, len, a) || a.family != s->family) { errno = EINVAL; return -1; }
    if (a.any()) a = loopback(a.family, a.port);
    if (s->type == SOCK_DGRAM) { autobind(s); s->remote = a; s->connected = true; return 0; }
    if (s->connected) { errno = EISCONN; return -1; }
    if (s->listening) { errno = EISCONN; return -1; }
    sleep_ns(latency());
    auto l = find_bound(SOCK_STREAM, a, true);
    if (!l || l->rd_shut) { errno = ECONNREFUSED; return -1; }
    int64_t give_up = now() + 127000000000ll;
    while ((int)l->pending.size() > l->backlog) {
        if (!block(l->key(K_ACC), give_up, "connect")) { errno = ETIMEDOUT; return -1; }
        if (l->closed || l->rd_shut) { errno = ECONNREFUSED; return -1; }
    }
    if (!s->bound || s->local.any()) { int port = s->bound ? s->local.port : next_port++; s->local = loopback(s->family, port); s->bound = true; }
    auto c = new_sock(s->family, SOCK_STREAM);
    c->local = a; c->bound = true; c->remote = s->local; c->connected = true; c->peer = h;
    s->remote = a; s->connected = true; s->peer = c;
    l->pending.push_back(c);
    // keep the server side alive until it is accepted
    wake_one_random(l->key(K_RX));
    evh("connect", s->id, c->id);
    return 0;
}
ssize_t send(int fd, const void* b, size_t n, int flags) {
    std::shared_ptr<sock> h; sock* s = on() ? sk(fd, h) : nullptr;
    if (!s) { if (on()) { errno = fd < 0 ? EBADF : ENOTSOCK; return -1; } return raw(SYS_sendto, fd, (long)b, n, flags); }
    desc* d = find_fd(fd); if (d && nonblocking(d->flags)) flags |= MSG_DONTWAIT;
    return ret(net_send(s, b, n, flags, nullptr, 0));
}
ssize_t recv(int fd, void* b, size_t n, int flags) {
    std::shared_ptr<sock> h; sock* s = on() ? sk(fd, h) : nullptr;
    if (!s) { if (on()) { errno = fd < 0 ? EBADF : ENOTSOCK; return -1; } return raw(SYS_recvfrom, fd, (long)b, n, flags); }
    desc* d = find_fd(fd); if (d && nonblocking(d->flags)) flags |= MSG_DONTWAIT;
    return ret(net_recv(s, b, n, flags, nullptr, nullptr));
}
ssize_t sendto(int fd, const void* b, size_t n, int flags, const sockaddr* sa, socklen_t len) {
    std::shared_ptr<sock> h; sock* s = on() ? sk(fd, h) : nullptr;
    if (!s) { if (on()) { errno = EBADF; return -1; } return raw(SYS_sendto, fd, (long)b, n, flags, (long)sa, len); }
    return ret(net_send(s, b, n, flags, sa, len));
}
ssize_t recvfrom(int fd, void* b, size_t n, int flags, sockaddr* sa, socklen_t* len) {
    std::shared_ptr<sock> h; sock* s = on() ? sk(fd, h) : nullptr;
    if (!s) { if (on()) { errno = EBADF; return -1; } return raw(SYS_recvfrom, fd, (long)b, n, flags, (long)sa, (long)len); }
    return ret(net_recv(s, b, n, flags, sa, len));
}
int shutdown(int fd, int how) {
    std::shared_ptr<sock> h; sock* s = on() ? sk(fd, h) : nullptr;
    if (!s) { if (on()) { errno = EBADF; return -1; } return (int)raw(SYS_shutdown, fd, how); }
    enter_syscall("shutdown");
    evh("shutdown", s->id, how);
    if (s->type == SOCK_DGRAM) { if (!s->connected) { s->rd_shut = true; wake_all(s); errno = ENOTCONN; return -1; } s->rd_shut = true; wake_all(s); return 0; }
    if (s->listening) { if (how != SHUT_WR) { s->rd_shut = true; wake_all(s); } return 0; }
    if (!s->connected || s->dead) { errno = ENOTCONN; return -1; }
    if (how == SHUT_RD || how == SHUT_RDWR) s->rd_shut = true;
    if (how == SHUT_WR || how == SHUT_RDWR) net_shutdown_wr(s);
    wake_all(s);
    return 0;
}
int setsockopt(int fd, int level, int opt, const void* v, socklen_t len) {
    std::shared_ptr<sock> h; sock* s = on() ? sk(fd, h) : nullptr;
    if (!s) { if (on()) { errno = EBADF; return -1; } return (int)raw(SYS_setsockopt, fd, level, opt, (long)v, len); }
    if (level == SOL_SOCKET && opt == SO_REUSEADDR) s->reuse = *(const int*)v != 0;
    if (level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) { auto* tv = (const timeval*)v; int64_t t = tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll; (opt == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo) = t; }
    if (level == SOL_SOCKET && opt == SO_LINGER) { auto* l = (const struct linger*)v; s->linger0 = l->l_onoff && l->l_linger == 0; }
    return 0;
}
int getsockopt(int fd, int level, int opt, void* v, socklen_t* len) {
    std::shared_ptr<sock> h; sock* s = on() ? sk(fd, h) : nullptr;
    if (!s) { if (on()) { errno = ENOTSOCK; return -1; } return (int)raw(SYS_getsockopt, fd, level, opt, (long)v, (long)len); }
    int x = 0;
    if (level == SOL_SOCKET && opt == SO_TYPE) x = s->type;
    if (level == SOL_SOCKET && opt == SO_ERROR) { x = s->err; s->err = 0; }
    if (*len >= sizeof(int)) { memcpy(v, &x, sizeof x); *len = sizeof x; }
    return 0;
}
int getsockname(int fd, sockaddr* sa, socklen_t* len) {
    std::shared_ptr<sock> h; sock* s = on() ? sk(fd, h) : nullptr;
    if (!s) { if (on()) { errno = EBADF; return -1; } return (int)raw(SYS_getsockname, fd, (long)sa, (long)len); }
    addr a = s->local; a.family = s->family; unsigned l = *len; to_sa(a, sa, &l); *len = l; return 0;
}
int getpeername(int fd, sockaddr* sa, socklen_t* len) {
    std::shared_ptr<sock> h; sock* s = on() ? sk(fd, h) : nullptr;
    if (!s) { if (on()) { errno = EBADF; return -1; } return (int)raw(SYS_getpeername, fd, (long)sa, (long)len); }
    if (!s->connected) { errno = ENOTCONN; return -1; }
    unsigned l = *len; to_sa(s->remote, sa, &l); *len = l; return 0;
}
int getaddrinfo(const char* host, const char* port, const struct addrinfo* hints, struct addrinfo** out) {
    if (!on()) { typedef int (*F)(const char*, const char*, const struct addrinfo*, struct addrinfo**); static F real = next<F>("getaddrinfo"); return real(host, port, hints, out); }
    enter_syscall("getaddrinfo");
    if (fault(F_RESOLVE_FAIL)) { *out = nullptr; return choose(2, "resolve.errno") ? EAI_NONAME : EAI_AGAIN; }
    int fam = hints ? hints->ai_family : AF_UNSPEC;
    if (fam == AF_UNSPEC) fam = AF_INET;
    char* end; long p = port ? strtol(port, &end, 10) : 0;
    if (port && (*end || end == port || p < 0 || p > 65535)) return EAI_SERVICE;
    std::vector<addr> as;
    addr a; a.family = fam; a.port = (int)p;
    if (!host) as.push_back(loopback(fam, (int)p));
    else if (inet_pton(AF_INET, host, a.ip) == 1) { if (fam != AF_INET) return EAI_ADDRFAMILY; as.push_back(a); }
    else if (inet_pton(AF_INET6, host, a.ip) == 1) { if (fam != AF_INET6) return EAI_ADDRFAMILY; as.push_back(a); }
    else if (!strcmp(host, "localhost")) as.push_back(loopback(fam, (int)p));
    else if (!strcmp(host, "multi.sim")) { addr b = loopback(fam, (int)p); b.ip[fam == AF_INET ? 3 : 15] = 9; as.push_back(b); b.ip[fam == AF_INET ? 3 : 15] = 8; as.push_back(b); as.push_back(loopback(fam, (int)p)); }
    else if (!strcmp(host, "first.sim") || !strcmp(host, "last.sim") || !strcmp(host, "none.sim")) {     // one, or no, address of this host among others
        addr o = loopback(fam, (int)p); static const unsigned char o4[] = {192, 0, 2, 9}; memcpy(o.ip, fam == AF_INET ? o4 : (const unsigned char*)"\x20\x01\x0d\xb8\0\0\0\0\0\0\0\0\0\0\0\x09", fam == AF_INET ? 4 : 16);
        if (host[0] == 'f') as.push_back(loopback(fam, (int)p));
        as.push_back(o); as.push_back(o);
        if (host[0] == 'l') as.push_back(loopback(fam, (int)p));
    }
    else return EAI_NONAME;
    struct addrinfo* head = nullptr; struct addrinfo** tail = &head;
    for (auto& x : as) {
        struct addrinfo* ai = (struct addrinfo*)calloc(1, sizeof(struct addrinfo) + sizeof(sockaddr_in6));
        ai->ai_family = fam; ai->ai_socktype = hints ? hints->ai_socktype : SOCK_STREAM; ai->ai_protocol = hints ? hints->ai_protocol : 0;
        ai->ai_addr = (sockaddr*)(ai + 1);
        unsigned l = sizeof(sockaddr_in6); to_sa(x, ai->ai_addr, &l); ai->ai_addrlen = l;
        *tail = ai; tail = &ai->ai_next;
    }
    *out = head;
    return 0;
}
void freeaddrinfo(struct addrinfo* ai) {
    if (!on()) { typedef void (*F)(struct addrinfo*); static F real = next<F>("freeaddrinfo"); return real(ai); }
    while (ai) { struct addrinfo* n = ai->ai_next; free(ai); ai = n; }
}
} // extern "C"
