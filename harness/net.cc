// Sockets and socket streams over the simulated network.
#include "nettest.h"
#include <map>
#include <set>

struct plain {
    typedef abc::tcp_client_socket<diag_log> client; typedef abc::tcp_server_socket<diag_log> server;
    static constexpr bool ipv6 = true, handshake = false;
    static server make_server(bool v6, diag_log* l) { return server(v6 ? abc::socket::family::ipv6 : abc::socket::family::ipv4, l); }
    static client make_client(bool v6, diag_log* l) { return client(v6 ? abc::socket::family::ipv6 : abc::socket::family::ipv4, l); }
};
static void p_stream() { exact_stream<plain>(true, 300); }
static void p_broken() { broken_stream<plain>(300); }

// ---------------------------------------------------------------- N03: datagrams
static void p_dgram() {
    net_schedule();
    set_step_limit(40000000ull);
    bool lossy = chance(600, "cfg.lossy");
    if (lossy) { set_fault_rate(F_DGRAM_LOSS, choose(2, "f.l") ? 150 : 0); set_fault_rate(F_DGRAM_DUP, choose(2, "f.d") ? 150 : 0); set_fault_rate(F_DGRAM_REORDER, choose(2, "f.o") ? 200 : 0); }
    if (choose(3, "f.i") == 0) set_fault_rate(F_EINTR, 30);
    log_holder lg(200);
    bool v6 = choose(2, "cfg.v6");
    typedef abc::udp_socket<diag_log> U;
    auto fam = v6 ? abc::socket::family::ipv6 : abc::socket::family::ipv4;
    U hub(fam, lg.get());
    hub.bind(v6 ? "::1" : "127.0.0.1", PORT);
    unsigned N = pick(1, 3, "cfg.clients");
    struct state { std::multiset<std::string> sent, echoed; std::vector<std::string> order; unsigned got = 0; bool finished = false; };
    std::vector<state> st(N);
    std::vector<std::thread> ts;
    unsigned ended = 0, empty_sent = 0, empty_got = 0;
    for (unsigned i = 0; i < N; i++) ts.emplace_back([&, i] {
        U u(fam, lg.get());
        connect_to(u, v6, PORT);
        U moved(std::move(u));
        U& s = moved;
        unsigned n = pick(0, 6, "dg.n");
        for (unsigned k = 0; k < n; k++) {
            if (choose(3, "dg.errno") == 0) errno = EINTR;           // left from something else
            if (choose(6, "dg.empty") == 0) { char none; empty_sent++; if (s.send(&none, 0) != 0) violation("send-size", "send() of an empty datagram doesn't say 0"); coverage("empty"); }
            std::string d(1, (char)i); d += random_bytes(choose(4, "dg.lenk") ? choose(60, "dg.len") : choose(4000, "dg.len"), "dg.data");
            st[i].sent.insert(d); st[i].order.push_back(d);
            std::unique_ptr<char[]> e(new char[d.size()]); memcpy(e.get(), d.data(), d.size());
            size_t r = s.send(e.get(), d.size());
            if (r != d.size()) violation("send-size", "send() of a datagram of %zu bytes says %zu", d.size(), r);
            if (choose(3, "dg.pause") == 0) sim::sleep_ns(choose(3000000, "dg.sleep"));
        }
        sim::sleep_ns(2000000000ll);
        // wait for the echoes: the hub says when it is done with us (no loss any more)
        while (!st[i].finished) sim::sleep_ns(100000000ll);
        std::multiset<std::string> left = st[i].echoed;
        std::vector<std::string> back;
        abc::socket::address from;                               // may be used again and again
        for (;;) {
            std::unique_ptr<char[]> b(new char[5000]);
            if (choose(2, "dg.fresh")) from = abc::socket::address();
            size_t r = choose(2, "dg.from") ? s.receive(b.get(), 5000, &from) : s.receive(b.get(), 5000);
            std::string d(b.get(), r);
            if (d == "end") break;
            if (!left.count(d)) violation(st[i].echoed.count(d) ? "duplicate" : "wrong-datagram", "client %u received \"%s\" (%zu bytes), which was not sent to it", i, show(d).c_str(), d.size());
            if (!lossy) left.erase(left.find(d));
            back.push_back(d);
        }
        if (!lossy && !left.empty()) violation("lost-datagram", "%zu datagrams of %zu did not come back over a network without loss", left.size(), st[i].echoed.size());
        ended++;
    });
    // the hub: answers each datagram to its sender, until all is quiet; a tick datagram from a timer thread keeps it going
    bool stop = false;
    std::thread ticker([&] {
        sim::sleep_ns(1000000000ll);
        while (lossy && !stop && now() < 3000000000ll) sim::sleep_ns(50000000ll);
        faults_enabled = false;
        U t(fam, lg.get()); t.connect(v6 ? "::1" : "localhost", PORT);
        while (!stop) { t.send("tick", 4); sim::sleep_ns(500000000ll); }
    });
    struct got_t { std::string d; bool cut; };
    std::map<unsigned, std::vector<got_t>> arrived;
    std::vector<abc::socket::address> addrs(N); std::vector<bool> known(N, false);
    unsigned ticks = 0;
    abc::socket::address from;
    while (ticks < 4) {
        bool small = choose(10, "dg.small") == 0;
        size_t room = small ? 1 + choose(20, "dg.room") : 5000;
        std::unique_ptr<char[]> b(new char[room]);
        if (choose(2, "dg.fresh")) from = abc::socket::address();
        size_t r = hub.receive(b.get(), room, &from);
        if (r > room) violation("receive-size", "receive() into %zu bytes says %zu", room, r);
        std::string d(b.get(), r);
        if (d == std::string("tick").substr(0, r) && r) { ticks++; continue; }
        if (r == 0 && ++empty_got <= empty_sent * (lossy ? 4 : 1)) continue;
        if (r == 0 || (unsigned)d[0] >= N) violation("wrong-datagram", "the hub received \"%s\"", show(d).c_str());
        unsigned i = (unsigned)d[0];
        std::string whole;
        for (auto& s : st[i].sent) if (s.size() >= d.size() && s.compare(0, d.size(), d) == 0 && (s.size() == d.size() || d.size() == room)) whole = s;
        if (whole.empty()) violation("wrong-datagram", "the hub received \"%s\" (%zu bytes, room %zu), which client %u did not send", show(d).c_str(), d.size(), room, i);
        if (small && whole.size() > room) coverage("truncated");
        arrived[i].push_back({d, d.size() == room});
        addrs[i] = from; known[i] = true;
        st[i].echoed.insert(d);
        std::unique_ptr<char[]> e(new char[d.size()]); memcpy(e.get(), d.data(), d.size());
        size_t k = hub.send(e.get(), d.size(), &from);
        if (k != d.size()) violation("send-size", "answering with a datagram of %zu bytes to its sender says %zu", d.size(), k);
    }
    stop = true;
    if (!lossy && empty_got != empty_sent) violation("lost-datagram", "the hub received %u empty datagrams of %u over a network without loss", empty_got, empty_sent);
    if (!lossy) for (unsigned i = 0; i < N; i++) {
        if (arrived[i].size() != st[i].order.size()) violation(arrived[i].size() < st[i].order.size() ? "lost-datagram" : "duplicate", "the hub received %zu datagrams of the %zu of client %u over a network without loss", arrived[i].size(), st[i].order.size(), i);
        for (size_t k = 0; k < arrived[i].size(); k++) { auto& a = arrived[i][k]; auto& o = st[i].order[k]; if (a.cut ? o.compare(0, a.d.size(), a.d) != 0 : a.d != o) violation("wrong-datagram", "datagram %zu of client %u is \"%s\" (%zu bytes) instead of \"%s\" (%zu bytes) over a network without loss", k, i, show(a.d).c_str(), a.d.size(), show(o).c_str(), o.size()); }
    }
    for (unsigned i = 0; i < N; i++) {
        st[i].finished = true;
        if (!known[i]) { coverage("client-unknown"); }
    }
    sim::sleep_ns(1000000000ll);
    if (N == 1 && known[0] && choose(2, "dg.back")) {            // the hub talks to one client only
        hub.connect(addrs[0]); coverage("connected-back");
        if (hub.send("end", 3) != 3) violation("send-size", "the end cannot be sent");
    }
    else for (unsigned i = 0; i < N; i++) if (known[i]) { if (hub.send("end", 3, &addrs[i]) != 3) violation("send-size", "the end cannot be sent"); }
    // clients the hub never heard of cannot be told: nothing of theirs arrived
    for (unsigned i = 0; i < N; i++) { if (known[i]) ts[i].join(); else ts[i].detach(); }
    ticker.join();
    for (auto& s : st) state_hash(s.sent.size() * 100 + s.echoed.size());
    ev("%u clients, %u ended", N, ended);
}

// ---------------------------------------------------------------- N04: opening, binding, connecting, closing
static void p_lifecycle() {
    net_schedule();
    set_step_limit(40000000ull);
    log_holder lg(200);
    bool v6 = choose(3, "cfg.v6") == 0;
    if (chance(700, "cfg.faults")) {
        set_fault_rate(F_SOCKET_FAIL, choose(2, "f.s") ? 150 : 0); set_fault_rate(F_RESOLVE_FAIL, choose(2, "f.r") ? 150 : 0);
        set_fault_rate(F_ACCEPT_FAIL, choose(2, "f.a") ? 250 : 0);
    }
    typedef plain::client C; typedef plain::server S;
    const char* host = v6 ? "::1" : "127.0.0.1";
    struct bound_t { std::unique_ptr<S> s; int port; bool listening; };
    std::vector<bound_t> servers;
    auto listener = [&](int port) -> S* { for (auto& b : servers) if (b.port == port && b.listening) return b.s.get(); return nullptr; };
    std::vector<std::unique_ptr<S>> spare_servers; std::vector<std::unique_ptr<C>> spare_clients;      // closed, and may be used again
    struct pair { std::unique_ptr<C> a, b; unsigned id; };
    std::vector<pair> pairs; unsigned ids = 0;
    auto no_faults = [] { return faults_injected; };
    for (unsigned k = choose(3, "life.start"); k > 0; k--) {
        faults_enabled = false;
        int port = 30302 + (int)k;
        std::unique_ptr<S> s(new S(v6 ? abc::socket::family::ipv6 : abc::socket::family::ipv4, lg.get()));
        s->bind(host, std::to_string(port).c_str()); s->listen(5);
        servers.push_back({std::move(s), port, true});
        faults_enabled = true;
    }
    for (unsigned n = pick(1, 25, "life.n"); n > 0; n--) {
        switch (choose(8, "life.op")) {
        case 0: case 1: {                                      // bind, maybe to a port that is taken
            int port = 30303 + (int)choose(3, "life.port"); uint64_t f = no_faults();
            std::unique_ptr<S> s;
            if (!spare_servers.empty() && choose(2, "life.reuse")) { s = std::move(spare_servers.back()); spare_servers.pop_back(); coverage("server-reused"); }
            else s.reset(new S(v6 ? abc::socket::family::ipv6 : abc::socket::family::ipv4, lg.get()));
            if (s->is_open()) violation("state", "a new socket is open");
            if (chance(200, "life.unopened")) { std::unique_ptr<S> m(new S(std::move(*s))); s = std::move(m); }
            // a name may have several addresses, of which this host has one or none
            static const char* names[] = {"first.sim", "last.sim", "none.sim", "localhost"};
            const char* name = chance(400, "life.named") ? names[choose(4, "life.name")] : host;
            bool threw = throws_std([&] { s->bind(name, std::to_string(port).c_str()); }, "bind()");
            ev("bind %s %d %s", name, port, threw ? "failed" : "ok");
            if (name != host) coverage(name);
            bool nowhere = !strcmp(name, "none.sim");
            if (nowhere && !threw) violation("bind-nowhere", "binding to addresses of other hosts succeeded");
            if (listener(port) && !threw) violation("bind-taken", "binding to a port that is taken succeeded");
            if (threw) {
                if (!listener(port) && f == no_faults() && !nowhere) violation("bind-refused", "binding to a free port of %s failed", name);
                coverage("bind-failed");
                if (s->is_open()) violation("state", "a socket that could not be bound is open");
                int before = net::open_fds();
                faults_enabled = false;                          // it can be used for another port
                bool again = throws_std([&] { s->bind(host, "30399"); }, "bind()");
                faults_enabled = true;
                if (again) violation("bind-again", "a socket that could not be bound cannot be bound to another port either");
                s.reset();
                if (net::open_fds() != before) violation("descriptor-leak", "%d sockets open, expected %d", net::open_fds(), before);
            } else {
                if (!s->is_open()) violation("state", "a bound socket is not open");
                servers.push_back({std::move(s), port, false});
            }
            break;
        }
        case 2: {                                               // listen
            if (servers.empty()) break;
            auto& b = servers[choose((uint32_t)servers.size(), "life.server")];
            if (b.listening) break;
            bool taken = listener(b.port) != nullptr;               // two may be bound to a port; one can listen
            bool threw = throws_std([&] { b.s->listen(5); }, "listen()");
            ev("listen %d %s", b.port, threw ? "failed" : "ok");
            if (taken && !threw) violation("listen-taken", "listening on port %d succeeded although another socket listens on it", b.port);
            if (!taken && threw) violation("listen-refused", "listening on port %d failed", b.port);
            b.listening = !threw; if (threw) coverage("listen-failed");
            break;
        }
        case 3: case 4: case 5: {                               // connect, maybe to nobody, and accept
            int port = 30303 + (int)choose(3, "life.port"); uint64_t f = no_faults();
            const char* name = (const char*[]){host, "localhost", "multi.sim", "nowhere.sim"}[choose(4, "life.name")];
            std::unique_ptr<C> c;
            if (!spare_clients.empty() && choose(2, "life.reuse")) { c = std::move(spare_clients.back()); spare_clients.pop_back(); coverage("client-reused"); }
            else c.reset(new C(v6 ? abc::socket::family::ipv6 : abc::socket::family::ipv4, lg.get()));
            if (chance(200, "life.unopened")) { std::unique_ptr<C> m(new C(std::move(*c))); c = std::move(m); coverage("unopened-moved"); }
            bool by_address = chance(300, "life.addr"); if (by_address) { name = host; coverage("by-address"); }
            abc::socket::address addr = address_of(v6, port);
            bool threw = throws_std([&] { if (by_address) c->connect(addr); else c->connect(name, std::to_string(port).c_str()); }, "connect()");
            bool could = listener(port) && strcmp(name, "nowhere.sim");
            ev("connect %s %d %s", name, port, threw ? "failed" : "ok");
            if (!threw && !could) violation("connect-nobody", "connecting to %s port %d, where nobody listens, succeeded", name, port);
            if (threw && could && f == no_faults()) violation("connect-refused", "connecting to %s port %d failed", name, port);
            if (threw) {
                coverage("connect-failed");
                if (!listener(port) || !choose(2, "life.again")) break;
                faults_enabled = false;                          // it can be tried again with the same socket
                bool again = throws_std([&] { if (by_address) c->connect(host, std::to_string(port).c_str()); else c->connect(addr); }, "connect()");
                faults_enabled = true;
                if (again) violation("connect-again", "a socket that could not be connected cannot be connected to a port with a listener either");
                coverage("connected-again");
            }
            if (!throws_std([&] { c->send("x", 1, &addr); }, "send()")) violation("datagram-use", "a stream socket sent to an address");
            { char x; if (!throws_std([&] { c->receive(&x, 1, &addr); }, "receive()")) violation("datagram-use", "a stream socket received with an address"); }
            S* s = listener(port); std::unique_ptr<C> peer;
            for (int tries = 0; tries < 40 && !peer; tries++) {
                // a failed accept may have dropped the connection: then there is nothing to wait for
                uint64_t before = faults_injected;
                if (throws_std([&] { peer.reset(new C(s->accept())); }, "accept()")) {
                    if (before == faults_injected) violation("accept-failed", "accepting a waiting connection failed");
                    coverage("accept-failed");
                    if (!s->is_open()) violation("state", "a listening socket is closed after a failed accept");
                    char x; faults_enabled = false; 
                    bool gone = net::connections() % 2 == 1 || (c->send("?", 1) == 0);
                    (void)x; faults_enabled = true;
                    if (gone) { c.reset(); break; }
                    // still waiting: take the byte after accepting
                    faults_enabled = false; peer.reset(new C(s->accept())); faults_enabled = true;
                    char q = 0; if (peer->receive(&q, 1) != 1 || q != '?') { peer.reset(); c.reset(); }
                    break;
                }
            }
            if (peer && c) { pairs.push_back({std::move(c), std::move(peer), ids++}); }
            break;
        }
        case 6: {                                               // use a pair, or move its sockets first
            if (pairs.empty()) break;
            auto& p = pairs[choose((uint32_t)pairs.size(), "life.pair")];
            if (choose(2, "life.move")) {
                std::unique_ptr<C> m(new C(std::move(*p.a)));
                if (p.a->is_open()) violation("state", "a moved socket is still open");
                if (!throws_std([&] { p.a->send("x", 1); }, "send()")) violation("closed-use", "sending on a moved socket did not throw");
                p.a = std::move(m); coverage("socket-moved");
            }
            uint32_t v = p.id * 1000 + n, got = 0;
            if (p.a->send(&v, 4) != 4 || p.b->receive(&got, 4) != 4 || got != v) violation("wrong-data", "pair %u: sent %u, received %u", p.id, v, got);
            if (p.b->send(&v, 4) != 4 || p.a->receive(&got, 4) != 4 || got != v) violation("wrong-data", "pair %u: sent %u back, received %u", p.id, v, got);
            break;
        }
        default: {                                              // close something
            if (!pairs.empty() && choose(2, "life.close")) {
                size_t i = choose((uint32_t)pairs.size(), "life.pair");
                pairs[i].a->close(); pairs[i].a->close();
                if (pairs[i].a->is_open()) violation("state", "a closed socket is open");
                if (!throws_std([&] { pairs[i].a->send("x", 1); }, "send()")) violation("closed-use", "sending on a closed socket did not throw");
                char c; if (!throws_std([&] { pairs[i].a->receive(&c, 1); }, "receive()")) violation("closed-use", "receiving on a closed socket did not throw");
                if (pairs[i].b->receive(&c, 1)) violation("extra-data", "a byte arrived from a closed socket");
                if (choose(2, "life.keep")) spare_clients.push_back(std::move(pairs[i].a));
                pairs.erase(pairs.begin() + (long)i);
            } else if (!servers.empty()) {
                size_t i = choose((uint32_t)servers.size(), "life.server");
                if (choose(2, "life.keep")) {
                    auto& s = servers[i].s;
                    if (choose(2, "life.move")) { std::unique_ptr<S> m(new S(std::move(*s))); if (s->is_open()) violation("state", "a moved server socket is still open"); s = std::move(m); }
                    s->close(); if (s->is_open()) violation("state", "a closed server socket is open");
                    if (!throws_std([&] { C c(s->accept()); }, "accept()")) violation("closed-use", "accepting on a closed socket did not throw");
                    spare_servers.push_back(std::move(s));
                }
                servers.erase(servers.begin() + (long)i);
            }
        }
        }
        int expect = (int)(servers.size() + 2 * pairs.size());
        if (net::open_fds() != expect) violation("descriptor-leak", "%d sockets are open, expected %d", net::open_fds(), expect);
        state_hash(servers.size() * 100 + pairs.size() * 10 + (listener(30303) ? 1 : 0));
    }
    pairs.clear(); servers.clear();
    if (net::open_fds()) violation("descriptor-leak", "%d sockets are still open", net::open_fds());
    if (!throws_std([&] { C c(abc::socket::family::ipv4, lg.get()); c.send("x", 1); }, "send()")) violation("closed-use", "sending on a socket that was never opened did not throw");
    if (!throws_std([&] { C c(12345, lg.get()); }, "a socket of an unknown family")) violation("bad-family", "a socket of an unknown family was constructed");
}

namespace sim {
#define REAL "socket, datagram, server socket and socket stream buffer classes and log of the repository"
#define STUB "network, name resolution, threads and clock (simulated)"
const property properties[] = {
    {"N01", p_stream, 6000, 150000, "distinct interleavings, fragmentations and operation sequences over working connections", REAL, STUB, 60},
    {"N02", p_broken, 8000, 200000, "distinct interleavings over connections that are reset or left", REAL, STUB, 60},
    {"N03", p_dgram, 6000, 150000, "distinct interleavings and loss patterns of datagrams", REAL, STUB, 60},
    {"N04", p_lifecycle, 8000, 200000, "distinct histories of binding, connecting, accepting, moving and closing", REAL, STUB, 60},
    {nullptr}
};
const char* harness_name = "net";
}
