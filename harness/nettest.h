// Byte stream scenarios over any pair of client and server sockets of the repository.
// A kit K names the types: K::client, K::server, K::make_server(log), K::make_client(log).
#pragma once
#include "core.h"
#include <cstring>
#include <istream>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <thread>
#include <netinet/in.h>
#include "socket.h"
#include "diaglog.h"
using namespace sim;

static std::string show(const std::string& s) { std::string r; for (unsigned char c : s.substr(0, 60)) { char b[8]; if (c >= 0x20 && c < 0x7f) r.push_back((char)c); else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r; }
static std::string random_bytes(size_t n, const char* tag) {
    std::string s(n, 0); uint64_t x = choose(1u << 31, tag); uint32_t kind = choose(4, tag);
    for (auto& c : s) { x = mix(x); c = kind == 0 ? "\xff\x00\x01\x7f\x80\n"[x % 6] : kind == 1 ? (char)('a' + x % 26) : (char)x; }
    return s;
}
template <typename F> static bool throws_std(F f, const char* what) {   // true: it threw an std::exception; anything else thrown is wrong
    try { f(); return false; }
    catch (const std::exception&) { return true; }
    catch (...) { violation("odd-exception", "%s threw something that is no std::exception", what); }
}

template <typename K> struct side {
    typedef abc::socket_streambuf<typename K::client> buf_t;
    typename K::client* s; std::unique_ptr<buf_t> sb; std::unique_ptr<std::istream> in; std::unique_ptr<std::ostream> out;
    bool raw_mode;
    side(typename K::client* s, bool raw) : s(s), sb(new buf_t(s)), raw_mode(raw) { attach(); }
    void attach() { in.reset(new std::istream(sb.get())); out.reset(new std::ostream(sb.get())); }
    void move() { std::unique_ptr<buf_t> n(new buf_t(std::move(*sb))); in.reset(); out.reset(); sb = std::move(n); attach(); coverage("streambuf-moved"); }
    // true if everything was taken
    bool write(const std::string& d, bool flush, bool may_move) {
        if (raw_mode) {
            size_t o = 0;
            while (o < d.size()) {
                size_t n = std::min<size_t>(d.size() - o, 1 + choose(2000, "w.n"));
                std::unique_ptr<char[]> exact(new char[n]); memcpy(exact.get(), d.data() + o, n);
                size_t k = s->send(exact.get(), n);
                if (k > n) violation("send-size", "send() of %zu bytes says %zu", n, k);
                if (k == 0) return false;
                o += k;
            }
            return true;
        }
        size_t o = 0;
        while (o < d.size()) {
            switch (choose(4, "w.op")) {
            case 0: out->put(d[o++]); break;
            case 1: { size_t n = std::min<size_t>(d.size() - o, 1 + choose(400, "w.n")); out->write(d.data() + o, (std::streamsize)n); o += n; break; }
            case 2: { size_t n = std::min<size_t>(d.size() - o, 1 + choose(3, "w.n")); out->write(d.data() + o, (std::streamsize)n); o += n; if (choose(2, "w.flush")) out->flush(); break; }
            default: if (may_move && choose(8, "w.move") == 0) move(); else { out->put(d[o++]); } break;
            }
            if (!*out) return false;
        }
        if (flush) { out->flush(); if (choose(4, "w.flush2") == 0) out->flush(); }
        return !!*out;
    }
    // reads up to n bytes; fewer only at the end of the stream or an error
    std::string read(size_t n, bool may_move) {
        std::string d;
        if (raw_mode) {
            while (d.size() < n) {
                size_t m = std::min<size_t>(n - d.size(), 1 + choose(3000, "r.n"));
                std::unique_ptr<char[]> exact(new char[m]);
                size_t k = s->receive(exact.get(), m);
                if (k > m) violation("receive-size", "receive() of %zu bytes says %zu", m, k);
                if (k == 0) break;
                d.append(exact.get(), k);
            }
            return d;
        }
        unsigned idle = 0;
        while (d.size() < n) {
            size_t before = d.size();
            switch (choose(5, "r.op")) {
            case 0: { int c = in->get(); if (c != EOF) d.push_back((char)c); break; }
            case 1: { int c = in->peek(); if (may_move && choose(4, "r.move") == 0) { bool good = in->good(); move(); if (!good) return d; } if (c != EOF) { int g = in->get(); if (g != c) violation("peek", "peek() gave %d, get() then %d", c, g); d.push_back((char)g); } break; }
            case 2: { char c; if (in->get(c)) d.push_back(c); break; }
            default: { size_t m = std::min<size_t>(n - d.size(), 1 + choose(300, "r.n")); std::unique_ptr<char[]> b(new char[m]); in->read(b.get(), (std::streamsize)m); if ((size_t)in->gcount() > m) violation("receive-size", "read(%zu) counted %zu", m, (size_t)in->gcount()); d.append(b.get(), (size_t)in->gcount()); break; }
            }
            if (!*in || in->eof()) { if (d.size() < n) return d; }
            if (d.size() == before && ++idle > 1000) violation("no-progress", "reading makes no progress and reports no end");
        }
        return d;
    }
    // nothing more to come
    void at_end(const char* who) {
        if (raw_mode) { char c; size_t k = s->receive(&c, 1); if (k) violation("extra-data", "%s received a byte nobody sent", who); return; }
        if (in->good()) { int c = in->get(); if (c != EOF) violation("extra-data", "%s got char %d behind the end of what was sent", who, c); }
        if (in->good()) violation("no-eof", "%s: the stream is good behind the end", who);
        in->clear();
        int c = in->get(); if (c != EOF) violation("extra-data", "%s got char %d when it read on behind the end", who, c);
    }
};

static void compare(const std::string& got, const std::string& want, const char* who) {
    if (got == want) return;
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    violation(got.size() < want.size() && i == got.size() ? "lost-data" : "wrong-data", "%s got %zu bytes of %zu, first difference at %zu: \"%s\" instead of \"%s\"", who, got.size(), want.size(), i, show(got.substr(i, 20)).c_str(), show(want.substr(i, 20)).c_str());
}

static void net_schedule(bool handshake = false) {
    uint32_t p = pick(0, 3, "cfg.preempt");
    if (p) set_preempt_mean((const uint32_t[]){0, 50, 300, 2000}[p]);
    set_yield_switch((const uint32_t[]){0, 100, 400, 800}[choose(4, "cfg.switch")]);
    net::sndbuf = (const uint32_t[]){65536, 4096, 300, 20}[choose(4, "cfg.sndbuf")];
    if (handshake && net::sndbuf < 4096) net::sndbuf = 4096;      // a kernel has room for a handshake
    net::die_on_sigpipe = true;
    deadlock_is_violation = true;
}
static const char* PORT = "30303";

// Every byte arrives once and in order, in both directions, then the end.
static abc::socket::address address_of(bool v6, int port) {
    abc::socket::address a; memset(&a.storage, 0, sizeof a.storage);
    if (v6) { sockaddr_in6 i{}; i.sin6_family = AF_INET6; i.sin6_port = htons((uint16_t)port); i.sin6_addr = in6addr_loopback; memcpy(&a.storage, &i, sizeof i); a.size = sizeof i; }
    else { sockaddr_in i{}; i.sin_family = AF_INET; i.sin_port = htons((uint16_t)port); i.sin_addr.s_addr = htonl(INADDR_LOOPBACK); memcpy(&a.storage, &i, sizeof i); a.size = sizeof i; }
    return a;
}
// connects by a name, by an address in text, or by an address
template <typename C> static void connect_to(C& c, bool v6, const char* port) {
    switch (choose(3, "cfg.name")) {
    case 0: c.connect(v6 ? "::1" : "localhost", port); break;
    case 1: c.connect(v6 ? "::1" : "127.0.0.1", port); break;
    default: { abc::socket::address a = address_of(v6, atoi(port)); c.connect(a); coverage("by-address"); }
    }
}
template <typename K> static void exact_stream(bool eintr, size_t scale) {
    net_schedule(K::handshake);
    set_step_limit(60000000ull);
    if (chance(600, "cfg.faults")) {
        set_fault_rate(F_SHORT_SEND, choose(2, "f.ss") ? 200 : 0); set_fault_rate(F_SHORT_RECV, choose(2, "f.sr") ? 300 : 0);
        set_fault_rate(F_NET_DELAY, choose(2, "f.d") ? 30 : 0); if (eintr) set_fault_rate(F_EINTR, choose(2, "f.i") ? 30 : 0);
    }
    log_holder lg(200);
    bool v6 = K::ipv6 && choose(3, "cfg.v6") == 0;
    auto server = K::make_server(v6, lg.get());
    server.bind(choose(2, "cfg.host") ? (v6 ? "::1" : "127.0.0.1") : (v6 ? "::" : "0.0.0.0"), PORT);
    server.listen(5);
    unsigned N = pick(1, 3, "cfg.conns"); unsigned done = 0;
    struct turn { bool from_client; std::string data; };
    struct plan { std::vector<turn> turns; bool client_closes; };
    std::vector<plan> plans(N);
    for (auto& p : plans) {
        p.client_closes = choose(2, "plan.closer");
        for (unsigned n = pick(1, 5, "plan.turns"); n > 0; n--) { size_t len = choose(5, "plan.big") == 0 ? pick(0, (uint32_t)(20 * scale), "plan.len") : choose((uint32_t)scale, "plan.len"); p.turns.push_back({choose(2, "plan.dir") == 1, random_bytes(len, "plan.data")}); }
    }
    auto talk = [&](typename K::client& s, const plan& p, bool client, bool may_move) {
        const char* who = client ? "the client" : "the server";
        side<K> me(&s, choose(3, "cfg.raw") == 0);
        for (auto& t : p.turns) {
            if (t.from_client == client) { if (!me.write(t.data, true, may_move)) violation("write-failed", "%s could not send over a working connection", who); }
            else compare(me.read(t.data.size(), may_move), t.data, who);
        }
        if (p.client_closes == client) { s.close(); }
        else me.at_end(who);
        ev("%s done", who); done++;
    };
    std::vector<std::thread> ts;
    for (unsigned i = 0; i < N; i++) ts.emplace_back([&, i] {
        auto c = K::make_client(v6, lg.get());
        connect_to(c, v6, PORT);
        char id = (char)i; if (c.send(&id, 1) != 1) violation("write-failed", "the first byte could not be sent");
        if (choose(3, "cfg.movesock") == 0) { typename K::client moved(std::move(c)); coverage("socket-moved"); talk(moved, plans[i], true, true); }
        else talk(c, plans[i], true, true);
    });
    bool inline_accept = choose(2, "cfg.inline");
    std::vector<std::thread> hs;
    for (unsigned i = 0; i < N; i++) {
        auto serve = [&](typename K::client& s) { char id = 99; if (s.receive(&id, 1) != 1 || (unsigned)id >= N) violation("wrong-data", "the first byte is %d", id); talk(s, plans[(unsigned)id], false, true); };
        if (inline_accept) { auto s = server.accept(); serve(s); }
        else { auto* s = new typename K::client(server.accept()); hs.emplace_back([s, serve] { serve(*s); delete s; }); }
    }
    for (auto& t : ts) t.join();
    for (auto& t : hs) t.join();
    if (done != 2 * N) violation("incomplete", "%u sides of %u finished", done, 2 * N);
    server.close();
    if (net::open_fds()) violation("descriptor-leak", "%d sockets are still open", net::open_fds());
    for (auto& p : plans) for (auto& t : p.turns) state_hash(hash64(t.data.data(), t.data.size()) ^ t.from_client);
}

// Whatever happens to the connection: what arrives is a prefix of what was sent, both sides notice the end, and nobody dies.
template <typename K> static void broken_stream(size_t scale) {
    net_schedule(K::handshake);
    set_step_limit(60000000ull);
    set_fault_rate(F_RESET, (const uint32_t[]){0, 2, 20, 100}[choose(4, "f.r")]);
    set_fault_rate(F_SHORT_SEND, choose(2, "f.ss") ? 200 : 0); set_fault_rate(F_SHORT_RECV, choose(2, "f.sr") ? 300 : 0);
    log_holder lg(200);
    auto server = K::make_server(false, lg.get());
    server.bind(PORT); server.listen(5);
    std::string up = random_bytes(choose((uint32_t)(4 * scale), "len"), "data"), down = random_bytes(choose((uint32_t)(4 * scale), "len"), "data");
    size_t stop_client = choose(2, "stop.c") ? choose((uint32_t)up.size() + 1, "stop.at") : up.size(), stop_server = choose(2, "stop.s") ? choose((uint32_t)down.size() + 1, "stop.at") : down.size();
    bool reader_quits = choose(2, "quit"); size_t quit_at = choose((uint32_t)scale, "quit.at");
    // one side writes all it has while the other reads for a while and may go away
    auto writer = [&](side<K>& me, const std::string& d, size_t stop, const char* who) {
        bool ok = me.write(d.substr(0, stop), true, false);
        ev("%s wrote %s", who, ok ? "all" : "some"); if (!ok) coverage("write-failed");
        return ok;
    };
    auto reader = [&](side<K>& me, const std::string& d, size_t limit, const char* who) {
        std::string got = me.read(limit, false);
        if (got.size() > d.size() || d.compare(0, got.size(), got)) compare(got, d.substr(0, got.size()), who);
        if (got.size() < d.size()) coverage("read-cut");
        ev("%s read %zu", who, got.size());
        return got.size();
    };
    bool client_first = choose(2, "first");
    unsigned done = 0;
    auto run = [&](typename K::client& s, bool client) {
        const char* who = client ? "the client" : "the server";
        side<K> me(&s, choose(3, "cfg.raw") == 0);
        try {
            for (int phase = 0; phase < 2; phase++) {
                bool i_write = (phase == 0) == (client == client_first);
                if (i_write) {
                    bool ok = writer(me, client ? up : down, client ? stop_client : stop_server, who);
                    if (!ok) break;
                    if (stop_client < up.size() && client) break;          // goes away in the middle
                    if (stop_server < down.size() && !client) break;
                } else {
                    const std::string& d = client ? down : up;
                    bool quit = reader_quits && phase == 0;
                    size_t n = reader(me, d, quit ? std::min(quit_at, d.size()) : d.size(), who);
                    if (quit) { coverage("reader-left"); break; }
                    if (n < d.size()) break;
                }
            }
            // A connection whose other end is gone takes no data for long
            if (choose(2, "linger") == 0) {
                sim::sleep_ns(400000000000ll);       // the other side is done and gone by now, or it never will be
                if (done) {
                    bool ok = true;
                    for (int i = 0; i < 4 && ok; i++) { ok = me.write("x", true, false); sim::sleep_ns(1000000000ll); }
                    if (ok) violation("write-into-void", "%s went on writing with success although the other side has closed the connection", who);
                    coverage("wrote-to-closed");
                }
            }
        } catch (const std::exception& e) { violation("exception", "%s: reading or writing a broken connection threw %s", who, e.what()); }
        s.close();
        done++;
    };
    std::thread c([&] {
        try {
            auto s = K::make_client(false, lg.get());
            connect_to(s, false, PORT);
            run(s, true);
        } catch (const std::exception& e) { coverage("connect-failed"); if (!K::handshake) violation("exception", "connecting threw %s", e.what()); done++; net::reset_all(); }
    });
    {
        std::unique_ptr<typename K::client> s;
        try { s.reset(new typename K::client(server.accept())); } catch (const std::exception& e) { coverage("accept-failed"); if (!K::handshake) violation("exception", "accepting threw %s", e.what()); }
        if (s) run(*s, false); else { done++; net::reset_all(); }
    }
    c.join();
    server.close();
    if (done != 2) violation("incomplete", "%u sides of 2 finished", done);
    if (net::open_fds()) violation("descriptor-leak", "%d sockets are still open", net::open_fds());
    state_hash(faults_injected * 31 + up.size() * 7 + down.size());
}
