// HTTP streams: messages written and read through the repository's streams, over the simulated
// network and from byte sources that split, end or fail anywhere.
#include "nettest.h"
#include "http.h"
#include <sstream>

typedef abc::http_server_stream<diag_log> server_t; typedef abc::http_client_stream<diag_log> client_t;
typedef abc::http_request_istream<diag_log> req_in; typedef abc::http_request_ostream<diag_log> req_out;
typedef abc::http_response_istream<diag_log> res_in; typedef abc::http_response_ostream<diag_log> res_out;
struct plain { typedef abc::tcp_client_socket<diag_log> client; typedef abc::tcp_server_socket<diag_log> server; static constexpr bool ipv6 = false, handshake = false; };

// The classes of chars, as RFC 2616 and the documentation of the streams have them.
static bool c_print(int c) { return c > 0x20 && c < 0x7f; }
static bool c_space(int c) { return c == ' ' || c == '\t'; }
static bool c_token(int c) { return c_print(c) && !strchr("()<>[]{}@,;:\\/\"?=", c); }
static bool c_digit(int c) { return c >= '0' && c <= '9'; }
static bool c_alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static std::string chars_of(bool (*f)(int)) { std::string s; for (int c = 1; c < 127; c++) if (f(c)) s.push_back((char)c); return s; }
static std::string text(size_t n, bool (*f)(int), const char* tag) { static std::map<void*, std::string> m; auto& a = m[(void*)f]; if (a.empty()) a = chars_of(f); std::string s; uint64_t x = choose(1u << 31, tag); for (size_t i = 0; i < n; i++) { x = mix(x); s.push_back(a[x % a.size()]); } return s; }
static size_t len(const char* tag) { return choose(6, tag) == 0 ? pick(1, 300, tag) : pick(1, 12, tag); }
static std::string spaces(unsigned lo, unsigned hi, const char* tag) { std::string s; for (unsigned n = pick(lo, hi, tag); n > 0; n--) s += choose(3, tag) ? ' ' : '\t'; return s; }

struct value { std::string given, meant; };          // a header value as given, and with its spaces and folds made one
static value header_value() {
    value v; v.given = spaces(0, 2, "v.lead");
    auto fold = [&] { std::string s; do s += spaces(0, 2, "v.sp") + "\r\n" + spaces(1, 2, "v.sp"); while (choose(4, "v.fold") == 0); return s; };
    unsigned n = choose(5, "v.words");
    if (n && choose(8, "v.lead2") == 0) { v.given += fold(); coverage("empty-first-line"); }
    for (unsigned i = 0; i < n; i++) {
        if (i) { switch (choose(5, "v.sep")) { case 0: v.given += spaces(2, 4, "v.sp"); break; case 1: v.given += fold(); break; default: v.given += " "; } v.meant += " "; }
        std::string w = text(len("v.len"), c_print, "v.text"); v.given += w; v.meant += w;
    }
    if (v.meant.size()) v.given += choose(12, "v.trail2") ? spaces(0, 2, "v.trail") : fold();
    return v;
}
struct message { std::string first, second, third; std::vector<std::pair<std::string, value>> headers; std::string body; };
static message make_message(bool request) {
    message m;
    std::string protocol = choose(3, "m.proto") ? "HTTP/1.1" : "HTTP/" + text(pick(1, 3, "m.dn"), c_digit, "m.d") + "." + text(pick(1, 2, "m.dn"), c_digit, "m.d");
    if (request) { m.first = choose(2, "m.meth") ? "GET" : text(len("m.len"), c_token, "m.method"); m.second = "/" + text(choose(3, "m.rlen") ? choose(20, "m.len") : choose(600, "m.len"), c_print, "m.resource"); m.third = protocol; }
    else {
        m.first = protocol; m.second = choose(2, "m.status") ? "200" : text(len("m.len"), c_digit, "m.code");
        for (unsigned n = choose(4, "m.words"), i = 0; i < n; i++) { if (i) m.third += std::string(1 + choose(3, "m.sp"), ' '); m.third += text(len("m.len"), c_print, "m.reason"); }
    }
    for (unsigned n = choose(6, "m.headers"); n > 0; n--) { std::string name = text(len("h.len"), c_token, "h.name"); m.headers.push_back({name, header_value()}); }
    m.body = random_bytes(choose(3, "m.blen") ? choose(30, "m.blen2") : choose(2000, "m.blen3"), "m.body");
    return m;
}
static std::string fold_header(const value& v) { return v.meant; }
// the bytes of a message: as the streams put them, or with the freedom in spacing that they read
static std::string wire(const message& m, bool request, bool loose) {
    auto sp = [&](bool must) { return !loose ? std::string(must ? " " : "") : spaces(must ? 1 : 0, 3, "w.sp"); };
    std::string s;
    (void)request;
    s = m.first + sp(true) + m.second + sp(true) + m.third + (loose && request ? sp(false) : "") + "\r\n";
    for (auto& h : m.headers) s += h.first + sp(false) + ":" + (loose ? sp(false) + h.second.given : " " + h.second.meant) + "\r\n";
    return s + "\r\n" + m.body;
}
// calls F(pointer, size) with the text at the end of an allocation, with or without its length
template <typename F> static void given(const std::string& s, F f) {
    if (choose(2, "g.sized") || s.find('\0') != std::string::npos) { std::unique_ptr<char[]> b(new char[s.size()]); memcpy(b.get(), s.data(), s.size()); f(b.get(), s.size()); }
    else { std::unique_ptr<char[]> b(new char[s.size() + 1]); memcpy(b.get(), s.c_str(), s.size() + 1); f(b.get(), abc::size::strlen); }
}
// reads an item of known length n into a buffer without room for more
template <typename S, typename F> static std::string taken(S& s, size_t n, size_t extra, F f) {
    size_t room = n + extra + (choose(3, "t.slack") ? 0 : choose(40, "t.slack2"));
    std::unique_ptr<char[]> b(new char[room]); memset(b.get(), 'Z', room);
    f(b.get(), room);
    size_t l = strnlen(b.get(), room);
    if (l == room) violation("unterminated", "an item came without its end in a buffer of %zu chars", room);
    if (s.gcount() != l) violation("gcount", "an item of %zu chars came with a count of %zu", l, s.gcount());
    return std::string(b.get(), l);
}
static void same(const std::string& got, const std::string& want, const char* what) { if (got != want) violation("wrong-item", "the %s \"%s\" (%zu chars) came as \"%s\" (%zu chars)", what, show(want).c_str(), want.size(), show(got).c_str(), got.size()); }
template <typename S> static void good(S& s, const char* what) { if (!s.good()) violation("not-good", "the stream is not good after the %s of a correct message", what); }
template <typename S, typename F> static void misuse(S& s, F f, const char* what) {
    if (choose(30, "misuse")) return;
    auto n = s.next();
    if (!throws_std(f, what)) violation("order", "%s was accepted when it is not its turn", what);
    if (s.next() != n) violation("order", "%s out of turn changed whose turn it is", what);
    coverage("misuse");
}

template <typename IN> static void read_headers(IN& s, const message& m) {
    char small[4];
    for (auto& h : m.headers) {
        if (s.next() != abc::http::item::header_name) violation("order", "the next item is %d instead of a header name", (int)s.next());
        same(taken(s, h.first.size(), 1, [&](char* b, size_t n) { s.get_header_name(b, n); }), h.first, "header name"); good(s, "header name");
        misuse(s, [&] { s.get_body(small, 1); }, "get_body()");
        same(taken(s, h.second.meant.size(), 1, [&](char* b, size_t n) { s.get_header_value(b, n); }), h.second.meant, "header value"); good(s, "header value");
        misuse(s, [&] { s.get_header_value(small, 4); }, "get_header_value()");
    }
    same(taken(s, 0, 1, [&](char* b, size_t n) { s.get_header_name(b, n); }), "", "end of headers"); good(s, "end of headers");
    if (s.next() != abc::http::item::body) violation("order", "the next item is %d instead of the body", (int)s.next());
    std::string body;
    while (body.size() < m.body.size()) {
        size_t n = std::min<size_t>(m.body.size() - body.size(), 1 + choose(700, "b.n"));
        std::unique_ptr<char[]> b(new char[n]); s.get_body(b.get(), n);
        if (s.gcount() != n) violation("gcount", "%zu chars of a body came as %zu", n, s.gcount());
        body.append(b.get(), n); good(s, "body");
    }
    if (body != m.body) violation("wrong-item", "the body came with other bytes");
}
static void read_request(req_in& s, const message& m) {
    char small[4];
    misuse(s, [&] { s.get_resource(small, 4); }, "get_resource()");
    same(taken(s, m.first.size(), 1, [&](char* b, size_t n) { s.get_method(b, n); }), m.first, "method"); good(s, "method");
    misuse(s, [&] { s.get_header_name(small, 4); }, "get_header_name()");
    same(taken(s, m.second.size(), 2, [&](char* b, size_t n) { s.get_resource(b, n); }), m.second, "resource"); good(s, "resource");
    misuse(s, [&] { s.get_method(small, 4); }, "get_method()");
    same(taken(s, m.third.size(), 1, [&](char* b, size_t n) { s.get_protocol(b, n); }), m.third, "protocol"); good(s, "protocol");
    read_headers(s, m);
}
static void read_response(res_in& s, const message& m) {
    char small[4];
    same(taken(s, m.first.size(), 1, [&](char* b, size_t n) { s.get_protocol(b, n); }), m.first, "protocol"); good(s, "protocol");
    misuse(s, [&] { s.get_reason_phrase(small, 4); }, "get_reason_phrase()");
    same(taken(s, m.second.size(), 1, [&](char* b, size_t n) { s.get_status_code(b, n); }), m.second, "status code"); good(s, "status code");
    same(taken(s, m.third.size(), 1, [&](char* b, size_t n) { s.get_reason_phrase(b, n); }), m.third, "reason phrase"); good(s, "reason phrase");
    read_headers(s, m);
}
template <typename OUT> static void write_headers(OUT& s, const message& m) {
    for (auto& h : m.headers) {
        given(h.first, [&](const char* b, size_t n) { s.put_header_name(b, n); }); good(s, "header name");
        misuse(s, [&] { s.end_headers(); }, "end_headers()");
        given(h.second.given, [&](const char* b, size_t n) { s.put_header_value(b, n); }); good(s, "header value");
        misuse(s, [&] { s.put_body("x", 1); }, "put_body()");
    }
    s.end_headers(); good(s, "end of headers");
    size_t o = 0;
    while (o < m.body.size()) {
        size_t n = std::min<size_t>(m.body.size() - o, 1 + choose(700, "b.n"));
        std::unique_ptr<char[]> b(new char[n]); memcpy(b.get(), m.body.data() + o, n);
        s.put_body(b.get(), n); good(s, "body"); o += n;
    }
    if (o == 0 && choose(2, "b.empty")) s.put_body("", abc::size::strlen);
    s.flush(); good(s, "flush");
}
static void write_request(req_out& s, const message& m) {
    misuse(s, [&] { s.put_protocol("HTTP/1.1"); }, "put_protocol()");
    given(m.first, [&](const char* b, size_t n) { s.put_method(b, n); }); given(m.second, [&](const char* b, size_t n) { s.put_resource(b, n); });
    misuse(s, [&] { s.put_method("GET"); }, "put_method()");
    given(m.third, [&](const char* b, size_t n) { s.put_protocol(b, n); }); good(s, "request line");
    write_headers(s, m);
}
static void write_response(res_out& s, const message& m) {
    given(m.first, [&](const char* b, size_t n) { s.put_protocol(b, n); }); given(m.second, [&](const char* b, size_t n) { s.put_status_code(b, n); });
    misuse(s, [&] { s.put_protocol("HTTP/1.1"); }, "put_protocol()");
    if (m.third.empty() && choose(2, "w.null")) s.put_reason_phrase(nullptr); else given(m.third, [&](const char* b, size_t n) { s.put_reason_phrase(b, n); });
    good(s, "status line");
    write_headers(s, m);
}

// ---------------------------------------------------------------- H01: what is written is read
static void p_roundtrip() {
    net_schedule();
    set_step_limit(60000000ull);
    if (chance(600, "cfg.faults")) { set_fault_rate(F_SHORT_SEND, choose(2, "f.ss") ? 200 : 0); set_fault_rate(F_SHORT_RECV, choose(2, "f.sr") ? 300 : 0); set_fault_rate(F_NET_DELAY, choose(2, "f.d") ? 30 : 0); }
    log_holder lg(250);
    plain::server server(abc::socket::family::ipv4, nullptr);
    server.bind(PORT); server.listen(5);
    unsigned N = pick(1, 3, "cfg.n");
    struct exchange { message req, res; bool move; };
    std::vector<exchange> plan; for (unsigned i = 0; i < N; i++) plan.push_back({make_message(true), make_message(false), choose(4, "cfg.move") == 0});
    int peer = (int)choose(4, "cfg.peer");                 // 0, 1: streams on both sides; 2: bytes from the harness instead of the client; 3: instead of the server
    bool loose = choose(2, "cfg.loose");
    std::thread ct([&] {
        plain::client c(abc::socket::family::ipv4, nullptr);
        c.connect("localhost", PORT);
        side<plain> raw(&c, true);
        abc::socket_streambuf<plain::client, diag_log> sb(&c);
        std::unique_ptr<client_t> s(new client_t(&sb, lg.get()));
        for (auto& x : plan) {
            if (peer == 2) {
                std::string w = wire(x.req, true, loose); if (!raw.write(w, true, false)) violation("write-failed", "bytes could not be sent");
                std::string want = wire(x.res, false, false), got = raw.read(want.size(), false);
                if (got != want) { size_t i = 0; while (i < got.size() && got[i] == want[i]) i++; violation("wrong-bytes", "the response went out as \"...%s\" instead of \"...%s\"", show(got.substr(i > 10 ? i - 10 : 0)).c_str(), show(want.substr(i > 10 ? i - 10 : 0)).c_str()); }
            } else {
                write_request(*s, x.req);
                if (x.move) { std::unique_ptr<client_t> n(new client_t(std::move(*s))); s = std::move(n); coverage("client-moved"); }
                read_response(*s, x.res);
                s->req_out::reset(); s->res_in::reset();
            }
        }
        c.close();
    });
    {
        auto c = server.accept();
        side<plain> raw(&c, true);
        abc::socket_streambuf<plain::client, diag_log> sb(&c);
        std::unique_ptr<server_t> s(new server_t(&sb, lg.get()));
        for (auto& x : plan) {
            if (peer == 3) {
                std::string want = wire(x.req, true, false), got = raw.read(want.size(), false);
                if (got != want) { size_t i = 0; while (i < got.size() && got[i] == want[i]) i++; violation("wrong-bytes", "the request went out as \"...%s\" instead of \"...%s\"", show(got.substr(i > 10 ? i - 10 : 0)).c_str(), show(want.substr(i > 10 ? i - 10 : 0)).c_str()); }
                std::string w = wire(x.res, false, loose); if (!raw.write(w, true, false)) violation("write-failed", "bytes could not be sent");
            } else {
                read_request(*s, x.req);
                if (x.move) { std::unique_ptr<server_t> n(new server_t(std::move(*s))); s = std::move(n); coverage("server-moved"); }
                write_response(*s, x.res);
                s->req_in::reset(); s->res_out::reset();
            }
        }
        if (peer != 3 && choose(2, "cfg.end")) {       // nothing follows the last message
            char b[8]; s->get_method(b, sizeof b);
            if (s->req_in::good() || b[0] || s->gcount()) violation("extra-data", "a method \"%s\" came after the end of the connection", show(b).c_str());
        }
    }
    ct.join(); server.close();
    if (net::open_fds()) violation("descriptor-leak", "%d sockets are still open", net::open_fds());
    for (auto& x : plan) state_hash(x.req.headers.size() * 1000 + x.res.headers.size() * 100 + peer * 10 + x.move);
}

// ---------------------------------------------------------------- H02: any bytes at all
// A source of bytes that comes in pieces, ends anywhere and may throw.
struct source : std::streambuf {
    std::string d; size_t pos = 0; bool throws; char buf[64];
    source(const std::string& d, bool throws) : d(d), throws(throws) {}
    int_type underflow() override {
        if (pos >= d.size()) { if (throws) throw std::runtime_error("source"); return traits_type::eof(); }
        size_t n = std::min<size_t>(d.size() - pos, 1 + choose(64, "src.n")); memcpy(buf, d.data() + pos, n); pos += n;
        setg(buf, buf, buf + n); return traits_type::to_int_type(buf[0]);
    }
    void again(const std::string& n) { d = n; pos = 0; setg(buf, buf, buf); }
};
// The grammar: where an item ends and what it is, or that there is none. open: the item was whole, but what
// comes behind it is the end of the input or no ASCII char, which a reader may or may not have noticed.
struct grammar {
    const std::string& s; size_t p = 0; bool ok = true, open = false;
    int at(size_t i) const { return i < s.size() ? (unsigned char)s[i] : -1; }
    void look() { int c = at(p); if (c < 0 || c >= 0x80) open = true; }
    std::string run(bool (*f)(int)) { size_t b = p; while (p < s.size() && f(at(p))) p++; look(); return s.substr(b, p - b); }
    void skip() { while (c_space(at(p))) p++; look(); }
    void crlf() { if (at(p) == '\r' && at(p + 1) == '\n') { p += 2; } else ok = false; }
};
static bool c_line(int c) { return c_print(c) || c_space(c); }

struct outcome { std::string item; bool ok, open; int next; };   // next: -1 = as usual
static outcome expect(grammar& g, int item, size_t room) {
    using namespace abc::http; outcome o{"", true, false, -1}; g.open = false;
    switch (item) {
    case item::method: o.item = g.run(c_token); g.skip(); if (o.item.size() > room - 1) g.ok = false; break;
    case item::resource: o.item = g.run(c_print); g.skip(); if (o.item.size() > room - 2) g.ok = false; break;
    case item::protocol: {
        std::string a = g.run(c_alpha), b, c; for (auto& ch : a) ch = (char)toupper(ch);
        if (a != "HTTP" || g.at(g.p) != '/') { g.ok = false; break; }
        std::string lit = g.s.substr(g.p - 4, 4); g.p++;
        b = g.run(c_digit); if (g.at(g.p) != '.') { g.ok = false; break; }
        g.p++; c = g.run(c_digit); g.skip();
        o.item = lit + "/" + b + "." + c; if (o.item.size() > room - 1) g.ok = false;
        break; }
    case item::status_code: o.item = g.run(c_digit); g.skip(); if (o.item.size() > room - 1) g.ok = false; break;
    case item::reason_phrase: o.item = g.run(c_line); if (o.item.size() > room - 1) g.ok = false; g.crlf(); g.open = false; break;
    case item::header_name:
        o.item = g.run(c_token); if (o.item.size() > room - 1) g.ok = false; g.skip();
        if (o.item.empty()) { g.crlf(); g.open = false; o.next = item::body; break; }
        if (g.at(g.p) != ':') g.ok = false; else { g.p++; g.open = false; g.skip(); }
        break;
    case item::header_value: {
        do {
            for (;;) { g.skip(); std::string w = g.run(c_print); if (w.empty()) break; if (!o.item.empty()) o.item += " "; o.item += w; }
            g.open = false; g.crlf();
        } while (g.ok && c_space(g.at(g.p)));
        g.look(); if (o.item.size() > room - 1) g.ok = false;
        break; }
    case item::body: o.item = g.s.substr(std::min(g.p, g.s.size()), room); g.p += o.item.size(); if (o.item.size() < room) g.ok = false; break;
    }
    if (item != item::body && item != item::header_value && item != item::reason_phrase && item != item::header_name) {
        // what ends the line
        if (item == item::protocol && g.ok) o.next = -2;
    }
    o.ok = g.ok; o.open = g.open;
    return o;
}
static void p_garbage() {
    using namespace abc::http;
    set_step_limit(20000000ull);
    log_holder lg(300);
    bool request = choose(2, "cfg.request");
    std::string in;
    if (choose(5, "in.kind") == 0) { size_t n = choose(200, "in.n"); uint64_t x = choose(1u << 31, "in.x"); const char* al = "\r\n :\t/?.HTPGE019;=\"\x7f\x80\xff\x00(),"; for (size_t i = 0; i < n; i++) { x = mix(x); in.push_back(x & 256 ? (char)(x >> 16) : al[(x >> 16) % 26]); } }
    else {
        message m = make_message(request); in = wire(m, request, choose(2, "in.loose"));
        for (unsigned n = choose(4, "in.mut"); n > 0 && in.size(); n--) {
            size_t limit = choose(3, "in.front") ? std::min<size_t>(in.size(), 60) : in.size(), at = choose((uint32_t)limit, "in.at");
            switch (choose(6, "in.how")) {
            case 0: in.erase(at, 1 + choose(4, "in.len")); break;
            case 1: in.insert(at, 1, "\r\n :\t/\x80\xff\x00.A0"[choose(12, "in.ins")]); break;
            case 2: in[at] = (char)choose(256, "in.byte"); break;
            case 3: { std::string part = in.substr(at, choose(30, "in.len")); in.insert(at, part); break; }
            case 4: in.insert(at, choose(100, "in.fill"), "a \t"[choose(3, "in.fillc")]); break;
            default: in.resize(at); break;
            }
        }
        if (choose(4, "in.cut") == 0 && in.size()) in.resize(choose((uint32_t)in.size(), "in.cutat"));
    }
    source src(in, choose(3, "in.throws") == 0);
    std::unique_ptr<server_t> sv; std::unique_ptr<client_t> cl;
    if (request) sv.reset(new server_t(&src, lg.get())); else cl.reset(new client_t(&src, lg.get()));
    grammar g{in}; bool certain = true, alive = true; int want_next = request ? item::method : item::protocol; unsigned good_items = 0;
    for (unsigned step = 0; step < 60; step++) {
        int next = request ? (int)sv->req_in::next() : (int)cl->res_in::next();
        if (alive && certain && next != want_next) violation("order", "after %u items the next one is %d instead of %d, reading \"%s\"", step, next, want_next, show(in).c_str());
        size_t room = choose(4, "r.small") ? 700 : 2 + choose(30, "r.room");
        if (next == item::body) room = 1 + choose(300, "r.body");
        std::unique_ptr<char[]> b(new char[room]); memset(b.get(), 'Z', room);
        bool more = choose(6, "r.more") || alive;
        if (!more) break;
        switch (next) {
        case item::method: sv->get_method(b.get(), room); break;
        case item::resource: sv->get_resource(b.get(), room); break;
        case item::protocol: request ? sv->get_protocol(b.get(), room) : cl->get_protocol(b.get(), room); break;
        case item::status_code: cl->get_status_code(b.get(), room); break;
        case item::reason_phrase: cl->get_reason_phrase(b.get(), room); break;
        case item::header_name: request ? sv->get_header_name(b.get(), room) : cl->get_header_name(b.get(), room); break;
        case item::header_value: request ? sv->get_header_value(b.get(), room) : cl->get_header_value(b.get(), room); break;
        case item::body: request ? sv->get_body(b.get(), room) : cl->get_body(b.get(), room); break;
        default: violation("order", "the next item is %d", next);
        }
        bool now_good = request ? sv->req_in::good() : cl->res_in::good(); size_t count = request ? sv->gcount() : cl->gcount();
        std::string got;
        if (next == item::body) { if (count > room) violation("gcount", "a body of %zu chars in a buffer of %zu", count, room); got.assign(b.get(), count); }
        else {
            size_t l = strnlen(b.get(), room); if (l == room) violation("unterminated", "item %d came without its end in a buffer of %zu chars, reading \"%s\"", next, room, show(in).c_str());
            got.assign(b.get(), l);
            if (next == item::resource && b[l + 1]) violation("unterminated", "a resource came without its second end");
            if (now_good && count != l) violation("gcount", "item %d of %zu chars came with a count of %zu", next, l, count);
        }
        if (!alive && now_good) violation("revived", "a stream that was not good is good again after reading item %d of \"%s\"", next, show(in).c_str());
        if (!alive && !got.empty() && next != item::protocol) violation("after-failure", "\"%s\" came out of a stream that was not good", show(got).c_str());
        if (alive) {
            outcome o = expect(g, next, room);
            if (next == item::protocol && g.ok && request) { bool was_open = o.open; g.crlf(); o.ok = g.ok; o.open = g.ok ? false : was_open; }
            if (now_good && !o.ok) violation("accepted", "item %d was read as \"%s\" with the stream good, although there is none at this place, reading \"%s\"", next, show(got).c_str(), show(in).c_str());
            if (now_good && got != o.item) violation("wrong-item", "item %d came as \"%s\" instead of \"%s\", reading \"%s\"", next, show(got).c_str(), show(o.item).c_str(), show(in).c_str());
            if (!now_good && o.ok && !o.open) violation("refused", "item %d, \"%s\", was refused, reading \"%s\"", next, show(o.item).c_str(), show(in).c_str());
            if (next == item::body && got != o.item) violation("wrong-item", "%zu chars of the body came instead of %zu, or others, reading \"%s\"", got.size(), o.item.size(), show(in).c_str());
            if (!now_good) { alive = false; coverage("failed"); } else good_items++;
            want_next = next == item::method ? item::resource : next == item::resource ? item::protocol : next == item::protocol ? (request ? item::header_name : item::status_code) : next == item::status_code ? item::reason_phrase
                : next == item::reason_phrase ? item::header_name : next == item::header_name ? (o.next == item::body ? item::body : item::header_value) : next == item::header_value ? item::header_name : item::body;
        }
        if (choose(12, "r.move") == 0) {
            if (request) { std::unique_ptr<server_t> n(new server_t(std::move(*sv))); sv = std::move(n); } else { std::unique_ptr<client_t> n(new client_t(std::move(*cl))); cl = std::move(n); }
            bool g2 = request ? sv->req_in::good() : cl->res_in::good(); size_t c2 = request ? sv->gcount() : cl->gcount();
            if (g2 != now_good) violation("move", "a stream that is %sgood is %sgood after a move", now_good ? "" : "not ", g2 ? "" : "not ");
            if (c2 != count) violation("move", "the count of %zu became %zu by a move", count, c2);
            coverage("moved");
        }
        if (next == item::body && !alive) break;
    }
    if (alive) coverage("read-through");
    if (choose(4, "r.reset") == 0) {
        // after a reset the stream takes whatever message comes next
        message m = make_message(request); src.again(wire(m, request, choose(2, "in.loose")));
        if (request) { sv->req_in::reset(); good(*static_cast<req_in*>(sv.get()), "reset"); if (sv->gcount()) violation("reset", "the count is %zu after a reset", sv->gcount()); read_request(*sv, m); }
        else { cl->res_in::reset(); good(*static_cast<res_in*>(cl.get()), "reset"); if (cl->gcount()) violation("reset", "the count is %zu after a reset", cl->gcount()); read_response(*cl, m); }
        coverage(alive ? "reset-good" : "reset-failed");
    }
    state_hash(good_items * 10 + alive + request * 1000 + hash64(in.data(), std::min<size_t>(in.size(), 8)) % 64 * 10000);
}

// ---------------------------------------------------------------- H03: writing anything
struct sink : std::streambuf {
    std::string d; size_t limit;
    sink(size_t l) : limit(l) {}
    int_type overflow(int_type c) override { if (d.size() >= limit) return traits_type::eof(); d.push_back((char)c); return traits_type::not_eof(c); }
};
static std::string odd_text(bool (*f)(int), const char* tag) {
    std::string s = text(len(tag), f, tag);
    if (choose(3, tag) == 0) { size_t at = choose((uint32_t)s.size() + 1, tag); s.insert(at, 1, "\r\n :\t\x7f\x80\xff\x01=/"[choose(11, tag)]); }
    if (choose(12, tag) == 0) s.insert(choose((uint32_t)s.size() + 1, tag), "\r\nX: y");
    return s;
}
static void p_write() {
    set_step_limit(20000000ull);
    log_holder lg(300);
    bool request = choose(2, "cfg.request");
    sink out(choose(3, "cfg.full") ? 1 << 20 : choose(200, "cfg.limit"));
    server_t sv(&out, lg.get()); client_t cl(&out, lg.get());
    auto is_good = [&] { return request ? cl.req_out::good() : sv.res_out::good(); };
    std::string want; bool alive = true;
    auto step = [&](const std::string& item, const std::string& bytes, const char* what, bool valid) {
        // while the stream is good, exactly what was given has gone out, in its place
        if (is_good()) {
            if (!alive) violation("revived", "a stream that was not good is good again after the %s", what);
            if (!valid) violation("accepted", "the stream is good after the %s \"%s\", which cannot be one", what, show(item).c_str());
            want += bytes;
            if (out.d != want) { size_t i = 0; while (i < out.d.size() && i < want.size() && out.d[i] == want[i]) i++; violation("wrong-bytes", "the %s \"%s\" went out as \"%s\" with the stream good", what, show(item).c_str(), show(out.d.substr(i > 10 ? i - 10 : 0)).c_str()); }
        } else {
            if (alive && valid && out.limit > want.size() + bytes.size()) violation("refused", "the %s \"%s\" was refused", what, show(item).c_str());
            if (alive) { std::string b = want + bytes; (void)b; if (out.d.compare(0, want.size(), want)) violation("wrong-bytes", "what had gone out changed"); want = out.d; coverage("refused"); }
            else if (out.d != want) violation("after-failure", "\"%s\" went out of a stream that was not good", show(out.d.substr(std::min(out.d.size(), want.size()))).c_str());
            alive = false;
        }
    };
    auto all = [](const std::string& s, bool (*f)(int)) { for (unsigned char c : s) if (!f(c)) return false; return true; };
    std::string s;
    auto protocol = [&](const char* end) {
        s = choose(3, "p.kind") ? "HTTP/1.1" : odd_text([](int c) { return c == 'H' || c == 'T' || c == 'P' || c == '/' || c == '.' || c_digit(c); }, "p.odd");
        if (choose(4, "p.near") == 0) { s = "HTTP/1.1"; s.insert(choose(9, "p.at"), 1, "x1. /\r"[choose(6, "p.ins")]); }
        given(s, [&](const char* b, size_t n) { request ? cl.put_protocol(b, n) : sv.put_protocol(b, n); });
        bool shape = s.size() >= 5 && !strncasecmp(s.c_str(), "HTTP/", 5); size_t i = 5;
        if (shape) { while (i < s.size() && c_digit((unsigned char)s[i])) i++; if (i < s.size()) { shape = i > 5 && s[i] == '.'; size_t j = ++i; while (i < s.size() && c_digit((unsigned char)s[i])) i++; if (i < s.size() || (i == j && false)) shape = false; } }
        std::string put = s; if (shape) put.replace(0, 5, "HTTP/");
        step(s, put + end, "protocol", shape);
    };
    if (request) {
        s = odd_text(c_token, "x.method"); given(s, [&](const char* b, size_t n) { cl.put_method(b, n); }); step(s, s + " ", "method", all(s, c_token));
        s = odd_text(c_print, "x.resource"); given(s, [&](const char* b, size_t n) { cl.put_resource(b, n); }); step(s, s + " ", "resource", all(s, c_print));
        protocol("\r\n");
    } else {
        protocol(" ");
        s = odd_text(c_digit, "x.status"); given(s, [&](const char* b, size_t n) { sv.put_status_code(b, n); }); step(s, s + " ", "status code", all(s, c_digit));
        s = odd_text(c_line, "x.reason"); given(s, [&](const char* b, size_t n) { sv.put_reason_phrase(b, n); }); step(s, s + "\r\n", "reason phrase", all(s, c_line));
    }
    for (unsigned n = choose(4, "x.headers"); n > 0; n--) {
        s = odd_text(c_token, "x.name"); given(s, [&](const char* b, size_t n) { request ? cl.put_header_name(b, n) : sv.put_header_name(b, n); }); step(s, s + ": ", "header name", all(s, c_token));
        value v = header_value(); bool valid = true;
        if (choose(3, "x.vodd") == 0) { v.given.insert(choose((uint32_t)v.given.size() + 1, "x.vat"), (const char*[]){"\r\nSet: x", "\n", "\r", "\x80", "\x01", "\x7f", "\r\n\r\nbody"}[choose(7, "x.vins")]); valid = false; }
        given(v.given, [&](const char* b, size_t n) { request ? cl.put_header_value(b, n) : sv.put_header_value(b, n); }); step(v.given, v.meant + "\r\n", "header value", valid);
    }
    request ? cl.end_headers() : sv.end_headers(); step("", "\r\n", "end of headers", true);
    s = random_bytes(choose(100, "x.body"), "x.bytes"); { std::unique_ptr<char[]> b(new char[s.size()]); memcpy(b.get(), s.data(), s.size()); request ? cl.put_body(b.get(), s.size()) : sv.put_body(b.get(), s.size()); } step("", s, "body", true);
    if (alive) coverage("written-through");
    if (choose(4, "x.reset") == 0) {
        // after a reset the stream writes the next message
        message m = make_message(request); out.d.clear(); out.limit = 1 << 20;
        if (request) { cl.req_out::reset(); good(*static_cast<req_out*>(&cl), "reset"); write_request(cl, m); } else { sv.res_out::reset(); good(*static_cast<res_out*>(&sv), "reset"); write_response(sv, m); }
        if (out.d != wire(m, request, false)) violation("wrong-bytes", "after a reset \"%s\" was written instead of \"%s\"", show(out.d).c_str(), show(wire(m, request, false)).c_str());
        coverage(alive ? "reset-good" : "reset-failed");
    }
    state_hash(out.d.size() * 4 + alive * 2 + request);
}

// ---------------------------------------------------------------- H04: parameters of a resource
static void p_params() {
    set_step_limit(20000000ull);
    auto no = [](const char* bad) { return [bad](int c) { return c_print(c) && !strchr(bad, c); }; };
    (void)no;
    auto name_c = [](int c) { return c_print(c) && c != '?' && c != '&' && c != '='; };
    auto value_c = [](int c) { return c_print(c) && c != '&'; };
    auto path_c = [](int c) { return c_print(c) && c != '?'; };
    std::string path = "/" + text(choose(20, "q.plen"), path_c, "q.path"), r = path;
    std::vector<std::pair<std::string, std::string>> ps;
    unsigned n = choose(6, "q.n");
    for (unsigned i = 0; i < n; i++) {
        std::string name = choose(3, "q.dup") == 0 && !ps.empty() ? ps[choose((uint32_t)ps.size(), "q.which")].first : text(pick(1, 4, "q.nlen"), name_c, "q.name");
        if (choose(4, "q.pre") == 0 && !ps.empty()) { name = ps[choose((uint32_t)ps.size(), "q.which")].first; if (choose(2, "q.shorter") && name.size() > 1) name.pop_back(); else name += "x"; }
        std::string v = text(choose(8, "q.vlen"), value_c, "q.value");
        ps.push_back({name, v}); r += (i ? "&" : "?") + name + "=" + v;
    }
    // the resource comes in through a request, into a buffer with or without room to spare
    source src("GET " + r + " HTTP/1.1\r\n", false);
    abc::http_request_istream<diag_log> s(&src);
    char m[8]; s.get_method(m, sizeof m);
    size_t room = r.size() + 2 + (choose(2, "q.slack") ? 0 : choose(30, "q.slack2"));
    std::unique_ptr<char[]> b(new char[room]); memset(b.get(), choose(2, "q.fill") ? 'Z' : '&', room);
    s.get_resource(b.get(), room);
    if (!s.good()) violation("not-good", "a resource of %zu chars was refused", r.size());
    req_in::split_resource(b.get(), room);
    same(b.get(), path, "path");
    auto look = [&](const std::string& name) {
        std::unique_ptr<char[]> nm(new char[name.size() + 1]); memcpy(nm.get(), name.c_str(), name.size() + 1);
        const char* got = req_in::get_resource_parameter(b.get(), room, nm.get());
        const std::string* want = nullptr; for (auto& p : ps) if (p.first == name) { want = &p.second; break; }
        if (!want != !got) violation("parameter", "parameter \"%s\" is %s in \"%s\"", name.c_str(), got ? "found" : "not found", show(r).c_str());
        if (got) { if (got < b.get() || got >= b.get() + room) violation("parameter", "the value is outside of the buffer"); same(got, *want, "parameter"); coverage("found"); }
    };
    for (auto& p : ps) { look(p.first); look(p.first + "x"); if (p.first.size() > 1) look(p.first.substr(0, p.first.size() - 1)); if (p.second.size()) look(p.second.find('=') == std::string::npos ? p.second : "v"); }
    look(text(pick(1, 3, "q.other"), name_c, "q.othername"));
    state_hash(hash64(r.data(), r.size()));
}

namespace sim {
#define REAL "HTTP streams, socket streams, sockets and log of the repository"
#define STUB "network, byte sources and sinks, threads and clock (simulated)"
const property properties[] = {
    {"H01", p_roundtrip, 6000, 150000, "distinct messages, fragmentations and interleavings", REAL, STUB, 60},
    {"H02", p_garbage, 60000, 1500000, "distinct inputs, splits, ends and buffer sizes", REAL, STUB, 60},
    {"H03", p_write, 60000, 1500000, "distinct sequences of valid and invalid items and full sinks", REAL, STUB, 60},
    {"H04", p_params, 40000, 1000000, "distinct resources and lookups", REAL, STUB, 60},
    {nullptr}
};
const char* harness_name = "http";
}
