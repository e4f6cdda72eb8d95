// The HTTP endpoint: a whole server (listener, a thread per connection, files, REST, shutdown) and its clients,
// well-behaved and not, in one simulated process. Also over TLS.
#include "nettest.h"
#include "openssl_socket.h"
#include "endpoint.h"
#include "tls_cert.h"
#include <openssl/rand.h>
#include <future>

namespace sim { void fill_random_public(void* p, size_t n); void seed_random(uint64_t s); }
static int rnd_bytes(unsigned char* b, int n) { sim::fill_random_public(b, (size_t)n); return 1; }
static int rnd_status() { return 1; }
static RAND_METHOD rnd = {nullptr, rnd_bytes, nullptr, nullptr, rnd_bytes, rnd_status};
static struct warm { warm() { OPENSSL_init_ssl(0, nullptr); RAND_set_rand_method(&rnd); SSL_CTX* c = SSL_CTX_new(TLS_server_method()); SSL* s = SSL_new(c); SSL_free(s); SSL_CTX_free(c); } } warm_;

struct plain {
    typedef abc::tcp_client_socket<diag_log> client; typedef abc::tcp_server_socket<diag_log> server;
    static constexpr bool ipv6 = false, handshake = false;
    static server make_server(abc::endpoint_config*, diag_log* l) { return server(abc::socket::family::ipv4, l); }
    static client make_client() { return client(abc::socket::family::ipv4, nullptr); }
};
struct tls {
    typedef abc::openssl_tcp_client_socket<diag_log> client; typedef abc::openssl_tcp_server_socket<diag_log> server;
    static constexpr bool ipv6 = false, handshake = true;
    static server make_server(abc::endpoint_config* c, diag_log* l) { return server(c->cert_file_path, c->pkey_file_path, c->pkey_file_password, false, abc::socket::family::ipv4, l); }
    static client make_client() { return client(false, abc::socket::family::ipv4, nullptr); }
};
struct small_limits {
    static constexpr std::size_t method_size = 16, resource_size = 180, protocol_size = 16, file_chunk_size = 7, fsize_size = abc::size::_32;
};

static const char* const ROOT = "/sim/web";
static const char* const PREFIX = "/files/";
static const std::string SECRET = "TOP-SECRET-7391";

// ---------------------------------------------------------------- the server under test
struct journal { unsigned entered = 0, left = 0; bool finished = false; };
static std::map<std::string, journal> handled;          // REST requests by resource
static bool closing_time;                               // the future has been seen ready
static unsigned inside;                                 // handlers running

template <typename K, typename L> struct ep : abc::endpoint<typename K::server, typename K::client, L, diag_log> {
    typedef abc::endpoint<typename K::server, typename K::client, L, diag_log> base;
    bool own_rest, throwing;
    ep(abc::endpoint_config* c, diag_log* l, bool own_rest, bool throwing) : base(c, l), own_rest(own_rest), throwing(throwing) {}
    typename K::server create_server_socket() override { return K::make_server(this->_config, this->_log); }
    struct scope { journal& j; scope(journal& j) : j(j) { inside++; j.entered++; if (closing_time) violation("handled-late", "a request was processed after the shutdown was complete"); } ~scope() { inside--; j.left++; if (closing_time) violation("shutdown-early", "the shutdown was complete while a request was being processed"); } };
    void process_file_request(abc::http_server_stream<diag_log>& http, const char* method, const char* resource, const char* path) override {
        scope s(handled[std::string("file ") + resource]);
        base::process_file_request(http, method, resource, path);
    }
    void process_rest_request(abc::http_server_stream<diag_log>& http, const char* method, const char* resource) override {
        scope s(handled[resource]);
        if (!own_rest || !strcmp(resource, "/shutdown")) { base::process_rest_request(http, method, resource); return; }
        // POST /echo/...: the body comes back
        size_t length = 0; char name[64], value[64];
        for (;;) {
            http.get_header_name(name, sizeof name); if (http.gcount() == 0) break;
            http.get_header_value(value, sizeof value);
            if (!strcasecmp(name, "Content-Length")) length = (size_t)atoi(value);
        }
        std::string body(std::min<size_t>(length, 4000), 0);
        if (!body.empty()) { http.get_body(&body[0], body.size()); body.resize(http.gcount()); }
        if (choose(4, "h.slow") == 0) sleep_ns(pick(1, 50, "h.ms") * 1000000ll);
        if (throwing && strstr(resource, "throw")) throw std::runtime_error("handler");
        body = std::string(method) + " " + resource + "\n" + body;
        if (choose(2, "h.simple") && body.find('\0') == std::string::npos) this->send_simple_response(http, "200", "OK", "text/plain", body.c_str(), 0x1);
        else {
            http.put_protocol("HTTP/1.1"); http.put_status_code("200"); http.put_reason_phrase("OK");
            http.put_header_name("Connection"); http.put_header_value("close"); http.put_header_name("Content-Type"); http.put_header_value("text/plain");
            http.put_header_name("Content-Length"); http.put_header_value(std::to_string(body.size()).c_str()); http.end_headers();
            http.put_body(body.data(), body.size());
        }
        s.j.finished = true;
    }
};

// ---------------------------------------------------------------- the clients
struct want_t { std::string request; int status; std::string type, body; bool body_known, rest, body_unread; std::string key; };
struct file_t { std::string resource, content, type; };
static std::vector<file_t> files;

static std::string method_of(const std::string& r) { return r.substr(0, r.find(' ')); }
static std::string headers(bool length, size_t n) {
    std::string h = "Host: localhost\r\n";
    for (unsigned k = choose(4, "c.headers"); k > 0; k--) h += "X-" + std::to_string(k) + ": " + std::string(1 + choose(50, "c.hlen"), 'v') + "\r\n";
    if (length) h += "Content-Length: " + std::to_string(n) + "\r\n";
    return h + "\r\n";
}
static unsigned serial;
static bool shutting;                                   // a shutdown has been asked for: the listener may be gone
static bool big;                                       // large files and bodies, and no log of every byte
// a correct request and what has to come back
static want_t make_request(bool own_rest) {
    want_t w; w.status = 200; w.body_known = true; w.rest = false; w.body_unread = false;
    const char* get = choose(4, "q.case") ? "GET" : "get";
    switch (choose(own_rest ? 9 : 8, "q.kind")) {
    case 0: case 1: case 2: case 3: {
        auto& f = files[choose((uint32_t)files.size(), "q.file")];
        w.key = "file " + f.resource; w.request = std::string(get) + " " + f.resource + " HTTP/1.1\r\n" + headers(false, 0); w.type = f.type; w.body = f.content; break; }
    case 4: { std::string r = (const char*[]){"/files/nothing.html", "/files/nothing", "/files/a/b/c.txt", "/files/missing.dir/x"}[choose(4, "q.miss")]; w.key = "file " + r; w.request = std::string(get) + " " + r + " HTTP/1.1\r\n" + headers(false, 0); w.status = 404; w.body_known = false; break; }
    case 5: { std::string r = choose(2, "q.dir") ? "/files/sub" : "/files/sub/"; w.key = "file " + r; w.request = std::string(get) + " " + r + " HTTP/1.1\r\n" + headers(false, 0); w.status = 404; w.body_known = false; break; }
    case 6: { auto& f = files[choose((uint32_t)files.size(), "q.file")]; if (f.resource == "/favicon.ico") return make_request(own_rest); w.key = "file " + f.resource; std::string b(choose(2, "q.b") ? 0 : choose(200, "q.blen"), 'b'); w.body_unread = !b.empty(); w.request = std::string((const char*[]){"POST", "PUT", "DELETE", "HEAD", "GETX"}[choose(5, "q.m")]) + " " + f.resource + " HTTP/1.1\r\n" + headers(true, b.size()) + b; w.status = 405; w.body_known = false; break; }
    case 7: if (!own_rest) { w.key = "/other" + std::to_string(++serial); w.rest = true; w.request = "GET " + w.key + " HTTP/1.1\r\n" + headers(false, 0); w.body_known = false; w.type = "text/plain; charset=utf-8"; break; }  // fall through
    default: {
        w.key = "/echo/" + std::to_string(++serial); w.rest = true;
        std::string b = random_bytes(!big || choose(3, "q.b") ? choose(100, "q.blen") : choose(3000, "q.blen2"), "q.body"), m = (const char*[]){"POST", "PUT", "PATCH"}[choose(3, "q.rm")];
        w.request = m + " " + w.key + " HTTP/1.1\r\n" + headers(true, b.size()) + b; w.type = "text/plain"; w.body = m + " " + w.key + "\n" + b; }
    }
    return w;
}
struct got_t { bool connected = false, sent = false, reset = false; std::string bytes; };
// sends some bytes in pieces, with pauses
template <typename C> static bool send_pieces(C& c, const std::string& d) {
    size_t o = 0; bool slow = choose(3, "c.slow") == 0;
    while (o < d.size()) {
        size_t n = std::min<size_t>(d.size() - o, slow ? 1 + choose(40, "c.piece") : 1 + choose(4000, "c.piece2"));
        size_t k = c.send(d.data() + o, n); if (k == 0) return false;
        o += k; if (slow && choose(3, "c.pause") == 0) sleep_ns(pick(1, 2000, "c.us") * 1000);
    }
    return true;
}
template <typename C> static std::string receive_all(C& c, size_t limit) {
    std::string d; bool slow = choose(4, "c.rslow") == 0; char b[4096];
    while (d.size() < limit) {
        size_t k = c.receive(b, slow ? 1 + choose(100, "c.rn") : sizeof b); if (k == 0) break;
        d.append(b, k); if (slow && choose(10, "c.rpause") == 0) sleep_ns(pick(1, 2000, "c.us") * 1000);
    }
    return d;
}
template <typename K> static got_t exchange(const std::string& request, bool faults) {
    got_t g;
    bool threw = throws_std([&] {
        auto c = K::make_client(); c.connect("localhost", PORT); g.connected = true;
        g.sent = send_pieces(c, request);
        g.bytes = receive_all(c, 1u << 24);
    }, "a client");
    if (threw && !faults && !shutting) violation("client-failed", "a client could not connect");
    return g;
}
struct response { int status = 0; std::string reason, type; long length = -1; std::string body; };
// true if the bytes are a whole response
static bool parse(const std::string& s, response& r, std::string& why) {
    size_t e = s.find("\r\n\r\n"); if (e == std::string::npos) { why = "the headers do not end"; return false; }
    size_t p = s.find("\r\n"); std::string line = s.substr(0, p);
    if (line.compare(0, 9, "HTTP/1.1 ") || line.size() < 13 || line[12] != ' ') { why = "the status line is \"" + show(line) + "\""; return false; }
    r.status = atoi(line.c_str() + 9); r.reason = line.substr(13); r.body = s.substr(e + 4);
    int conn = 0, types = 0, lengths = 0;
    while (p < e) {
        size_t n = s.find("\r\n", p + 2); std::string h = s.substr(p + 2, n - p - 2); p = n; size_t c = h.find(": ");
        if (c == std::string::npos) { why = "there is a header \"" + show(h) + "\""; return false; }
        std::string name = h.substr(0, c), v = h.substr(c + 2);
        if (name == "Connection" && v == "close") conn++;
        else if (name == "Content-Type") { types++; r.type = v; }
        else if (name == "Content-Length") { lengths++; r.length = atol(v.c_str()); if (v != std::to_string(r.length)) { why = "the length is \"" + show(v) + "\""; return false; } }
        else { why = "there is a header \"" + show(h) + "\""; return false; }
    }
    if (conn != 1 || types > 1 || lengths != 1) { why = "there are " + std::to_string(conn) + " Connection, " + std::to_string(types) + " Content-Type and " + std::to_string(lengths) + " Content-Length headers"; return false; }
    if ((long)r.body.size() != r.length) { why = "the body has " + std::to_string(r.body.size()) + " bytes and its length is given as " + std::to_string(r.length); return false; }
    return true;
}
static const char* reason_of(int status) { return status == 200 ? "OK" : status == 404 ? "Not Found" : status == 405 ? "Method Not Allowed" : "?"; }
static std::string line_of(const want_t& w) { return show(w.request.substr(0, w.request.find('\r'))); }
// the whole and right response
static void check_exact(const want_t& w, const got_t& g) {
    response r; std::string why;
    if (g.bytes.empty()) violation("no-response", "\"%s\" got no response", line_of(w).c_str());
    if (!parse(g.bytes, r, why)) violation("broken-response", "the response to \"%s\" (%zu bytes) is broken: %s", line_of(w).c_str(), g.bytes.size(), why.c_str());
    if (r.status != w.status) violation("wrong-status", "\"%s\" got status %d instead of %d", line_of(w).c_str(), r.status, w.status);
    if (r.reason != reason_of(r.status)) violation("wrong-reason", "\"%s\" got status %d with the reason \"%s\"", line_of(w).c_str(), r.status, show(r.reason).c_str());
    if (w.status == 200 && r.type != w.type) violation("wrong-type", "\"%s\" got content type \"%s\" instead of \"%s\"", line_of(w).c_str(), show(r.type).c_str(), w.type.c_str());
    if (w.body_known && r.body != w.body) { size_t i = 0; while (i < r.body.size() && i < w.body.size() && r.body[i] == w.body[i]) i++; violation("wrong-body", "\"%s\" got a body of %zu bytes that differs at %zu from the right one of %zu bytes", line_of(w).c_str(), r.body.size(), i, w.body.size()); }
    if (!w.body_known && r.body.empty()) violation("wrong-body", "\"%s\" got an empty body", line_of(w).c_str());
}
// with faults: nothing, a beginning of the right response, or the right response; or an error that the disk explains
static void check_lenient(const want_t& w, const got_t& g, bool disk) {
    response r; std::string why;
    if (g.bytes.empty()) return;
    if (parse(g.bytes, r, why)) {
        if (disk && w.status == 200 && (r.status == 404 || r.status == 500)) return;
        check_exact(w, g); return;
    }
    size_t e = g.bytes.find("\r\n\r\n");
    std::string head = "HTTP/1.1 " + std::to_string(w.status) + " ";
    if (g.bytes.compare(0, head.size(), head.substr(0, g.bytes.size()))) { if (disk && !g.bytes.compare(0, 11, std::string("HTTP/1.1 40").substr(0, g.bytes.size()))) return; violation("wrong-status", "\"%s\" got \"%s\"", line_of(w).c_str(), show(g.bytes).c_str()); }
    if (e == std::string::npos) return;
    std::string body = g.bytes.substr(e + 4);
    if (w.body_known && (body.size() > w.body.size() || w.body.compare(0, body.size(), body))) violation("wrong-body", "\"%s\" got %zu bytes of body that are not the beginning of the right one of %zu bytes", line_of(w).c_str(), body.size(), w.body.size());
    std::string cl = "Content-Length: "; size_t c = g.bytes.find(cl); if (c == std::string::npos || c > e) violation("broken-response", "the response to \"%s\" has no length", line_of(w).c_str());
    if (atol(g.bytes.c_str() + c + cl.size()) <= (long)body.size()) violation("broken-response", "the response to \"%s\" is broken: %s", line_of(w).c_str(), why.c_str());
    coverage("cut-response");
}

static void make_files(bool small) {
    files.clear(); handled.clear(); closing_time = false; inside = 0; serial = 0; shutting = false; big = choose(4, "cfg.big") == 0;
    for (auto d : {"/sim", "/sim/web", "/sim/web/files", "/sim/web/files/sub", "/sim/web2", "/sim/web2/files"}) fs::mkdir(d);
    size_t chunk = small ? 7 : 1024; unsigned n = pick(2, 6, "f.n");
    static const char* const types[][2] = {{".html", "text/html; charset=utf-8"}, {".css", "text/css; charset=utf-8"}, {".js", "text/javascript; charset=utf-8"}, {".txt", "text/plain; charset=utf-8"}, {".xml", "text/xml; charset=utf-8"}, {".png", "image/png"}, {".jpeg", "image/jpeg"}, {".jpg", "image/jpeg"}, {".gif", "image/gif"}, {".bmp", "image/bmp"}, {".svg", "image/svg+xml"}, {".HTML", "text/html; charset=utf-8"}, {".tar", ""}, {"", ""}, {".htm", ""}};
    for (unsigned i = 0; i < n; i++) {
        auto& t = types[choose(15, "f.type")];
        size_t size = (big || small) && choose(3, "f.size") == 0 ? chunk * choose(4, "f.chunks") + choose(3, "f.off") : big && choose(3, "f.size2") == 0 ? choose(9000, "f.any") : choose(300, "f.some");
        file_t f{std::string(choose(3, "f.sub") ? "/files/" : "/files/sub/") + "f" + std::to_string(i) + (choose(4, "f.dot") ? "" : ".x") + t[0], random_bytes(size, "f.data"), t[1]};
        if (i == 0 && choose(3, "f.ico") == 0) f = {"/favicon.ico", f.content, ""};
        if (i == 0 && choose(4, "f.dotted") == 0) f = {"/files/a..b", f.content, ""};
        fs::put((ROOT + f.resource).c_str(), f.content); files.push_back(f);
    }
    for (auto s : {"/sim/secret.txt", "/sim/web/private.txt", "/sim/web2/files/x.txt", "/sim/web2/x.txt"}) fs::put(s, SECRET);
    fs::put("/sim/cert.pem", CERT_PEM); fs::put("/sim/key.pem", KEY_PEM);
    fs::strict = true; fs::outside.clear(); fs::opened.clear();
}

// A running server: starts it, ends it, and looks at what it leaves behind.
template <typename K, typename L> struct server_run {
    abc::endpoint_config config; log_holder lg; ep<K, L> e; std::future<void> done; std::thread own; bool returned = false, async;
    server_run(bool own_rest, bool throwing, int mode)
        : config(PORT, 5, ROOT, PREFIX, K::handshake ? "/sim/cert.pem" : nullptr, K::handshake ? "/sim/key.pem" : nullptr, K::handshake ? "secret" : nullptr), lg(big ? 0 : 250), e(&config, lg.get(), own_rest, throwing), async(mode == 0) {
        if (async) done = e.start_async(); else own = std::thread([this] { e.start(); returned = true; });
        for (unsigned i = 0; !net::listening("127.0.0.1", 30303); i++) { if (i > 100000) violation("not-started", "the server does not listen"); sleep_ns(100000); }
    }
    bool over() { return done.wait_for(std::chrono::seconds(0)) == std::future_status::ready; }
};
static void idle(int64_t ms) { sleep_ns(ms * 1000000); }
template <typename F> static bool soon(F f, int64_t ms = 30000) { for (int64_t i = 0; i < ms; i++) { if (f()) return true; idle(1); } return f(); }

static void server_schedule(bool handshake) {
    net_schedule(handshake);
    if (net::sndbuf < 8192) net::sndbuf = 8192;      // a kernel has room for the headers of a request
    set_step_limit(200000000ull);
    if (handshake) sim::seed_random(choose(1u << 31, "tls.seed") + 1);
}
static void benign_faults() {
    if (!chance(600, "cfg.faults")) return;
    set_fault_rate(F_SHORT_SEND, choose(2, "f.ss") ? 200 : 0); set_fault_rate(F_SHORT_RECV, choose(2, "f.sr") ? 300 : 0);
    set_fault_rate(F_NET_DELAY, choose(2, "f.d") ? 30 : 0); set_fault_rate(F_SHORT_READ, choose(2, "f.rd") ? 300 : 0);
}
template <typename K> static got_t ask_shutdown() { return exchange<K>(std::string(choose(2, "s.case") ? "POST" : "post") + " /shutdown HTTP/1.1\r\n" + headers(false, 0), false); }
// the future of a server gets ready, and nothing is left behind but the listener
template <typename S> static void finish(S& s, int baseline) {
    if (!soon([&] { return s.over(); })) violation("no-shutdown", "the future is not ready 30 s after a shutdown was requested and all clients have gone");
    closing_time = true;
    try { s.done.get(); } catch (...) { violation("odd-future", "the future of a server that was shut down has an exception"); }
    if (inside) violation("shutdown-early", "the shutdown was complete while %u requests were being processed", inside);
    if (!soon([&] { return live_threads() <= baseline + 1; })) violation("thread-leak", "%d threads are left behind", live_threads() - baseline);
    if (net::open_fds() > 1) violation("descriptor-leak", "%d sockets are open besides the listener", net::open_fds() - 1);
    if (fs::open_fds()) violation("descriptor-leak", "%d files are still open", fs::open_fds());
}
static void counts() {
    for (auto& h : handled) if (h.second.entered != h.second.left) violation("handler-stuck", "%s: %u handlers entered, %u left", h.first.c_str(), h.second.entered, h.second.left);
}

// ---------------------------------------------------------------- E01: every request gets its one response
template <typename K, typename L> static void serve(bool small) {
    server_schedule(K::handshake); benign_faults(); make_files(small);
    bool own_rest = choose(4, "cfg.rest") != 0;
    int baseline = live_threads();
    auto s = std::unique_ptr<server_run<K, L>>(new server_run<K, L>(own_rest, false, 0));
    unsigned M = pick(1, K::handshake ? 3 : 5, "cfg.clients");
    std::vector<std::vector<want_t>> plan(M);
    for (auto& p : plan) for (unsigned n = pick(1, 2, "cfg.requests"); n > 0; n--) p.push_back(make_request(own_rest));
    std::map<std::string, unsigned> asked; for (auto& p : plan) for (auto& w : p) asked[w.key]++;
    std::vector<std::thread> ts;
    for (unsigned i = 0; i < M; i++) ts.emplace_back([&, i] {
        for (auto& w : plan[i]) { got_t g = exchange<K>(w.request, false); if (w.body_unread) check_lenient(w, g, false); else check_exact(w, g); coverage(w.rest ? "rest" : w.status == 200 ? "file" : w.status == 404 ? "404" : "405"); }
    });
    // a file that changes while it is served
    if (choose(4, "cfg.changing") == 0) {
        bool shrinks = choose(2, "ch.shrinks"), over = false; size_t top = big || small ? 3000 : 300, size = choose((uint32_t)top, "ch.first"); const char* path = "/sim/web/files/changing.txt";
        fs::put(path, std::string(size, 'c'));
        std::thread changer([&] { for (unsigned n = pick(1, 8, "ch.n"); n > 0; n--) { sleep_ns(pick(1, 3000, "ch.us") * 1000); size = shrinks ? choose((uint32_t)top, "ch.size") : size + choose(300, "ch.more"); fs::put(path, std::string(size, 'c')); } over = true; });
        while (!over) {
            got_t g = exchange<K>("GET /files/changing.txt HTTP/1.1\r\n" + headers(false, 0), false); response r; std::string why;
            if (!parse(g.bytes, r, why) && !(shrinks && r.length > (long)r.body.size() && g.bytes.size())) violation("broken-response", "the response to a request for a file that %s (%zu bytes) is broken: %s", shrinks ? "changes" : "grows", g.bytes.size(), why.c_str());
            if (r.status != 200 || r.body.find_first_not_of('c') != std::string::npos) violation("wrong-body", "a file that %s was served with status %d and other bytes than it ever had", shrinks ? "changes" : "grows", r.status);
            coverage(shrinks ? "changing-file" : "growing-file");
        }
        changer.join();
    }
    for (auto& t : ts) t.join();
    for (auto& a : asked) if (handled[a.first].entered != a.second) violation("times", "\"%s\" was asked for %u times and processed %u times", a.first.c_str(), a.second, handled[a.first].entered);
    got_t g = ask_shutdown<K>(); want_t w; w.request = "POST /shutdown\r\n"; w.status = 200; w.body_known = false; w.type = "text/plain; charset=utf-8"; check_exact(w, g);
    finish(*s, baseline); counts();
    state_hash(M * 100 + asked.size() * 10 + own_rest);
}
static void p_serve() { choose(2, "cfg.small") ? serve<plain, small_limits>(true) : serve<plain, abc::endpoint_limits>(false); }

// ---------------------------------------------------------------- E02: nothing outside of the root
static void p_contain() {
    server_schedule(false); benign_faults(); make_files(false);
    int baseline = live_threads();
    server_run<plain, abc::endpoint_limits> s(true, false, 0);
    unsigned N = pick(1, 6, "cfg.n");
    for (unsigned i = 0; i < N; i++) {
        static const char* const parts[] = {"..", ".", "", "files", "sub", "web", "web2", "private.txt", "secret.txt", "x.txt", "etc", "passwd", "...", "%2e%2e", "..%2f", "..\\", "f0", "sim", "~", "..;", ".. ", "..?", "\t.."};
        std::string r = choose(8, "r.pre") ? choose(3, "r.pre2") ? "/files/" : "/FILES/" : choose(2, "r.pre3") ? "/" : "//";
        static const char* const known[] = {"../private.txt", "../../secret.txt", "../../web2/x.txt", "../../../etc/passwd", "../../../../../etc/passwd", "sub/../../private.txt", "sub/../../../secret.txt", "./../private.txt", "../files/../../secret.txt", "..//..//secret.txt", "sub/..", "..", "../", "../../web2/files/x.txt", "/sim/secret.txt", "../../sim/secret.txt"};
        if (choose(3, "r.known")) r += known[choose(16, "r.which")];
        else for (unsigned k = pick(1, 8, "r.parts"); k > 0; k--) { r += parts[choose(23, "r.part")]; if (k > 1) r += "/"; }
        if (choose(8, "r.ico") == 0) r = "/favicon.ico" + r;
        if (choose(10, "r.long") == 0) r += std::string(pick(1900, 2100, "r.longn"), choose(2, "r.longc") ? '/' : 'a');
        std::string req = std::string((const char*[]){"GET", "get", "HEAD", "POST"}[choose(4, "r.m") * (choose(3, "r.m2") == 0)]) + " " + r + " HTTP/1.1\r\n" + headers(false, 0);
        size_t before = fs::opened.size();
        got_t g = exchange<plain>(req, false);
        for (size_t k = before; k < fs::opened.size(); k++) if (fs::opened[k].compare(0, strlen(ROOT) + 1, std::string(ROOT) + "/")) violation("escaped", "\"%s\" reached for %s, which is not below %s", show(req.substr(0, req.find('\r'))).c_str(), fs::opened[k].c_str(), ROOT);
        if (!fs::outside.empty()) violation("escaped", "\"%s\" reached for %s, which is not below %s", show(req.substr(0, req.find('\r'))).c_str(), fs::outside[0].c_str(), ROOT);
        if (g.bytes.find(SECRET) != std::string::npos && fs::opened.size() == before) violation("escaped", "a secret came out");
        response x; std::string why;
        if (g.bytes.size() && !parse(g.bytes, x, why)) violation("broken-response", "the response to \"%s\" is broken: %s", show(r).c_str(), why.c_str());
        if (g.bytes.size()) coverage(x.status == 200 ? "served" : "refused"); else coverage("ignored");
        state_hash(hash64(r.data(), r.size()) % 4096);
    }
    // and what is inside is still there
    for (auto& f : files) { want_t w; w.request = "GET " + f.resource + " HTTP/1.1\r\n" + headers(false, 0); w.status = 200; w.type = f.type; w.body = f.content; w.body_known = true; check_exact(w, exchange<plain>(w.request, false)); }
    ask_shutdown<plain>(); finish(s, baseline); counts();
}

// ---------------------------------------------------------------- E03: a server survives its clients and its system
template <typename K> static void bad_client(bool own_rest) {
    want_t w = make_request(own_rest);
    throws_std([&] {
        int kind = choose(K::handshake ? 9 : 7, "b.kind");
        if (K::handshake && kind >= 7) {                       // speaks no TLS, or nothing at all for a while
            abc::tcp_client_socket<diag_log> c(abc::socket::family::ipv4, nullptr); c.connect("localhost", PORT);
            if (kind == 7) { send_pieces(c, w.request); receive_all(c, 100); coverage("no-tls"); }
            else { idle(pick(1, 20000, "b.ms")); coverage("tls-stall"); }
            return;
        }
        auto c = K::make_client(); c.connect("localhost", PORT);
        switch (kind) {
        case 0: send_pieces(c, w.request.substr(0, choose((uint32_t)w.request.size(), "b.cut"))); coverage("cut-request"); break;   // leaves in the middle
        case 1: send_pieces(c, w.request); coverage("left-unread"); break;                                                            // never reads
        case 2: send_pieces(c, w.request); receive_all(c, choose(2000, "b.some")); coverage("left-reading"); break;                   // leaves while reading
        case 3: idle(pick(1, 3000, "b.ms")); coverage("silent"); break;
        case 4: { std::string j = random_bytes(choose(3000, "b.junk"), "b.bytes"); send_pieces(c, j); idle(pick(0, 100, "b.ms")); coverage("junk"); break; }
        case 5: { std::string r = w.request; for (unsigned n = pick(1, 3, "b.mut"); n > 0; n--) r[choose((uint32_t)std::min<size_t>(r.size(), 60), "b.at")] = (char)choose(256, "b.char"); send_pieces(c, r); idle(pick(0, 100, "b.ms")); coverage("mutated"); break; }
        default: { std::string r = std::string(choose(2, "b.where") ? pick(10, 5000, "b.n") : 3, 'M') + " /" + std::string(pick(10, 5000, "b.n2"), 'r') + " HTTP/" + std::string(choose(200, "b.n3"), '1') + ".1\r\n\r\n"; send_pieces(c, r); receive_all(c, 1000); coverage("oversized"); break; }
        }
    }, "a client");
}
template <typename K, typename L> static void survive(bool small) {
    server_schedule(K::handshake); benign_faults(); make_files(small);
    bool own_rest = choose(4, "cfg.rest") != 0, disk = choose(3, "cfg.disk") == 0, throwing = choose(3, "cfg.throw") == 0;
    int baseline = live_threads();
    auto s = std::unique_ptr<server_run<K, L>>(new server_run<K, L>(own_rest, throwing, 0));
    fs::fault_scope = ROOT;
    bool net = choose(3, "cfg.net") != 0;
    if (net) { set_fault_rate(F_RESET, choose(2, "f.reset") ? 3 : 0); set_fault_rate(F_ACCEPT_FAIL, choose(2, "f.acc") ? 200 : 0); set_fault_rate(F_THREAD_FAIL, 0); }
    if (disk) { set_fault_rate(F_OPEN_FAIL, choose(2, "f.open") ? 300 : 0); set_fault_rate(F_READ_FAIL, choose(2, "f.read") ? 200 : 0); set_fault_rate(F_STAT_FAIL, choose(2, "f.stat") ? 200 : 0); }
    unsigned M = pick(1, K::handshake ? 3 : 5, "cfg.clients"); bool thread_fail = choose(4, "cfg.tf") == 0;
    std::vector<std::vector<want_t>> plan(M); std::vector<std::thread> ts;
    for (auto& p : plan) for (unsigned n = choose(4, "cfg.requests"); n > 0; n--) p.push_back(make_request(own_rest));
    bool faulty = net || disk || thread_fail;
    for (unsigned i = 0; i < M; i++) ts.emplace_back([&, i] {
        for (unsigned n = choose(3, "cfg.bad"); n > 0; n--) bad_client<K>(own_rest);
        for (auto& w : plan[i]) { got_t g = exchange<K>(w.request, faulty); if (faulty || w.body_unread) check_lenient(w, g, disk); else check_exact(w, g); }
        for (unsigned n = choose(3, "cfg.bad"); n > 0; n--) bad_client<K>(own_rest);
        if (throwing && own_rest) { std::string k = "/throw/" + std::to_string(i); exchange<K>("POST " + k + " HTTP/1.1\r\n" + headers(true, 0), faulty); coverage("throwing-handler"); }
    });
    if (thread_fail) set_fault_rate(F_THREAD_FAIL, 300);
    // one who always behaves, at some moment: nobody may keep it from its response for long, unless the network does
    for (auto& t : ts) t.join();
    faults_enabled = false; if (net) coverage("net-faults"); if (disk) coverage("disk-faults"); if (thread_fail) coverage("thread-faults");
    for (auto& p : plan) for (auto& w : p) if (w.rest) { auto& j = handled[w.key]; if (j.entered > 1) violation("times", "\"%s\" was asked for once and processed %u times", w.key.c_str(), j.entered); }
    // with the faults gone the server serves as ever
    for (unsigned n = pick(1, 3, "cfg.after"); n > 0; n--) { want_t w = make_request(own_rest); got_t g = exchange<K>(w.request, false); if (w.body_unread) check_lenient(w, g, false); else check_exact(w, g); }
    got_t g = ask_shutdown<K>(); want_t w; w.request = "POST /shutdown\r\n"; w.status = 200; w.body_known = false; w.type = "text/plain; charset=utf-8"; check_exact(w, g);
    finish(*s, baseline); counts();
    state_hash(M * 8 + net * 4 + disk * 2 + throwing);
}
static void p_survive() { choose(2, "cfg.small") ? survive<plain, small_limits>(true) : survive<plain, abc::endpoint_limits>(false); }


// ---------------------------------------------------------------- E04: shutdown
template <typename K, typename L> static void shut(bool small) {
    server_schedule(K::handshake); benign_faults(); make_files(small);
    bool own_rest = choose(4, "cfg.rest") != 0;
    int baseline = live_threads();
    auto s = std::unique_ptr<server_run<K, L>>(new server_run<K, L>(own_rest, false, 0));
    unsigned M = pick(1, K::handshake ? 3 : 5, "cfg.clients"), S = pick(1, 3, "cfg.shutdowns");
    bool requested = false, answered = false; std::vector<std::thread> ts;
    std::vector<std::vector<want_t>> plan(M);
    for (auto& p : plan) for (unsigned n = pick(1, 3, "cfg.requests"); n > 0; n--) p.push_back(make_request(own_rest));
    for (unsigned i = 0; i < M; i++) ts.emplace_back([&, i] {
        for (auto& w : plan[i]) {
            got_t g = exchange<K>(w.request, false);
            if (w.body_unread) { check_lenient(w, g, false); continue; }
            // once a shutdown has been asked for, a request may be ignored, but it is never half answered
            if (g.bytes.empty() && requested) { if (w.rest && handled[w.key].entered) violation("no-response", "\"%s\" was processed during a shutdown and got no response", line_of(w).c_str()); coverage("ignored"); continue; }
            check_exact(w, g); coverage(requested ? "answered-late" : "answered");
        }
    });
    for (unsigned i = 0; i < S; i++) ts.emplace_back([&] {
        idle(choose(3, "s.late") ? 0 : choose(30, "s.ms"));
        requested = shutting = true;
        got_t g = ask_shutdown<K>();
        if (g.bytes.empty()) { coverage("shutdown-ignored"); return; }
        want_t w; w.request = "POST /shutdown\r\n"; w.status = 200; w.body_known = false; w.type = "text/plain; charset=utf-8"; check_exact(w, g); answered = true;
    });
    // the future gets ready while others are still coming, or later
    bool early = choose(2, "cfg.watch");
    if (early) { if (!soon([&] { return s->over(); }, 60000)) violation("no-shutdown", "the future is not ready 60 s after the last shutdown was requested"); closing_time = true; if (inside) violation("shutdown-early", "the shutdown was complete while %u requests were being processed", inside); coverage("watched"); }
    for (auto& t : ts) t.join();
    if (!answered) violation("no-response", "none of %u requests to shut down got a response", S);
    finish(*s, baseline); counts();
    // who comes later is not served, and nothing breaks
    for (unsigned n = choose(3, "cfg.after"); n > 0; n--) { want_t w = make_request(own_rest); got_t g = exchange<K>(choose(3, "cfg.after2") ? w.request : "POST /shutdown HTTP/1.1\r\n\r\n", true); if (!g.bytes.empty()) violation("handled-late", "\"%s\" got a response after the shutdown was complete", line_of(w).c_str()); }
    soon([&] { return live_threads() <= baseline + 1; });
    state_hash(M * 4 + S);
}
static void p_shutdown() { choose(2, "cfg.small") ? shut<plain, small_limits>(true) : shut<plain, abc::endpoint_limits>(false); }

// ---------------------------------------------------------------- E05: starting, and returning
template <typename K> static void start_one() {
    typedef abc::endpoint_limits L;
    server_schedule(K::handshake); make_files(false);
    int baseline = live_threads(); log_holder lg(250);
    int kind = choose(K::handshake ? 7 : 5, "cfg.kind");
    if (kind == 0) {                                      // start() on a thread of the caller
        std::unique_ptr<server_run<K, L>> s(new server_run<K, L>(true, false, 1));
        for (unsigned n = choose(3, "cfg.n"); n > 0; n--) { want_t w = make_request(true); got_t g = exchange<K>(w.request, false); if (w.body_unread) check_lenient(w, g, false); else check_exact(w, g); }
        if (s->returned) violation("start-returned", "start() returned although nobody asked for a shutdown");
        got_t g = ask_shutdown<K>(); if (g.bytes.empty()) violation("no-response", "a request to shut down got no response");
        coverage("start");
        if (!soon([&] { return s->returned; }, 10000)) {
            throws_std([&] { auto c = K::make_client(); c.connect("localhost", PORT); idle(10); c.close(); }, "a client");
            if (soon([&] { return s->returned; }, 10000)) violation("start-waits-for-client", "start() did not return within 10 s after a shutdown, only when another client connected");
            violation("start-hangs", "start() did not return after a shutdown and another connection");
        }
        s->own.join();
        if (net::open_fds()) violation("descriptor-leak", "%d sockets are open after start() returned", net::open_fds());
        return;
    }
    // what cannot be started says so
    const char *port = PORT, *cert = "/sim/cert.pem", *key = "/sim/key.pem", *pw = "secret"; std::unique_ptr<typename plain::server> other; bool fails = true;
    switch (kind) {
    case 1: other.reset(new plain::server(abc::socket::family::ipv4, nullptr)); other->bind(PORT); other->listen(5); break;
    case 2: port = (const char*[]){"no-such-port", "", "-"}[choose(3, "p.which")]; if (!*port) port = "nope"; break;
    case 3: set_fault_rate(F_SOCKET_FAIL, 1000); break;
    case 4: fails = false; break;
    case 5: cert = choose(2, "b.cert") ? "/sim/nowhere.pem" : "/sim/web/private.txt"; break;
    default: if (choose(2, "b.key")) key = "/sim/nowhere.pem"; else pw = "wrong"; break;
    }
    abc::endpoint_config config(port, 5, ROOT, PREFIX, cert, key, pw);
    ep<K, L> e(&config, lg.get(), true, false);
    if (!fails || choose(2, "cfg.async")) {
        auto f = e.start_async();
        auto ready = [&] { return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; };
        if (!fails) {
            if (!soon([&] { return net::listening("127.0.0.1", 30303); }, 1000)) violation("not-started", "the server does not listen");
            if (choose(2, "cfg.w") && soon(ready, 2000)) violation("future-early", "the future is ready although nobody asked for a shutdown");
            got_t g = ask_shutdown<K>(); if (g.bytes.empty()) violation("no-response", "a request to shut down got no response");
            if (!soon(ready)) violation("no-shutdown", "the future is not ready after a shutdown");
            f.get(); coverage("start_async"); return;
        }
        if (!soon(ready)) violation("failure-unreported", "the future of a server that can't start is not ready");
        if (!throws_std([&] { f.get(); }, "the future")) violation("failure-unreported", "the future of a server that can't start has no exception");
    } else if (!throws_std([&] { e.start(); }, "start()")) violation("failure-unreported", "start() returned although the server can't start");
    coverage("cannot-start");
    set_fault_rate(F_SOCKET_FAIL, 0); faults_enabled = false;
    if (!soon([&] { return live_threads() <= baseline; })) violation("thread-leak", "%d threads are left behind", live_threads() - baseline);
    if (net::open_fds() != (other ? 1 : 0)) violation("descriptor-leak", "%d sockets are open after a failed start", net::open_fds() - (other ? 1 : 0));
    if (fs::open_fds()) violation("descriptor-leak", "%d files are open after a failed start", fs::open_fds());
    state_hash(kind);
}
static void p_start() { choose(6, "cfg.tls") ? start_one<plain>() : start_one<tls>(); }

// ---------------------------------------------------------------- E06: the same over TLS
// A client that is slow to start its session keeps nobody else waiting.
static void stalled_handshake() {
    server_schedule(true); benign_faults(); make_files(false);
    int baseline = live_threads();
    std::unique_ptr<server_run<tls, abc::endpoint_limits>> s(new server_run<tls, abc::endpoint_limits>(true, false, 0));
    bool leave = false, answered = false, waited = false; want_t w = make_request(true); w.body_unread = false; while (w.status == 405) w = make_request(true);
    std::thread slow([&] { abc::tcp_client_socket<diag_log> c(abc::socket::family::ipv4, nullptr); c.connect("localhost", PORT); std::string d = random_bytes(choose(4, "st.n"), "st.b"); if (!d.empty()) c.send(d.data(), d.size()); soon([&] { return leave; }, 120000); });
    idle(pick(1, 100, "st.ms"));
    std::thread good([&] { got_t g = exchange<tls>(w.request, false); answered = true; check_exact(w, g); });
    waited = !soon([&] { return answered; }, 20000);
    leave = true; slow.join(); good.join();
    got_t g = ask_shutdown<tls>(); if (g.bytes.empty()) violation("no-response", "a request to shut down got no response");
    finish(*s, baseline); counts(); coverage("slow-handshake");
    if (waited) violation("stalled-handshake", "a client waited for 20 s because another one had connected and not started its TLS session");
}
static void p_tls() {
    switch (choose(5, "cfg.what")) { case 4: if (choose(3, "cfg.stall") == 0) { stalled_handshake(); break; } case 0: serve<tls, small_limits>(true); break; case 1: serve<tls, abc::endpoint_limits>(false); break; case 2: shut<tls, abc::endpoint_limits>(false); break; default: survive<tls, small_limits>(true); }
}

namespace sim {
#define REAL "endpoint, HTTP streams, socket streams, sockets and log of the repository"
#define STUB "network, file system, threads and clock (simulated)"
const property properties[] = {
    {"E01", p_serve, 6000, 100000, "distinct sets of requests, fragmentations and interleavings", REAL, STUB, 60},
    {"E02", p_contain, 8000, 200000, "distinct paths", REAL, STUB, 60},
    {"E03", p_survive, 6000, 100000, "distinct client misbehaviours, faults and interleavings", REAL, STUB, 60},
    {"E04", p_shutdown, 6000, 150000, "distinct sets of requests and interleavings with shutdowns", REAL, STUB, 60},
    {"E05", p_start, 6000, 100000, "distinct causes, schedules and interleavings", REAL " and OpenSSL", STUB, 60},
    {"E06", p_tls, 400, 20000, "distinct sets of requests, misbehaviours and interleavings", REAL " and OpenSSL", STUB, 60},
    {nullptr}
};
const char* harness_name = "endpoint";
}
