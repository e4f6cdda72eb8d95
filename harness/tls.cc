// TLS sockets over the simulated network: real OpenSSL, randomness from the run's seed.
#include "nettest.h"
#include "openssl_socket.h"
#include "tls_cert.h"
#include <arpa/inet.h>
#include <csignal>
#include <openssl/rand.h>
#include <unistd.h>

namespace sim { void fill_random_public(void* p, size_t n); void seed_random(uint64_t s); }
static int rnd_bytes(unsigned char* b, int n) { sim::fill_random_public(b, (size_t)n); return 1; }
static int rnd_status() { return 1; }
static RAND_METHOD rnd = {nullptr, rnd_bytes, nullptr, nullptr, rnd_bytes, rnd_status};
static struct warm { warm() { OPENSSL_init_ssl(0, nullptr); RAND_set_rand_method(&rnd); 
    // whatever OpenSSL sets up once is set up here, outside the runs
    SSL_CTX* c = SSL_CTX_new(TLS_server_method()); SSL* s = SSL_new(c); SSL_free(s); SSL_CTX_free(c); } } warm_;

struct tls {
    typedef abc::openssl_tcp_client_socket<diag_log> client; typedef abc::openssl_tcp_server_socket<diag_log> server;
    static constexpr bool ipv6 = false, handshake = true;
    static server make_server(bool, diag_log* l) { return server("/sim/cert.pem", "/sim/key.pem", "secret", false, abc::socket::family::ipv4, l); }
    static client make_client(bool, diag_log* l) { return client(false, abc::socket::family::ipv4, l); }
};
static void setup() {
    sim::seed_random(choose(1u << 31, "tls.seed") + 1);
    fs::put("/sim/cert.pem", CERT_PEM); fs::put("/sim/key.pem", KEY_PEM); fs::put("/sim/other.pem", OTHER_KEY_PEM); fs::put("/sim/junk.pem", "junk\n"); fs::put("/sim/long.pem", LONG_KEY_PEM);
}
static void p_stream() { setup(); exact_stream<tls>(false, 60); }
static void p_broken() { setup(); broken_stream<tls>(60); }

// ---------------------------------------------------------------- T03: who may talk
static int raw_connect(int port) {
    int fd = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (::connect(fd, (sockaddr*)&a, sizeof a)) { ::close(fd); return -1; }
    return fd;
}
static int raw_listen(int port) {
    int fd = ::socket(AF_INET, SOCK_STREAM, 0);
    int one = 1; ::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (::bind(fd, (sockaddr*)&a, sizeof a) || ::listen(fd, 5)) harness_error("relay cannot listen");
    return fd;
}
static void p_trust() {
    setup(); net_schedule(true);
    set_step_limit(60000000ull);
    log_holder lg(200);
    // servers that cannot be: constructing them fails
    if (choose(4, "cfg.bad") == 0) {
        std::string cut(LONG_PASSWORD, pick(1, sizeof LONG_PASSWORD - 2, "bad.cut"));
        struct { const char *cert, *key, *pw; } bad[] = {{"/sim/nowhere.pem", "/sim/key.pem", "secret"}, {"/sim/cert.pem", "/sim/nowhere.pem", "secret"}, {"/sim/cert.pem", "/sim/key.pem", "wrong"}, {"/sim/cert.pem", "/sim/other.pem", "secret"}, {"/sim/junk.pem", "/sim/key.pem", "secret"}, {"/sim/cert.pem", "/sim/junk.pem", "secret"}, {"/sim/cert.pem", "/sim/key.pem", ""}, {"/sim/cert.pem", "/sim/long.pem", "secret"}, {"/sim/cert.pem", "/sim/long.pem", cut.c_str()}};
        auto& b = bad[choose(9, "bad.kind")];
        bool threw = throws_std([&] { tls::server s(b.cert, b.key, b.pw, false, abc::socket::family::ipv4, lg.get()); }, "constructing a server");
        if (!threw) violation("bad-server", "a server with certificate %s, key %s and password \"%s\" was constructed", b.cert, b.key, b.pw);
        std::string longpw(300, 'p');
        if (!throws_std([&] { tls::server s("/sim/cert.pem", "/sim/key.pem", longpw.c_str(), false, abc::socket::family::ipv4, lg.get()); }, "constructing a server")) violation("bad-server", "a server with a password of 300 chars was constructed");
        if (fs::open_fds()) violation("descriptor-leak", "%d files are open", fs::open_fds());
        coverage("bad-server");
    }
    bool verify = choose(3, "cfg.verify") == 0, long_pw = choose(4, "cfg.longpw") == 0;
    tls::server server("/sim/cert.pem", long_pw ? "/sim/long.pem" : "/sim/key.pem", long_pw ? LONG_PASSWORD : "secret", verify, abc::socket::family::ipv4, lg.get());
    if (verify) coverage("verifying-server"); if (long_pw) coverage("long-password");
    server.bind(PORT); server.listen(5);
    enum { VERIFYING, PLAIN, LEAVING, TAMPERED, CERTIFIED, GOOD };
    unsigned N = pick(1, 4, "cfg.n");
    std::vector<int> kinds; for (unsigned i = 0; i < N; i++) kinds.push_back((int)choose(6, "cfg.kind"));
    kinds.push_back(GOOD);
    // the server takes one connection after another, and says what it is told
    struct got_t { std::string d; bool accepted = false; }; std::vector<got_t> got(kinds.size());
    std::string answer = random_bytes(1 + choose(500, "tr.n"), "tr.answer");
    bool moved = choose(2, "cfg.move");
    tls::server moved_server(std::move(server)); (void)moved;
    std::thread st([&] {
        for (auto& g : got) {
            try {
                auto s = moved_server.accept();
                g.accepted = true;
                char b[64]; size_t k; unsigned want = 300;
                while (g.d.size() < want && (k = s.receive(b, std::min<size_t>(sizeof b, want - g.d.size())))) g.d.append(b, k);
                if (g.d.size() == want) { size_t o = 0; while (o < answer.size() && (k = s.send(answer.data() + o, answer.size() - o))) o += k; }
                char x; while (s.receive(&x, 1)) {}
                if (choose(2, "tr.close")) s.close();
            } catch (const std::exception& e) { coverage("handshake-refused"); }
        }
    });
    for (size_t i = 0; i < kinds.size(); i++) {
        std::string say = random_bytes(300, "tr.say");
        int kind = kinds[i]; ev("client %zu kind %d", i, kind);
        bool was = false, got_answer = false; std::string back;
        auto converse = [&](tls::client& c) {
            size_t o = 0, k; char b[64];
            while (o < say.size() && (k = c.send(say.data() + o, std::min<size_t>(say.size() - o, 1 + choose(300, "tr.k"))))) o += k;
            while (back.size() < answer.size() && (k = c.receive(b, std::min<size_t>(sizeof b, answer.size() - back.size())))) back.append(b, k);
            got_answer = back == answer;
        };
        if (kind == VERIFYING) {
            tls::client c(true, abc::socket::family::ipv4, lg.get());
            if (!throws_std([&] { connect_to(c, false, PORT); was = true; converse(c); }, "connecting")) violation("unverified", "a client that verifies its server connected to one with a certificate nobody vouches for");
            if (was) violation("unverified", "a client that verifies its server connected to one with a certificate nobody vouches for");
        } else if (kind == PLAIN) {
            int fd = raw_connect(30303);
            std::string junk = choose(2, "tr.junk") ? "GET / HTTP/1.1\r\n\r\n" : random_bytes(1 + choose(600, "tr.n"), "tr.junkdata");
            ::send(fd, junk.data(), junk.size(), MSG_NOSIGNAL);
            if (choose(2, "tr.wait")) sim::sleep_ns(50000000);
            ::close(fd);
            coverage("plain-client");
        } else if (kind == LEAVING) {                            // leaves somewhere in the handshake
            int fd = raw_connect(30303);
            if (choose(2, "tr.partial")) { std::string part("\x16\x03\x01\x02\x00\x01\x00\x01", 8); part = part.substr(0, 1 + choose(8, "tr.cut")); ::send(fd, part.data(), part.size(), MSG_NOSIGNAL); }
            if (choose(2, "tr.wait")) sim::sleep_ns(choose(50000000, "tr.sleep"));
            ::close(fd);
            coverage("leaving-client");
        } else if (kind == CERTIFIED) {                          // shows a certificate that nobody vouches for
            SSL_CTX* x = SSL_CTX_new(TLS_client_method());
            if (choose(2, "tr.tls12")) SSL_CTX_set_max_proto_version(x, TLS1_2_VERSION);
            SSL_CTX_set_default_passwd_cb_userdata(x, (void*)"secret");
            if (SSL_CTX_use_certificate_file(x, "/sim/cert.pem", SSL_FILETYPE_PEM) != 1 || SSL_CTX_use_PrivateKey_file(x, "/sim/key.pem", SSL_FILETYPE_PEM) != 1) harness_error("the client's certificate cannot be used");
            int fd = raw_connect(30303); SSL* s = SSL_new(x); SSL_set_fd(s, fd);
            signal(SIGPIPE, SIG_IGN);
            if (SSL_connect(s) == 1) {
                int k = SSL_write(s, say.data(), (int)say.size()); char b[64];
                while (k > 0 && back.size() < answer.size() && (k = SSL_read(s, b, (int)std::min<size_t>(sizeof b, answer.size() - back.size()))) > 0) back.append(b, (size_t)k);
            }
            signal(SIGPIPE, SIG_DFL);
            SSL_free(s); SSL_CTX_free(x); ::close(fd);
            if (verify && !back.empty()) violation("unverified-client", "a server that verifies its clients answered one whose certificate nobody vouches for");
            if (!verify && back != answer) violation("lost-data", "a client with a certificate got %zu bytes of %zu", back.size(), answer.size());
            coverage("certified-client");
        } else if (kind == TAMPERED) {                           // somebody in between changes, drops or repeats bytes
            int lfd = raw_listen(30400);
            struct dir { uint64_t at; int how; unsigned char x; } dirs[2];
            for (auto& d : dirs) { d.at = choose(choose(2, "mitm.far") ? 3000 : 1200, "mitm.at"); d.how = (int)choose(4, "mitm.how"); d.x = (unsigned char)(1u << choose(8, "mitm.bit")); }
            int only = (int)choose(3, "mitm.dir");
            bool hit = false;
            std::thread mitm([&] {
                int a = ::accept(lfd, nullptr, nullptr), b = raw_connect(30303);
                auto pump = [&](int from, int to, dir d, bool on) {
                    uint64_t pos = 0; unsigned char buf[256]; ssize_t n;
                    while ((n = ::recv(from, buf, sizeof buf, 0)) > 0) {
                        std::string out;
                        for (ssize_t i = 0; i < n; i++, pos++) {
                            if (on && pos == d.at) { hit = true; switch (d.how) { case 0: out.push_back((char)(buf[i] ^ d.x)); continue; case 1: continue; case 2: out.push_back((char)buf[i]); out.push_back((char)buf[i]); continue; default: ::shutdown(from, SHUT_RDWR); ::shutdown(to, SHUT_RDWR); break; } }
                            out.push_back((char)buf[i]);
                        }
                        if (::send(to, out.data(), out.size(), MSG_NOSIGNAL) < 0) break;
                    }
                    ::shutdown(to, SHUT_RDWR); ::shutdown(from, SHUT_RDWR);
                };
                std::thread other([&] { pump(b, a, dirs[1], only != 0); });
                pump(a, b, dirs[0], only != 1);
                other.join(); ::close(a); ::close(b);
            });
            bool threw = throws_std([&] { tls::client c(false, abc::socket::family::ipv4, lg.get());
                struct timeval tv{20, 0};
                // a dropped byte leaves both waiting for ever: the relay gives up after a while
                std::thread timer; bool over = false;
                timer = std::thread([&] { for (int k = 0; k < 300 && !over; k++) sim::sleep_ns(100000000); if (!over) net::reset_all(); });
                try { connect_to(c, false, "30400"); was = true; converse(c); } catch (...) { over = true; c.close(); timer.join(); throw; }
                over = true; c.close(); timer.join(); (void)tv; }, "talking through a relay");
            mitm.join(); ::close(lfd);
            coverage(hit ? threw ? "tampered-handshake" : "tampered-data" : "relayed");
            if (back != answer.substr(0, back.size())) violation("forged", "the client received \"%s\" instead of \"%s\" through a relay that changes bytes", show(back).c_str(), show(answer).c_str());
            if (!hit && !got_answer) violation("relay", "nothing was changed and the client got %zu bytes of %zu", back.size(), answer.size());
        } else {
            try { tls::client c(false, abc::socket::family::ipv4, lg.get()); connect_to(c, false, PORT); converse(c); if (choose(2, "tr.close2")) c.close(); }
            catch (const std::exception& e) { violation("refused", "a client after %zu others could not connect: %s", i, e.what()); }
            if (!got_answer) violation("lost-data", "a client after %zu others got %zu bytes of %zu", i, back.size(), answer.size());
            coverage("good-client");
        }
        // the server sees this connection to its end before the next one begins
        for (int k = 0; k < 100; k++) sim::sleep_ns(10000000);
        if (got[i].d != say.substr(0, got[i].d.size())) violation("forged", "the server received \"%s\", which client %zu did not send", show(got[i].d).c_str(), i);
        if (kind == VERIFYING && !got[i].d.empty()) violation("unverified", "the server received data of a client that does not trust it");
        if (kind == CERTIFIED && verify && got[i].accepted) violation("unverified-client", "a server that verifies its clients accepted one whose certificate nobody vouches for");
        if ((kind == PLAIN || kind == LEAVING) && got[i].accepted) violation("no-handshake", "the server accepted a connection without a handshake");
        if (kind == GOOD && got[i].d != say) violation("lost-data", "the server got %zu bytes of %zu", got[i].d.size(), say.size());
        state_hash((uint64_t)kind * 1000 + got[i].d.size() / 10 + back.size() / 10);
    }
    st.join();
    moved_server.close();
    if (net::open_fds()) violation("descriptor-leak", "%d sockets are still open", net::open_fds());
}

namespace sim {
#define REAL "TLS sockets, sockets, socket stream buffers and log of the repository, OpenSSL"
#define STUB "network, files, threads and clock (simulated), OpenSSL's randomness (seeded)"
const property properties[] = {
    {"T01", p_stream, 1500, 30000, "distinct interleavings, fragmentations and operation sequences over working TLS connections", REAL, STUB, 60},
    {"T02", p_broken, 2000, 40000, "distinct interleavings over TLS connections that are reset or left", REAL, STUB, 60},
    {"T03", p_trust, 1500, 30000, "distinct histories of clients without trust, without TLS, leaving, or behind a relay that changes bytes", REAL, STUB, 60},
    {nullptr}
};
const char* harness_name = "tls";
}
