// Diagnostics: tables, lines, logs shared by threads, rotating files and timestamps under simulated
// threads, a simulated disk and a simulated clock.
#include "core.h"
#include <cstring>
#include <memory>
#include <mutex>
#include <sstream>
#include <streambuf>
#include <thread>
#include "log.h"
#include "multifile.h"
#include "diaglog.h"
#include "timestamp.h"
#include "test.h"
using namespace sim;

static std::vector<std::string> hidden;      // thread ids are addresses: keep them out of messages
static std::string show(std::string s) {
    for (auto& h : hidden) for (size_t p; !h.empty() && (p = s.find(h)) != std::string::npos;) s.replace(p, h.size(), "ID");
    std::string r; for (unsigned char c : s.substr(0, 160)) { char b[8]; if (c >= 0x20 && c < 0x7f) r.push_back((char)c); else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r;
}

// A sink that takes its time over every char, so that other threads run in the middle of a line.
struct slow_sink : std::streambuf {
    std::string data; uint32_t every;
    explicit slow_sink(uint32_t e) : every(e) {}
    void take(char c) { data.push_back(c); if (every && choose(every, "sink.pause") == 0) sim::yield("sink"); }
    int_type overflow(int_type c) override { if (!traits_type::eq_int_type(c, traits_type::eof())) take((char)c); return traits_type::not_eof(c); }
    std::streamsize xsputn(const char* s, std::streamsize n) override { for (std::streamsize i = 0; i < n; i++) take(s[i]); return n; }
    int sync() override { if (every) sim::yield("sink.sync"); return 0; }
};
struct string_sink : std::streambuf {
    std::string data;
    int_type overflow(int_type c) override { if (!traits_type::eq_int_type(c, traits_type::eof())) data.push_back((char)c); return traits_type::not_eof(c); }
    std::streamsize xsputn(const char* s, std::streamsize n) override { data.append(s, (size_t)n); return n; }
};

// ---------------------------------------------------------------- calendar, computed the slow and plain way
struct civil { long long y; int mo, d, h, mi, s, ms; };
static bool leap(long long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static civil calendar(int64_t ns) {
    civil c; int64_t day = ns / 86400000000000ll, r = ns % 86400000000000ll;
    c.y = 1970;
    while (day >= (leap(c.y) ? 366 : 365)) day -= leap(c.y++) ? 366 : 365;
    static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    c.mo = 0;
    for (;;) { int n = len[c.mo] + (c.mo == 1 && leap(c.y)); if (day < n) break; day -= n; c.mo++; }
    c.mo++; c.d = (int)day + 1;
    c.ms = (int)(r / 1000000 % 1000); r /= 1000000000; c.s = (int)(r % 60); r /= 60; c.mi = (int)(r % 60); c.h = (int)(r / 60);
    return c;
}
static std::string stamp(int64_t ns, const char* fmt) { civil c = calendar(ns); char b[64]; snprintf(b, sizeof b, fmt, (unsigned)c.y, c.mo, c.d, c.h, c.mi, c.s, c.ms); return b; }
static int64_t wall() { return epoch_ns + sim::now() + wall_offset_ns; }
static void set_wall(int64_t ns) { wall_offset_ns = ns - epoch_ns - sim::now(); }
static int64_t random_time() {      // 1970-01-01 .. 2262-04-10
    switch (choose(4, "time.kind")) {
    case 0: {                       // near a date that calendars get wrong
        static const int years[] = {1970, 1971, 1972, 1973, 1999, 2000, 2001, 2024, 2038, 2096, 2099, 2100, 2101, 2104, 2199, 2200, 2201, 2261};
        long long y = years[choose(18, "time.year")];
        int64_t d = 0; for (long long k = 1970; k < y; k++) d += leap(k) ? 366 : 365;
        static const int doy[] = {0, 30, 31, 57, 58, 59, 60, 61, 364, 365};
        d += doy[choose(10, "time.doy")];
        int64_t in[] = {0, 1, 86399999999999ll, 86399000000000ll, 43200000000000ll, 999999999ll};
        return d * 86400000000000ll + in[choose(6, "time.in")];
    }
    case 1: return (int64_t)choose(106750, "time.day") * 86400000000000ll + (int64_t)choose(86400, "time.sec") * 1000000000ll + choose(1000000000, "time.ns");
    case 2: return (int64_t)(mix(choose(1u << 31, "time.any")) % 9223286400000000000ull);
    default: return (int64_t)choose(1000, "time.small") * 86400000000000ll + (int64_t)choose(86400, "time.sec") * 1000000000ll;
    }
}

// ---------------------------------------------------------------- D01: one log, many threads
struct entry { std::string text; unsigned cat, sev; unsigned long long tag; int64_t from, to; bool blank; };

template <typename Line> struct shape;
template <size_t S> struct shape<abc::debug_line_ostream<S>> {
    static constexpr int kind = 0;
};
template <size_t S> struct shape<abc::diag_line_ostream<S>> { static constexpr int kind = 1; };
template <size_t S> struct shape<abc::test_line_ostream<S>> { static constexpr int kind = 2; };

static std::string hexline(const std::string& b, size_t o) {
    std::string r; char t[8]; snprintf(t, sizeof t, "%04x:", (unsigned)(o & 0xffff)); r = t;
    for (int h = 0; h < 2; h++) { r += ' '; for (size_t i = o + h * 8; i < o + h * 8 + 8; i++) { if (i < b.size()) { snprintf(t, sizeof t, "%02x ", (unsigned char)b[i]); r += t; } else r += "   "; } }
    r += ' ';
    for (size_t i = o; i < o + 16; i++) r += i < b.size() ? (b[i] >= 0x20 && b[i] < 0x7f ? b[i] : '.') : ' ';
    return r;
}

template <typename Line> static void shared_log(std::streambuf* sb, std::function<std::string()> content) {
    typedef abc::log_ostream<Line, abc::log_filter> L;
    abc::severity_t minsev = (abc::severity_t)pick(0, 8, "log.min");
    abc::log_filter filter(minsev);
    bool filtered = !chance(150, "log.nofilter");
    L log(sb, filtered ? &filter : nullptr);
    unsigned T = pick(1, 4, "log.threads");
    std::vector<std::vector<entry>> want(T);
    std::vector<std::string> ids(T);
    std::vector<std::thread> threads;
    size_t blanks = 0;
    static const unsigned cats[] = {0, 1, 0x8001, 0x8006, 0xffff};
    for (unsigned t = 0; t < T; t++) {
        auto body = [&, t] {
            { std::ostringstream o; o << std::hex << std::this_thread::get_id(); ids[t] = o.str(); hidden.push_back(ids[t]); }
            unsigned n = pick(1, 8, "log.n");
            for (unsigned i = 0; i < n; i++) {
                entry e; e.blank = false;
                e.sev = pick(shape<Line>::kind == 2 ? 1 : 0, 8, "log.sev"); e.cat = cats[choose(5, "log.cat")]; e.tag = choose(4, "log.tag") ? choose(1u << 20, "log.tagv") : 0xffffffffffffffffull;
                bool on = !filtered || e.sev <= minsev;
                e.from = wall();
                char head[32]; snprintf(head, sizeof head, "t%u e%u ", t, i);
                switch (choose(8, "log.kind")) {
                case 0: {
                    std::string b; for (uint32_t k = pick(1, 50, "log.bin"); k > 0; k--) b.push_back(b.size() % 16 == 0 ? (char)(0x80 + t) : (char)choose(256, "log.byte"));
                    std::unique_ptr<char[]> exact(new char[b.size()]); memcpy(exact.get(), b.data(), b.size());
                    log.put_binary((abc::category_t)e.cat, (abc::severity_t)e.sev, e.tag, exact.get(), b.size());
                    e.to = wall();
                    if (on) for (size_t o = 0; o < b.size(); o += 16) { e.text = hexline(b, o); want[t].push_back(e); }
                    if (on && b.size() % 16 == 0) coverage("binary-multiple-of-16");
                    break;
                }
                case 1: { log.put_blank_line((abc::category_t)e.cat, (abc::severity_t)e.sev); if (on) blanks++; break; }
                case 2: { std::string s = std::string(head) + "raw line"; e.blank = true; e.text = s; log.put_line((s + "\n").c_str()); want[t].push_back(e); break; }
                default: {
                    std::string s = head; s.append(choose(30, "log.fill"), (char)('a' + t));
                    log.put_any((abc::category_t)e.cat, (abc::severity_t)e.sev, e.tag, "%s%u", s.c_str(), i);
                    e.to = wall();
                    e.text = s + std::to_string(i);
                    if (on) want[t].push_back(e);
                }
                }
                if (choose(3, "log.gap") == 0) sim::sleep_ns((int64_t)choose(2000000000, "log.sleep"));
                else sim::yield("log");
            }
        };
        if (T == 1) body(); else threads.emplace_back(body);
    }
    for (auto& t : threads) t.join();
    if (T > 1) coverage("threads");
    std::string text = content();
    // every line must be the next one of some thread
    size_t p = 0; std::vector<size_t> next(T, 0); size_t line = 0;
    size_t total = 0; for (auto& w : want) total += w.size();
    size_t blank_lines = 0;
    while (p < text.size()) {
        size_t e = text.find('\n', p);
        if (e == std::string::npos) violation("torn-line", "the output ends within a line: \"%s\"", show(text.substr(p)).c_str());
        std::string l = text.substr(p, e - p);
        p = e + 1; line++;
        if (l.empty()) { blank_lines++; continue; }
        bool found = false; std::string why;
        for (unsigned t = 0; t < T && !found; t++) {
            if (next[t] >= want[t].size()) continue;
            entry& w = want[t][next[t]];
            if (w.blank) { if (l == w.text) { next[t]++; found = true; } continue; }
            if (l.size() < w.text.size() || l.compare(l.size() - w.text.size(), std::string::npos, w.text)) continue;
            std::string props = l.substr(0, l.size() - w.text.size());
            char tail[128]; size_t stamplen; const char* fmt;
            if (shape<Line>::kind == 0) { snprintf(tail, sizeof tail, " | %16s | %4.4x | %1.1x | %16llx | ", ids[t].c_str(), w.cat, w.sev, w.tag); fmt = "%4.4u-%2.2u-%2.2u %2.2u:%2.2u:%2.2u.%3.3u"; }
            else if (shape<Line>::kind == 1) { snprintf(tail, sizeof tail, ",%s,%.4x,%.1x,%llx,", ids[t].c_str(), w.cat, w.sev, w.tag); fmt = "%4.4u-%2.2u-%2.2uT%2.2u:%2.2u:%2.2u.%3.3uZ"; }
            else { unsigned s = w.sev; snprintf(tail, sizeof tail, " %*s", (int)(2 * (s - 1)), ""); fmt = "%4.4u-%2.2u-%2.2u %2.2u:%2.2u:%2.2u.%3.3u"; }
            stamplen = stamp(w.from, fmt).size();
            if (props.size() != stamplen + strlen(tail)) { why = "length of the fields"; continue; }
            std::string ts = props.substr(0, stamplen), rest = props.substr(stamplen);
            if (rest != tail) { why = "fields"; continue; }
            if (ts < stamp(w.from, fmt) || ts > stamp(w.to, fmt)) violation("timestamp", "line \"%s\" was put between %s and %s", show(l).c_str(), stamp(w.from, fmt).c_str(), stamp(w.to, fmt).c_str());
            next[t]++; found = true;
        }
        // a binary entry whose size is a multiple of the line's may be followed by a line without content
        if (!found && why.empty() && l.find("t") == std::string::npos && l.back() == (shape<Line>::kind == 1 ? ',' : ' ')) found = true;
        if (!found) violation("wrong-line", "output line %zu \"%s\" is not the next line of any thread%s%s", line, show(l).c_str(), why.empty() ? "" : ": wrong ", why.c_str());
    }
    for (unsigned t = 0; t < T; t++) if (next[t] < want[t].size()) violation("lost-line", "line %zu of thread %u, \"%s\", is missing; %zu lines of %zu came out", next[t], t, show(want[t][next[t]].text).c_str(), line, total);
    if (blank_lines != blanks) violation("blank-lines", "%zu blank lines came out, %zu were put", blank_lines, blanks);
    state_hash(hash64(text.data(), text.size()));
    ev("%zu lines of %u threads", total, T);
}

static void p_threads() {
    set_step_limit(20000000ull);
    uint32_t intensity = pick(0, 3, "cfg.preempt");
    if (intensity) set_preempt_mean((const uint32_t[]){0, 20, 100, 600}[intensity]);
    set_yield_switch((const uint32_t[]){0, 200, 500, 900}[choose(4, "cfg.switch")]);
    bool disk = chance(400, "cfg.disk");
    auto go = [&](std::streambuf* sb, std::function<std::string()> content) {
        switch (choose(4, "cfg.shape")) {
        case 0: return shared_log<abc::debug_line_ostream<600>>(sb, content);
        case 1: return shared_log<abc::debug_line_ostream<2048>>(sb, content);
        case 2: return shared_log<abc::diag_line_ostream<400>>(sb, content);
        default: return shared_log<abc::test_line_ostream<300>>(sb, content);
        }
    };
    if (!disk) { slow_sink sink(choose(3, "cfg.sink") ? 1 + choose(20, "cfg.every") : 0); go(&sink, [&] { return sink.data; }); return; }
    coverage("real-file");
    fs::mkdir("/sim/log");
    if (choose(2, "cfg.multi")) {
        abc::multifile_streambuf<256> sb("/sim/log");
        std::string path = sb.path();
        go(&sb, [&] { std::string s; fs::get(path.c_str(), s); return s; });
    } else {
        std::filebuf sb; sb.open("/sim/log/x", std::ios_base::out);
        go(&sb, [&] { std::string s; fs::get("/sim/log/x", s); return s; });
    }
}

// ---------------------------------------------------------------- D02: lines of any length
template <size_t S> static void any_line() {
    string_sink sink; std::string want_out;
    {
        abc::table_ostream table(&sink);
        typedef abc::line_ostream<S> line_t;
        std::unique_ptr<line_t> line(new line_t(&table));
        std::string text; bool exact = true;      // what was put in the current line
        auto expect_line = [&](const std::string& all) { want_out = all; };
        std::vector<std::string> lines;
        unsigned n = pick(1, 12, "line.n"); size_t seen = 0;
        auto check_flushed = [&](const char* what) {
            std::string got = sink.data.substr(seen); seen = sink.data.size();
            if (got.empty() || got.back() != '\n') violation("no-newline", "%s put \"%s\" for a line of %zu chars and room for %zu", what, show(got).c_str(), text.size(), S);
            std::string l = got.substr(0, got.size() - 1);
            if (text.compare(0, l.size(), l) || l.size() > text.size()) violation("line-content", "%s put \"%s\" (%zu chars) for \"%s\" (%zu chars)", what, show(l).c_str(), l.size(), show(text).c_str(), text.size());
            if (l.size() < text.size() && l.size() + 1 < S) violation("line-short", "%s put %zu of %zu chars, with room for %zu", what, l.size(), text.size(), S);
            if (l.size() < text.size()) coverage("truncated");
            if (l.size() > S) violation("line-long", "%zu chars with room for %zu", l.size(), S);
            state_hash(hash64(got.data(), got.size()));
            text.clear();
        };
        (void)exact; (void)expect_line; (void)lines;
        for (unsigned i = 0; i < n; i++) {
            switch (choose(7, "line.op")) {
            case 0: case 1: {
                size_t len = choose(4, "line.lenk") == 0 ? pick(0, (uint32_t)(2 * S + 20), "line.len") : choose(3, "line.lenk2") ? choose(20, "line.len1") : S - std::min(S, text.size()) + choose(5, "line.near") - std::min<size_t>(2, S - std::min(S, text.size()));
                std::string s; for (size_t k = 0; k < len; k++) s.push_back((char)('a' + (text.size() + k) % 26));
                line->put_any("%s", s.c_str()); text += s; break;
            }
            case 2: { int v = (int)pick(0, 1000000, "line.int") - 500000; line->put_any("[%d|%5x]", v, v); char b[40]; snprintf(b, sizeof b, "[%d|%5x]", v, v); text += b; break; }
            case 3: {
                std::string b; for (uint32_t k = pick(1, 40, "line.bin"); k > 0; k--) b.push_back((char)choose(256, "line.byte"));
                size_t off = 0, o = 0; bool more;
                std::unique_ptr<char[]> exactbuf(new char[b.size()]); memcpy(exactbuf.get(), b.data(), b.size());
                bool room = text.size() < S && S - text.size() > 73;
                more = line->put_binary(exactbuf.get(), b.size(), off);
                if (off) { text += hexline(b, o); if (off != 16) violation("binary-offset", "put_binary() moved the offset to %zu", off); if (more && b.size() < 16) violation("binary-more", "put_binary() claims more of %zu bytes", b.size()); if (!more && b.size() > 16) violation("binary-more", "put_binary() claims no more of %zu bytes", b.size()); }
                else { if (room) violation("binary-refused", "put_binary() put nothing with %zu of %zu chars used", text.size(), S); if (more) violation("binary-more", "put_binary() put nothing and claims more"); coverage("binary-no-room"); }
                break;
            }
            case 4: {
                const char* g = line->get(); size_t l = strnlen(g, S + 2);
                if (l > S || l > text.size() || text.compare(0, l, g, l) || (l < text.size() && l + 1 < S)) violation("get", "get() gave \"%s\" (%zu chars) for \"%s\" (%zu chars), room for %zu", show(std::string(g, std::min<size_t>(l, S))).c_str(), l, show(text).c_str(), text.size(), S);
                break;
            }
            case 5: line->flush(); check_flushed("flush()"); break;
            case 6: {                                   // move: the text goes on in the new line, and appears once
                std::unique_ptr<line_t> other(new line_t(std::move(*line)));
                line.reset(); coverage("moved");
                std::string got = sink.data.substr(seen);
                if (!got.empty()) violation("moved-line", "destroying a moved line put \"%s\"", show(got).c_str());
                line = std::move(other);
                break;
            }
            }
        }
        line.reset();
        check_flushed("destroying the line");
        // a line without a table keeps everything to itself
        line_t alone; alone.put_any("%s", "x"); alone.flush();
        if (sink.data.size() != seen) violation("stray-output", "a line without a table put \"%s\"", show(sink.data.substr(seen)).c_str());
    }
}
static void p_lines() {
    set_step_limit(5000000ull);
    switch (choose(5, "cfg.size")) { case 0: any_line<17>(); break; case 1: any_line<64>(); break; case 2: any_line<100>(); break; case 3: any_line<256>(); break; default: any_line<2048>(); }
    // and complete log entries of any length, of every shape
    string_sink sink;
    {
        abc::log_ostream<abc::debug_line_ostream<100>, abc::log_filter> a(&sink, nullptr);
        abc::log_ostream<abc::diag_line_ostream<100>, abc::log_filter> b(&sink, nullptr);
        abc::log_ostream<abc::test_line_ostream<30>, abc::log_filter> c(&sink, nullptr);
        size_t lines = 0;
        for (unsigned i = pick(1, 6, "logline.n"); i > 0; i--) {
            std::string s(choose(200, "logline.len"), 'q');
            abc::severity_t sev = (abc::severity_t)pick(0, 12, "logline.sev");
            switch (choose(3, "logline.shape")) { case 0: a.put_any(1, sev, 2, "%s", s.c_str()); break; case 1: b.put_any(1, sev, 2, "%s", s.c_str()); break; default: c.put_any(1, sev, 2, "%s", s.c_str()); }
            lines++;
            if (sink.data.empty() || sink.data.back() != '\n') violation("no-newline", "a log entry of %zu chars came out as \"%s\"", s.size(), show(sink.data).c_str());
            size_t n = 0; for (char ch : sink.data) { n += ch == '\n'; if (ch == 0) violation("line-content", "a null char in the log"); }
            if (n != lines) violation("line-count", "%zu lines for %zu log entries", n, lines);
        }
    }
}

// ---------------------------------------------------------------- D03: rotating files
// a clock that stands still until it is told otherwise, so that a limit can be met to the nanosecond
static int64_t script_ns;
struct script_clock {
    typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<script_clock> time_point;
    static constexpr bool is_steady = false;
    static time_point now() noexcept { sim::yield("clock"); return time_point(duration(script_ns)); }
};
template <typename Sb> static void rotate(Sb& sb, bool by_size, uint64_t limit, bool scripted) {
    auto wall = [&] { return scripted ? script_ns : ::wall(); };
    auto sleep_ns = [&](int64_t ns) { if (scripted) script_ns += ns; else sim::sleep_ns(ns); };
    abc::table_ostream table(&sb);
    std::string all; std::vector<std::string> parts(1); std::vector<std::string> names{stamp(wall(), "%04u%02u%02u_%02u%02u%02u")};
    int64_t opened = wall();
    unsigned n = pick(1, 40, "rot.n");
    for (unsigned i = 0; i < n; i++) {
        // never two files within a second
        if (choose(2, "rot.gap")) sleep_ns((int64_t)pick(1000, by_size ? 4000 : 30000, "rot.ms") * 1000000ll);
        else sleep_ns((int64_t)pick(1000, 1001, "rot.ms1") * 1000000ll);
        if (scripted && !by_size && choose(2, "rot.exact")) {     // just before, at or just after the limit
            int64_t to = opened + (int64_t)limit + (int64_t)choose(3, "rot.edge") - 1;
            if (to > script_ns) { script_ns = to; coverage("limit-to-the-ns"); }
        }
        if (!scripted && choose(40, "rot.jump") == 0) { wall_offset_ns += (int64_t)pick(1, 100000, "rot.jumps") * 1000000000ll; note_fault(F_CLOCK_JUMP); }
        std::string l = std::to_string(i) + ":"; l.append(choose(10, "rot.bigk") == 0 ? pick(0, 3000, "rot.big") : choose(60, "rot.len"), (char)('a' + i % 26)); l += '\n';
        bool one = choose(4, "rot.manual") == 0;
        std::string before = stamp(wall(), "%04u%02u%02u_%02u%02u%02u");
        if (one) { abc::line_ostream<4096> line(&table); line.put_any("%s", l.substr(0, l.size() - 1).c_str()); }
        else table.put_line(l.c_str(), l.size());
        parts.back() += l; all += l;
        bool turn = by_size ? parts.back().size() >= limit : (uint64_t)(wall() - opened) >= limit;
        if (turn) { parts.emplace_back(); opened = wall(); names.push_back(stamp(opened, "%04u%02u%02u_%02u%02u%02u")); coverage("rotated"); }
        if (turn && "/sim/rot/" + before == sb.path()) names.back() = before;     // a second may have passed meanwhile
        std::string expect = "/sim/rot/" + names.back();
        if (std::string(sb.path()) != expect) violation("rotation", "after line %u the current file is %s, expected %s (%zu chars in it, opened %lld s ago, limit %llu)", i, sb.path(), expect.c_str(), parts.back().size(), (long long)((wall() - opened) / 1000000000), (unsigned long long)limit);
        if (choose(20, "rot.reopen") == 0) {
            sleep_ns(1000000000ll);
            before = stamp(wall(), "%04u%02u%02u_%02u%02u%02u");
            sb.reopen(); parts.emplace_back(); opened = wall(); names.push_back(stamp(opened, "%04u%02u%02u_%02u%02u%02u")); coverage("reopened");
            if ("/sim/rot/" + before == sb.path()) names.back() = before;
            sleep_ns(1000000000ll);
        }
    }
    sb.pubsync();       // may open one more file; nothing gets lost
    std::vector<std::string> files = fs::list("/sim/rot/");
    std::string got; for (auto& f : files) { std::string s; fs::get(f.c_str(), s); got += s; }
    if (got != all) violation("content", "%zu files hold %zu chars in the order of their names, %zu were put; first difference at %zu", files.size(), got.size(), all.size(), (size_t)(std::mismatch(got.begin(), got.begin() + std::min(got.size(), all.size()), all.begin()).first - got.begin()));
    for (size_t i = 0; i < names.size(); i++) {
        std::string s; if (!fs::get(("/sim/rot/" + names[i]).c_str(), s)) violation("missing-file", "file %s is missing", names[i].c_str());
        if (s != parts[i]) violation("file-content", "file %s holds %zu chars, expected %zu", names[i].c_str(), s.size(), parts[i].size());
        ev("%s %zu", names[i].c_str(), s.size());
    }
    if (fs::open_fds() > 1) violation("descriptor-leak", "%d files are open", fs::open_fds());
    state_hash(names.size() * 1000003 + all.size());
}
// paths around the room for them: refused, or the files get their whole names
template <size_t N> static void fitting(diag_log* log, const char* dir) {
    std::string d = dir; if (d.back() == '/') d.pop_back();
    for (int i = 0; i < 3; i++) {
        auto named = [&] { return d + "/" + stamp(wall(), "%04u%02u%02u_%02u%02u%02u"); };
        std::string want = named();
        try {
            std::unique_ptr<char[]> exact(new char[strlen(dir) + 1]); strcpy(exact.get(), dir);
            abc::size_multifile_streambuf<N, std::chrono::system_clock, diag_log> sb(100, exact.get(), std::ios_base::out, log);
            if (sb.path() == named()) want = named();          // a second may have passed
            if (sb.path() != want) violation("path", "a path of %zu chars in a room of %zu made the file %s, not %s", strlen(dir), N, sb.path(), want.c_str());
            sb.sputn("x", 1); sb.pubsync(); coverage("path-fits");
        } catch (const std::logic_error&) { if (want.size() + 1 < N) violation("path-refused", "a file name of %zu chars was refused in a room of %zu", want.size(), N); coverage("path-refused"); continue; }
        std::string s; if (!fs::get(want.c_str(), s) || s != "x") violation("missing-file", "file %s is missing or holds something else", want.c_str());
        sim::sleep_ns(1000000000ll);
    }
    state_hash(N);
}
static void p_rotate() {
    set_step_limit(20000000ull);
    fs::mkdir("/sim/rot");
    set_wall(pick(0, 1, "rot.epoch") ? random_time() / 2 + 1000000000000ll : wall());
    if (chance(300, "cfg.short")) set_fault_rate(F_SHORT_WRITE, 100);
    const char* dir = choose(2, "rot.slash") ? "/sim/rot" : "/sim/rot/";
    log_holder lg(100);
    switch (choose(12, "rot.fit")) { case 0: fitting<22>(lg.get(), dir); return; case 1: fitting<23>(lg.get(), dir); return; case 2: fitting<24>(lg.get(), dir); return; case 3: fitting<25>(lg.get(), dir); return; case 4: fitting<26>(lg.get(), dir); return; default: break; }
    if (choose(2, "rot.kind")) {
        uint64_t limit = pick(1, 2, "rot.limk") == 1 ? pick(1, 200, "rot.lim") : pick(200, 5000, "rot.limb");
        typedef abc::size_multifile_streambuf<256, std::chrono::system_clock, diag_log> buf_t;
        buf_t sb(limit, dir, std::ios_base::out, lg.get());
        if (choose(4, "rot.move") == 0) { buf_t moved(std::move(sb)); coverage("moved"); rotate(moved, true, limit, false); }
        else rotate(sb, true, limit, false);
    } else {
        uint64_t limit = (uint64_t)pick(2, 60, "rot.secs") * 1000000000ull;
        if (choose(2, "rot.clock")) {
            script_ns = wall();
            abc::duration_multifile_streambuf<256, script_clock, diag_log> sb(std::chrono::nanoseconds(limit), dir, std::ios_base::out, lg.get());
            rotate(sb, false, limit, true);
        } else {
            typedef abc::duration_multifile_streambuf<256, std::chrono::system_clock, diag_log> buf_t;
            buf_t sb(std::chrono::seconds(limit / 1000000000ull), dir, std::ios_base::out, lg.get());
            if (choose(4, "rot.move") == 0) { buf_t moved(std::move(sb)); coverage("moved"); rotate(moved, false, limit, false); }
            else rotate(sb, false, limit, false);
        }
    }
    if (fs::open_fds()) violation("descriptor-leak", "%d files are open after the stream is gone", fs::open_fds());
}

// ---------------------------------------------------------------- D04: the time of anything
// A clock of coarser ticks, and timestamps of it that are reset from one time to another.
template <typename Duration> struct coarse_clock {
    typedef Duration duration; typedef typename Duration::rep rep; typedef typename Duration::period period; typedef std::chrono::time_point<coarse_clock> time_point; static const bool is_steady = false;
    static time_point now() noexcept { return time_point(std::chrono::duration_cast<Duration>(std::chrono::nanoseconds(wall()))); }
};
template <typename Clock> static void reset_times() {
    typedef abc::timestamp<Clock> ts_t; typedef typename Clock::time_point tp_t; typedef typename Clock::duration dur_t;
    auto same = [](const ts_t& ts, int64_t t, const char* how) {
        civil c = calendar(t);
        if (ts.year() != c.y || ts.month() != c.mo || ts.day() != c.d) violation("date", "%s: %lld ns is %04lld-%02d-%02d, not %04u-%02u-%02u", how, (long long)t, c.y, c.mo, c.d, (unsigned)ts.year(), (unsigned)ts.month(), (unsigned)ts.day());
        if (ts.hours() != (unsigned)c.h || ts.minutes() != (unsigned)c.mi || ts.seconds() != (unsigned)c.s || ts.nanoseconds() != t % 1000000000) violation("time", "%s: %lld ns is %02d:%02d:%02d, not %02u:%02u:%02u and %u ns", how, (long long)t, c.h, c.mi, c.s, (unsigned)ts.hours(), (unsigned)ts.minutes(), (unsigned)ts.seconds(), (unsigned)ts.nanoseconds());
    };
    ts_t ts(nullptr); same(ts, 0, "zero");
    const int64_t day = 86400000000000ll;
    for (unsigned i = pick(1, 8, "rst.n"); i > 0; i--) {
        set_wall(random_time()); int64_t t = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::duration_cast<dur_t>(std::chrono::nanoseconds(wall()))).count(), u = random_time();
        tp_t tp(std::chrono::duration_cast<dur_t>(std::chrono::nanoseconds(t)));
        ts_t made(tp); same(made, t, "constructed"); if (made.time_since_epoch() != tp.time_since_epoch()) violation("point", "a timestamp is another point of time than it was constructed with");
        switch (choose(4, "rst.how")) {
        case 0: ts.reset(tp); same(ts, t, "reset to a time point"); if (ts.time_since_epoch() != tp.time_since_epoch()) violation("point", "a timestamp is another point of time than it was reset to"); break;
        case 1: ts.reset((abc::time_count_t)u); same(ts, u, "reset to ns"); break;
        case 2: { ts_t was(ts); ts.reset_date(u / day); ts.reset_time(u % day); same(ts, u, "date and time reset"); ts_t o(nullptr); o.reset_time(u % day); same(o, u % day, "time reset"); o.reset_date(u / day); if (!(o == ts)) violation("order", "timestamps of the same time are not equal"); break; }
        default: ts = made; same(ts, t, "assigned");
        }
        static const char* const fmt[] = {"%04u-%02u-%02u %02u:%02u:%02u.%03u", "%u/%u/%u %u:%u:%u,%u|", "%4u%3u%3u%3u%3u%3u%4u"}; const char* f = fmt[choose(3, "rst.fmt")];
        abc::line_ostream<64> line; line.put_timestamp(made, f); line.put_any("%c", '.');
        if (line.get() != stamp(t, f) + ".") violation("line-time", "a timestamp of %s is put as %s", stamp(t, f).c_str(), show(line.get()).c_str());
        int64_t a = wall(); ts_t n; int64_t b = wall(); ts_t ta(tp_t(std::chrono::duration_cast<dur_t>(std::chrono::nanoseconds(a)))), tb(tp_t(std::chrono::duration_cast<dur_t>(std::chrono::nanoseconds(b))));
        if (n < ta || n > tb) violation("now", "a timestamp of now is outside the time it was taken");
    }
    coverage("reset");
}
static void p_clock() {
    set_step_limit(5000000ull);
    if (chance(150, "cfg.reset")) { switch (choose(5, "cfg.clock")) { case 0: reset_times<coarse_clock<std::chrono::seconds>>(); break; case 1: reset_times<coarse_clock<std::chrono::milliseconds>>(); break; case 2: reset_times<coarse_clock<std::chrono::microseconds>>(); break; case 3: reset_times<coarse_clock<std::chrono::minutes>>(); break; default: reset_times<std::chrono::system_clock>(); } return; }
    fs::mkdir("/sim/t");
    string_sink sink;
    abc::log_ostream<abc::diag_line_ostream<200>, abc::log_filter> log(&sink, nullptr);
    std::vector<std::pair<int64_t, abc::timestamp<>>> seen;
    {
        alignas(abc::timestamp<>) char room[sizeof(abc::timestamp<>)]; memset(room, 0x5a, sizeof room);
        abc::timestamp<>& zero = *new (room) abc::timestamp<>(nullptr);
        if (zero.year() != 1970 || zero.month() != 1 || zero.day() != 1 || zero.hours() || zero.minutes() || zero.seconds() || zero.nanoseconds()) violation("zero", "the zero timestamp is not 1970-01-01 00:00");
        seen.emplace_back(0, zero);
    }
    for (unsigned i = pick(1, 20, "clk.n"); i > 0; i--) {
        set_wall(random_time()); note_fault(F_CLOCK_JUMP);
        int64_t t = wall();
        civil c = calendar(t);
        // the clock moves a little with every look at it; a timestamp from a time point does not
        abc::timestamp<> ts{std::chrono::system_clock::time_point(std::chrono::nanoseconds(t))};
        if (ts.year() != c.y || ts.month() != c.mo || ts.day() != c.d) violation("date", "%lld ns is %04lld-%02d-%02d, not %04u-%02u-%02u", (long long)t, c.y, c.mo, c.d, (unsigned)ts.year(), (unsigned)ts.month(), (unsigned)ts.day());
        if (ts.hours() != (unsigned)c.h || ts.minutes() != (unsigned)c.mi || ts.seconds() != (unsigned)c.s || ts.milliseconds() != (unsigned)c.ms || ts.microseconds() != t / 1000 % 1000000 || ts.nanoseconds() != t % 1000000000)
            violation("time", "%lld ns is %02d:%02d:%02d.%03d, not %02u:%02u:%02u.%03u (%u us, %u ns)", (long long)t, c.h, c.mi, c.s, c.ms, (unsigned)ts.hours(), (unsigned)ts.minutes(), (unsigned)ts.seconds(), (unsigned)ts.milliseconds(), (unsigned)ts.microseconds(), (unsigned)ts.nanoseconds());
        for (auto& o : seen) {
            bool lt = t < o.first, eq = t == o.first;
            if ((ts < o.second) != lt || (ts == o.second) != eq || (ts > o.second) != (!lt && !eq) || (ts <= o.second) != (lt || eq) || (ts >= o.second) != !lt || (ts != o.second) != !eq) violation("order", "timestamps of %lld and %lld compare wrong", (long long)t, (long long)o.first);
        }
        seen.emplace_back(t, ts);
        int64_t a = wall(); abc::timestamp<> nowts; int64_t b = wall();
        abc::timestamp<> ta{std::chrono::system_clock::time_point(std::chrono::nanoseconds(a))}, tb{std::chrono::system_clock::time_point(std::chrono::nanoseconds(b))};
        if (nowts < ta || nowts > tb) violation("now", "a timestamp of now is outside the time it was taken");
        sink.data.clear();
        a = wall(); log.put_any(1, 1, 1, "x"); b = wall();
        const char* f = "%04u-%02u-%02uT%02u:%02u:%02u.%03uZ,";
        std::string l = sink.data.substr(0, sink.data.find(',') + 1);
        if (l < stamp(a, f) || l > stamp(b, f)) violation("log-time", "a line put between %s and %s says %s", stamp(a, f).c_str(), stamp(b, f).c_str(), show(l).c_str());
        if (choose(4, "clk.file") == 0) {
            const char* ff = "/sim/t/%04u%02u%02u_%02u%02u%02u";
            a = wall(); abc::multifile_streambuf<128> sb("/sim/t"); b = wall();
            if (sb.path() != stamp(a, ff) && sb.path() != stamp(b, ff)) violation("file-time", "a file opened at %s is named %s", stamp(a, ff).c_str(), sb.path());
        }
        state_hash((uint64_t)t / 86400000000000ull);
        ev("%s", l.c_str());
    }
}

// ---------------------------------------------------------------- D05: a log in trouble stays quiet about it
struct broken_sink : std::streambuf {
    uint32_t rate; std::string data;
    explicit broken_sink(uint32_t r) : rate(r) {}
    bool trouble() {
        if (!chance(rate, "bad.sink")) return false;
        note_fault(F_WRITE_FAIL);
        switch (choose(3, "bad.how")) { case 0: throw std::runtime_error("sink"); case 1: throw 42; default: return true; }
    }
    int_type overflow(int_type c) override { sim::yield("sink"); if (trouble()) return traits_type::eof(); data.push_back((char)c); return traits_type::not_eof(c); }
    std::streamsize xsputn(const char* s, std::streamsize n) override { sim::yield("sink"); if (trouble()) return 0; data.append(s, (size_t)n); return n; }
    int sync() override { sim::yield("sink"); return trouble() ? -1 : 0; }
};
template <typename Line> static void troubled(std::streambuf* sb) {
    abc::log_filter filter(abc::severity::debug);
    abc::log_ostream<Line, abc::log_filter> log(sb, &filter);
    unsigned T = pick(1, 3, "bad.threads"), done = 0;
    std::vector<std::thread> threads;
    for (unsigned t = 0; t < T; t++) threads.emplace_back([&, t] {
        for (unsigned i = pick(1, 10, "bad.n"); i > 0; i--) {
            const char* what = "put_any()";
            try {
                switch (choose(4, "bad.op")) {
                case 0: what = "put_binary()"; log.put_binary(1, 1, 1, "0123456789abcdefghij", 20); break;
                case 1: what = "put_blank_line()"; log.put_blank_line(1, 1); break;
                case 2: what = "put_line()"; log.put_line("raw\n"); break;
                default: log.put_any(1, 1, 1, "thread %u line %u", t, i);
                }
            } catch (...) { violation("log-throws", "%s threw while the log could not be written", what); }
        }
        done++;
    });
    for (auto& t : threads) t.join();
    if (done != T) violation("thread-lost", "%u threads of %u got through", done, T);
}
static void p_trouble() {
    set_step_limit(5000000ull);
    if (choose(2, "cfg.preempt")) set_preempt_mean(100);
    set_yield_switch((const uint32_t[]){0, 200, 500, 900}[choose(4, "cfg.switch")]);
    auto go = [&](std::streambuf* sb) {
        switch (choose(3, "cfg.shape")) { case 0: return troubled<abc::debug_line_ostream<300>>(sb); case 1: return troubled<abc::diag_line_ostream<300>>(sb); default: return troubled<abc::test_line_ostream<300>>(sb); }
    };
    if (choose(2, "cfg.sink")) { broken_sink sb((const uint32_t[]){20, 200, 600}[choose(3, "cfg.rate")]); go(&sb); state_hash(sb.data.size()); return; }
    fs::mkdir("/sim/bad");
    if (chance(200, "cfg.nodir")) set_fault_rate(F_OPEN_FAIL, 500);
    if (chance(500, "cfg.full")) fs::capacity = pick(0, 3000, "cfg.cap"); else { set_fault_rate(F_WRITE_FAIL, 200); set_fault_rate(F_SHORT_WRITE, 200); }
    {
        abc::size_multifile_streambuf<256> sb(200, "/sim/bad");
        go(&sb);
    }
    if (fs::open_fds()) violation("descriptor-leak", "%d files are open after the stream is gone", fs::open_fds());
    state_hash(fs::used());
}

// ---------------------------------------------------------------- D06: the verdict of a test suite
template <typename Line> static void suite(std::streambuf* sb, std::string* text) {
    typedef abc::log_ostream<Line, abc::log_filter> L;
    abc::log_filter filter(abc::severity::abc::debug);
    L log(sb, &filter); L* lp = text && chance(150, "su.nolog") ? nullptr : &log;
    struct plan { std::string cat, name; int what; std::string a, b; int n; bool pass; };
    std::vector<plan> plans; std::vector<size_t> ran; std::vector<int> drawn; std::string wrong;
    std::vector<abc::named_test_category<L>> cats;
    unsigned C = choose(5, "su.cats");
    unsigned seed = choose(2, "su.seed") ? pick(1, 1u << 30, "su.seedv") : 0;
    for (unsigned c = 0; c < C; c++) {
        unsigned M = choose(5, "su.tests");
        for (unsigned m = 0; m < M; m++) {
            plan p; p.cat = "category" + std::to_string(c); p.name = "test" + std::to_string(c) + "_" + std::to_string(m); p.what = (int)choose(10, "su.what"); p.n = (int)choose(4, "su.rand");
            size_t len = choose(3, "su.lenk") ? choose(40, "su.len") : choose(5000, "su.long");
            for (size_t i = 0; i < len; i++) p.a.push_back((char)(p.what == 3 ? 1 + choose(255, "su.char") : choose(256, "su.char")));
            p.b = p.a; bool differ = choose(4, "su.differ") == 0;
            if (differ && !p.b.empty()) { size_t k = choose((uint32_t)p.b.size(), "su.at"); if (choose(3, "su.how") == 0) k = p.b.size() - 1; p.b[k] = (char)(p.b[k] ^ (1 << choose(7, "su.bit"))); if (p.what == 3 && p.b[k] == 0) p.b[k] = (char)(p.a[k] == 1 ? 2 : 1); }
            p.pass = p.what < 2 ? true : p.what == 2 ? false : p.what == 3 || p.what == 4 || p.what == 5 ? p.a == p.b : false;
            plans.push_back(p);
        }
    }
    size_t at = 0;
    for (unsigned c = 0; c < C; c++) {
        abc::test_category<L> tests;
        for (; at < plans.size() && plans[at].cat == "category" + std::to_string(c); at++) {
            size_t k = at;
            tests.emplace_back(plans[k].name, [&, k](abc::test_context<L>& ctx) -> bool {
                const plan& p = plans[k]; ran.push_back(k);
                if (p.cat != ctx.category_name || p.name != ctx.method_name || ctx.log != lp || strcmp(ctx.process_path, "path")) wrong = "the context of a test is not that of the test";
                if (seed && ctx.seed != seed) wrong = "the seed of a test is not the one given";
                for (int i = 0; i < p.n; i++) drawn.push_back(std::rand());
                switch (p.what) {
                case 0: return true;
                case 1: return ctx.are_equal(5, 5, 0x1, "%d");
                case 2: return ctx.are_equal((unsigned)p.n, (unsigned)p.n + 1u, 0x1, "%u");
                case 3: return ctx.are_equal(p.a.c_str(), p.b.c_str(), 0x2);
                case 4: case 5: { std::unique_ptr<char[]> a(new char[p.a.size()]), b(new char[p.b.size()]); memcpy(a.get(), p.a.data(), p.a.size()); memcpy(b.get(), p.b.data(), p.b.size()); return ctx.are_equal((const void*)a.get(), (const void*)b.get(), p.a.size(), 0x3); }
                case 6: throw std::runtime_error("a test throws " + p.a);
                case 7: throw 7;
                case 8: throw std::bad_alloc();
                default: return false;
                }
            });
        }
        cats.emplace_back("category" + std::to_string(c), std::move(tests));
    }
    bool want = true; for (auto& p : plans) want &= p.pass;
    auto cats2 = cats;
    abc::test_suite<L> s(std::move(cats), lp, seed, "path");
    bool got = s.run();
    if (!wrong.empty()) violation("context", "%s", wrong.c_str());
    if (got != want) violation("verdict", "a suite of %zu tests %s, it should %s", plans.size(), got ? "passed" : "failed", want ? "pass" : "fail");
    if (ran.size() != plans.size()) violation("tests", "%zu of %zu tests ran", ran.size(), plans.size());
    for (size_t i = 0; i < ran.size(); i++) if (ran[i] != i) violation("tests", "the tests ran out of order");
    if (seed && s.seed != seed) violation("seed", "the seed given was replaced");
    std::vector<int> first = drawn; unsigned used = s.seed;
    if (text && lp) {
        size_t from = 0;
        for (auto& p : plans) {
            size_t start = from, k = text->find(p.name, from); if (k == std::string::npos) violation("report", "%s is not in the report", p.name.c_str());
            for (;;) { // the line with the verdict names the test last
                size_t e = text->find('\n', k), b = text->rfind('\n', k); std::string line = text->substr(b == std::string::npos ? 0 : b + 1, e - b - 1);
                bool pass = line.find("PASS") != std::string::npos, fail = line.find("FAIL") != std::string::npos;
                if (pass || fail) { if (pass != p.pass || fail == p.pass) violation("report", "%s, which %s, is reported as %s", p.name.c_str(), p.pass ? "passes" : "fails", show(line).c_str()); from = e; k = b; break; }
                k = text->find(p.name, k + 1); if (k == std::string::npos) violation("report", "the report has no verdict on %s", p.name.c_str());
            }
            if (!p.pass && (p.what == 2 || (p.what == 3 && p.a.size() < 40))) { // why it failed: both values
                std::string x = p.what == 2 ? std::to_string(p.n) : p.a, y = p.what == 2 ? std::to_string(p.n + 1) : p.b;
                size_t xa = text->find(p.name, start); if (xa < k) xa = text->find(x, xa + p.name.size()); size_t ya = xa < k ? text->find(y, xa + x.size()) : k;
                if (ya >= k) violation("report", "the report on %s lacks the values %s and %s", p.name.c_str(), show(x).c_str(), show(y).c_str());
                coverage("values");
            }
        }
        if (text->find("seed = " + std::to_string(used)) == std::string::npos) violation("report", "the report lacks the seed");
        coverage("report");
    }
    // the seed that was used repeats the run
    if (used) {
        ran.clear(); drawn.clear(); std::srand(choose(1000, "su.other")); std::rand(); seed = used;
        abc::test_suite<L> again(std::move(cats2), lp, used, "path");
        if (again.run() != want) violation("repeat", "the same suite has another verdict the second time");
        if (drawn != first) violation("repeat", "with the same seed the tests get other random numbers");
        coverage("repeated");
    }
    state_hash(used * 31 + plans.size());
}
static void p_suite() {
    set_wall(random_time());
    if (chance(600, "cfg.good")) {
        string_sink sb;
        switch (choose(3, "cfg.shape")) { case 0: return suite<abc::debug_line_ostream<700>>(&sb, &sb.data); case 1: return suite<abc::diag_line_ostream<700>>(&sb, &sb.data); default: return suite<abc::test_line_ostream<700>>(&sb, &sb.data); }
    }
    broken_sink sb((const uint32_t[]){20, 200, 600}[choose(3, "cfg.rate")]);
    suite<abc::test_line_ostream<700>>(&sb, nullptr); coverage("broken-log");
}

// ---------------------------------------------------------------- D07: streams over memory
template <typename Char> static void memory_stream() {
    typedef abc::basic_buffer_streambuf<Char> B; typedef std::char_traits<Char> T;
    size_t gn = choose(40, "mb.get"), pn = choose(40, "mb.put");
    // The ranges sit inside exact heap blocks: what is around them is checked at the end, what is outside traps.
    size_t g0 = choose(3, "mb.g0"), g1 = choose(3, "mb.g1"), p0 = choose(3, "mb.p0"), p1 = choose(3, "mb.p1");
    bool noget = chance(150, "mb.noget"), noput = !noget && chance(150, "mb.noput");
    if (noget) gn = g0 = g1 = 0; if (noput) pn = p0 = p1 = 0;
    auto any = [] { return (Char)(sizeof(Char) == 1 ? choose(256, "mb.char") : choose(4, "mb.wide") ? choose(0xD7FF, "mb.char") : choose(256, "mb.char")); };
    std::vector<Char> in(g0 + gn + g1), out(p0 + pn + p1);
    for (auto& c : in) c = any(); for (auto& c : out) c = any();
    std::unique_ptr<Char[]> gb(noget ? nullptr : new Char[in.size()]), pb(noput ? nullptr : new Char[out.size()]);
    if (gb) std::copy(in.begin(), in.end(), gb.get()); if (pb) std::copy(out.begin(), out.end(), pb.get());
    std::unique_ptr<B> sb;
    if (choose(2, "mb.ctor") || noget || noput) sb.reset(new B(gb.get(), g0, g0 + gn, pb.get(), p0, p0 + pn));
    else sb.reset(new B(gb.get() + g0, gb.get() + g0 + gn, pb.get() + p0, pb.get() + p0 + pn));
    size_t gp = 0, pp = 0;
    for (unsigned i = pick(1, 60, "mb.ops"); i > 0; i--) {
        switch (choose(9, "mb.op")) {
        case 0: { auto c = sb->sbumpc(); if (gp < gn ? c != T::to_int_type(in[g0 + gp]) : c != T::eof()) violation("read", "char %zu of %zu is wrong", gp, gn); if (gp < gn) gp++; break; }
        case 1: { auto c = sb->sgetc(); if (gp < gn ? c != T::to_int_type(in[g0 + gp]) : c != T::eof()) violation("peek", "char %zu of %zu is wrong", gp, gn); break; }
        case 2: { size_t n = choose(50, "mb.n"); std::unique_ptr<Char[]> b(new Char[n]); size_t k = (size_t)sb->sgetn(b.get(), (std::streamsize)n), want = std::min(n, gn - gp);
            if (k != want || !std::equal(b.get(), b.get() + k, in.begin() + g0 + gp)) violation("read", "reading %zu chars at %zu of %zu got %zu, or others", n, gp, gn, k); gp += k; break; }
        case 3: { auto c = sb->sungetc(); if (gp ? c != T::to_int_type(in[g0 + gp - 1]) : c != T::eof()) violation("unget", "stepping back from %zu of %zu", gp, gn); if (gp) gp--; break; }
        case 4: { Char x = any(); auto c = sb->sputc(x); bool room = pp < pn; if (room ? c != T::to_int_type(x) : c != T::eof()) violation("write", "writing a char at %zu of %zu returned %ld", pp, pn, (long)c); if (room) out[p0 + pp++] = x; break; }
        case 5: { size_t n = choose(50, "mb.n"); std::vector<Char> b(n); for (auto& c : b) c = any(); size_t k = (size_t)sb->sputn(b.data(), (std::streamsize)n), want = std::min(n, pn - pp);
            if (k != want) violation("write", "writing %zu chars at %zu of %zu put %zu", n, pp, pn, k); std::copy(b.begin(), b.begin() + k, out.begin() + p0 + pp); pp += k; break; }
        case 6: { std::unique_ptr<B> next(new B(std::move(*sb))); coverage(gp || pp ? "moved-used" : "moved-fresh"); sb = std::move(next); break; }
        case 7: { // through streams
            std::basic_istream<Char> is(sb.get()); Char c = 0; is.get(c); if (gp < gn ? !is || c != in[g0 + gp] : !is.eof()) violation("istream", "char %zu of %zu", gp, gn); if (gp < gn) gp++; break; }
        default: { std::basic_ostream<Char> os(sb.get()); Char x = any(); os.put(x); os.flush(); bool room = pp < pn; if (room != (bool)os) violation("ostream", "writing a char at %zu of %zu %s", pp, pn, os ? "succeeds" : "fails"); if (room) out[p0 + pp++] = x; break; }
        }
    }
    if (gb && !std::equal(in.begin(), in.end(), gb.get())) violation("source", "the chars that were read have changed");
    if (pb && !std::equal(out.begin(), out.end(), pb.get())) violation("range", "the memory does not hold what was written to it, or has changed outside the range");
    if (pp == pn) coverage("full"); if (gp == gn) coverage("end");
    state_hash(gn * 131 + pn * 17 + gp * 7 + pp);
}
static void p_memory() { if (choose(3, "cfg.wide") == 0) memory_stream<wchar_t>(); else memory_stream<char>(); }

namespace sim {
#define REAL "log, line, table, multifile stream, timestamp and test suite classes of the repository; libstdc++ file buffers"
#define STUB "threads, locks and clock (simulated scheduler), disk (simulated), memory sinks"
const property properties[] = {
    {"D01", p_threads, 6000, 150000, "distinct interleavings of threads that log through one log", REAL, STUB, 60},
    {"D02", p_lines, 20000, 400000, "distinct sequences of line operations around the room of a line", REAL, STUB, 60},
    {"D03", p_rotate, 6000, 150000, "distinct sequences of writes, waits and clock jumps that rotate files", REAL, STUB, 60},
    {"D04", p_clock, 20000, 400000, "distinct times at which timestamps, log lines and file names were made", REAL, STUB, 60},
    {"D05", p_trouble, 10000, 200000, "distinct interleavings of threads logging into failing sinks and disks", REAL, STUB, 60},
    {"D06", p_suite, 20000, 400000, "distinct suites of passing, failing and throwing tests", REAL, STUB, 60},
    {"D07", p_memory, 20000, 400000, "distinct sequences of reads, writes and moves over ranges of memory", REAL, STUB, 60},
    {nullptr}
};
const char* harness_name = "diag";
}
