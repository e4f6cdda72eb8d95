// JSON streams over a simulated transport: the stream buffer delivers and accepts bytes in arbitrary
// portions, ends or breaks at any byte; documents come from a generator that also knows the tokens.
#include "core.h"
#include <climits>
#include <cmath>
#include <cstring>
#include <memory>
#include <set>
#include <streambuf>
#include "log.h"
#include "json.h"
#include "diaglog.h"
using namespace sim;
namespace js = abc::json;

// ---------------------------------------------------------------- transport
struct feed : std::streambuf {
    std::string data; size_t at = 0, given = 0; uint32_t chunk; unsigned eofs = 0;
    std::unique_ptr<char[]> buf;
    feed(std::string d, uint32_t c) : data(std::move(d)), chunk(c) {}
    int_type underflow() override {
        if (given >= data.size()) { if (++eofs > 100000) violation("endless-read", "the reader keeps asking for input after the end of input"); setg(nullptr, nullptr, nullptr); return traits_type::eof(); }
        size_t n = chunk == 0 ? data.size() - given : std::min<size_t>(data.size() - given, 1 + choose(chunk, "feed.chunk"));
        if (n < data.size() - given) note_fault(F_SHORT_RECV);
        buf.reset(new char[n]);                            // exact size: reading past the portion is seen by ASan
        memcpy(buf.get(), data.data() + given, n);
        given += n;
        setg(buf.get(), buf.get(), buf.get() + n);
        return traits_type::to_int_type(buf[0]);
    }
};
struct drain : std::streambuf {
    std::string data; size_t capacity = SIZE_MAX; bool refuse_sync = false; uint32_t chunk; std::unique_ptr<char[]> buf; bool failed = false;
    explicit drain(uint32_t c) : chunk(c) { if (c) { buf.reset(new char[c]); setp(buf.get(), buf.get() + c); } }
    bool take() {
        for (char* p = pbase(); p < pptr(); p++) { if (data.size() >= capacity) { failed = true; note_fault(F_DISK_FULL); setp(buf.get(), buf.get() + chunk); return false; } data.push_back(*p); }
        if (chunk) setp(buf.get(), buf.get() + chunk);
        return true;
    }
    int_type overflow(int_type ch) override {
        if (!take()) return traits_type::eof();
        if (traits_type::eq_int_type(ch, traits_type::eof())) return traits_type::not_eof(ch);
        if (data.size() >= capacity) { failed = true; note_fault(F_DISK_FULL); return traits_type::eof(); }
        data.push_back((char)ch);
        return ch;
    }
    int sync() override { return take() ? 0 : -1; }
};

// ---------------------------------------------------------------- documents
struct tok { js::item_t item; bool b = false; double d = 0; std::string s; size_t end = 0; int depth = 0; size_t next = 0; };
struct doc {
    std::string text; std::vector<tok> toks; int maxdepth = 0, depth = 0; unsigned budget; int depthlimit; bool spaces, exotic;
    std::vector<size_t> colons, commas;                   // offsets
    void sp() { if (spaces) for (uint32_t n = choose(4, "doc.sp"); n > 1; n--) text.push_back(" \t\r\n"[choose(4, "doc.spc")]); }
    tok& add(js::item_t i) { tok t; t.item = i; t.end = text.size(); t.depth = depth; toks.push_back(t); return toks.back(); }
    std::string str(std::string& enc) {
        std::string s; enc = "\"";
        uint32_t n = choose(8, "doc.strk") == 0 ? pick(20, 120, "doc.strn") : choose(12, "doc.strn");
        for (uint32_t i = 0; i < n; i++) {
            char hex[8];
            switch (choose(exotic ? 10 : 6, "doc.chk")) {
            default: { char c = (char)pick(0x20, 0x7e, "doc.ch"); if (c == '"' || c == '\\') c = 'z'; s.push_back(c); enc.push_back(c); break; }
            case 6: { unsigned k = choose(8, "doc.esc"); s.push_back("\"\\/\b\f\n\r\t"[k]); enc.push_back('\\'); enc.push_back("\"\\/bfnrt"[k]); break; }
            case 7: { unsigned c = pick(1, 255, "doc.u"); s.push_back((char)c); snprintf(hex, sizeof hex, choose(2, "doc.hexcase") ? "\\u%04x" : "\\u%04X", c); enc += hex; break; }
            case 8: { char c = (char)pick(0x80, 0xff, "doc.hi"); s.push_back(c); enc.push_back(c); break; }
            case 9: { s.push_back(','); enc.push_back(','); s.push_back("[]{}:"[choose(5, "doc.punct")]); enc.push_back(s.back()); break; }
            }
        }
        enc.push_back('"');
        return s;
    }
    std::string num() {
        char b[64];
        switch (choose(6, "doc.numk")) {
        case 0: snprintf(b, sizeof b, "%d", (int)choose(10, "doc.n1")); break;
        case 1: snprintf(b, sizeof b, "%lld", (long long)(int64_t)(mix(choose(1u << 30, "doc.n2")) >> 14) * (choose(2, "doc.neg") ? -1 : 1)); break;
        case 2: snprintf(b, sizeof b, "%s%u.%u", choose(2, "doc.neg") ? "-" : "", choose(100000, "doc.n3"), choose(1000000, "doc.n4")); break;
        case 3: snprintf(b, sizeof b, "%s%u.%ue%s%u", choose(2, "doc.neg") ? "-" : "", choose(10, "doc.n3"), choose(100000, "doc.n4"), (const char*[]){"", "+", "-"}[choose(3, "doc.es")], choose(300, "doc.e")); break;
        case 4: snprintf(b, sizeof b, "%uE%u", choose(1000, "doc.n3"), choose(20, "doc.e")); break;
        default: { int n = (int)pick(1, 17, "doc.dig"), p = (int)choose((uint32_t)n, "doc.dot"); std::string s; for (int i = 0; i < n; i++) { if (i == p && i) s += '.'; s += (char)('0' + choose(10, "doc.d")); } snprintf(b, sizeof b, "%s", s.c_str()); break; }
        }
        return b;
    }
    void value() {
        sp();
        uint32_t k = budget == 0 || depth >= depthlimit ? choose(5, "doc.scalar") : choose(9, "doc.value");
        if (budget) budget--;
        switch (k) {
        case 0: text += "null"; add(js::item::null); break;
        case 1: text += "true"; add(js::item::boolean).b = true; break;
        case 2: text += "false"; add(js::item::boolean).b = false; break;
        case 3: { std::string n = num(); text += n; add(js::item::number).d = strtod(n.c_str(), nullptr); break; }
        case 4: { std::string e, s = str(e); text += e; add(js::item::string).s = s; break; }
        case 5: case 7: container(false); break;
        default: container(true); break;
        }
        toks.back().end = text.size();
    }
    void container(bool obj) {
        depth++; maxdepth = std::max(maxdepth, depth);
        size_t first = toks.size();
        text.push_back(obj ? '{' : '['); add(obj ? js::item::begin_object : js::item::begin_array);
        uint32_t n = choose(5, "doc.items");
        for (uint32_t i = 0; i < n; i++) {
            if (i) { commas.push_back(text.size()); text.push_back(','); }
            if (obj) { sp(); std::string e, s = str(e); text += e; add(js::item::property).s = s; sp(); colons.push_back(text.size()); text.push_back(':'); toks.back().end = text.size(); }
            value();
            sp();
        }
        if (!n) sp();
        text.push_back(obj ? '}' : ']'); add(obj ? js::item::end_object : js::item::end_array);
        depth--;
        toks[first].next = toks.size();
    }
};
static doc make_doc(int depthlimit, bool container_root) {
    doc d; d.budget = pick(1, 60, "doc.budget"); d.depthlimit = depthlimit; d.spaces = chance(600, "doc.spaces"); d.exotic = chance(600, "doc.exotic");
    if (container_root) { d.sp(); d.container(choose(2, "doc.root")); d.toks.back().end = d.text.size(); } else d.value();
    if (chance(200, "doc.tail")) d.text += "\n";
    return d;
}
static uint32_t chunking() { static const uint32_t c[] = {0, 1, 2, 3, 7, 16, 64}; return c[choose(7, "cfg.chunk")]; }

// a token buffer with exactly `size` bytes behind it
struct tbuf {
    std::unique_ptr<char[]> mem; size_t size;
    explicit tbuf(size_t s) : mem(new char[s]), size(s) { memset(mem.get(), 0xee, s); }
    js::token_t* t() { return (js::token_t*)mem.get(); }
};
static std::string show(const std::string& s) { std::string r; for (char c : s.substr(0, 60)) { char b[8]; if (c >= 0x20 && c < 0x7f) r += c; else { snprintf(b, sizeof b, "\\x%02x", (unsigned char)c); r += b; } } return r; }

static void compare(const js::token_t* t, const tok& w, size_t index) {
    if (t->item != w.item) violation("token-kind", "token %zu is 0x%04x, expected 0x%04x", index, t->item, w.item);
    if (w.item == js::item::boolean && t->value.boolean != w.b) violation("token-boolean", "token %zu is %d", index, t->value.boolean);
    if (w.item == js::item::number && t->value.number != w.d) violation("token-number", "token %zu is %.17g, expected %.17g", index, t->value.number, w.d);
    if (w.item == js::item::string || w.item == js::item::property) {
        const char* s = w.item == js::item::string ? t->value.string : t->value.property;
        if (memcmp(s, w.s.c_str(), w.s.size() + 1)) violation("token-string", "token %zu is \"%s\", expected \"%s\"", index, show(s).c_str(), show(w.s).c_str());
    }
}

template <size_t L> using reader = abc::json_istream<L, diag_log>;
template <size_t L> using writer = abc::json_ostream<L, diag_log>;

template <size_t L> static void parse_valid() {
    doc d = make_doc((int)std::min<size_t>(L, 12), chance(850, "cfg.container"));
    feed f(d.text, chunking());
    log_holder lg;
    bool skips = chance(300, "cfg.skip");
    ev("valid document of %zu bytes, %zu tokens, depth %d: %s", d.text.size(), d.toks.size(), d.maxdepth, show(d.text).c_str());
    std::unique_ptr<reader<L>> r(new reader<L>(&f, lg.get()));
    bool moves = chance(100, "cfg.move");
    for (size_t i = 0; i < d.toks.size(); i++) {
        const tok& w = d.toks[i];
        bool last = i + 1 == d.toks.size();
        if (moves && chance(200, "move")) { coverage("moved"); std::unique_ptr<reader<L>> n(new reader<L>(std::move(*r))); r = std::move(n); }
        bool at_value = w.item != js::item::property && w.item != js::item::end_array && w.item != js::item::end_object;
        if (skips && at_value && chance(300, "skip")) {
            coverage("skip");
            js::item_t k = r->skip_value();
            if (w.next) i = w.next - 1;
            if (k != d.toks[i].item) violation("skip-kind", "skipping the value at token %zu returned 0x%04x", i, k);
            last = i + 1 == d.toks.size();
        } else {
            tbuf b(sizeof(js::token_t) + d.text.size() + 16);
            r->get_token(b.t(), b.size);
            compare(b.t(), w, i);
            size_t count = sizeof(js::item_t) + (w.item == js::item::boolean ? sizeof(bool) : w.item == js::item::number ? sizeof(double) : w.item == js::item::string || w.item == js::item::property ? w.s.size() : 0);
            if (r->good() && r->gcount() != count) violation("count", "token %zu, item 0x%04x, counts as %zu bytes, expected %zu", i, w.item, r->gcount(), count);
        }
        if (!r->good() && !last) violation("spurious-error", "the stream is in error after token %zu of a valid document: %s", i, show(d.text).c_str());
        if (last && d.toks.size() > 1 && !r->good()) violation("spurious-error", "the stream is in error after the last token of a valid document");
    }
    if (r->levels() != 0) violation("levels", "%zu levels are open after the whole document", r->levels());
    tbuf b(64);
    if (d.toks.size() > 1 || r->good()) {
        r->get_token(b.t(), b.size);
        if (r->good() || b.t()->item != js::item::none) violation("token-after-end", "another token after the end of the document");
    }
    state_hash(hash64(d.text.data(), d.text.size()));
}
static void p_parse() {
    set_step_limit(5000000ull);
    switch (choose(3, "cfg.levels")) { case 0: parse_valid<64>(); break; case 1: parse_valid<4>(); break; default: parse_valid<13>(); }
}

// ---------------------------------------------------------------- bad input
template <size_t L> static void parse_bad() {
    doc d = make_doc(12, true);
    std::string text = d.text;
    bool must_flag = false;        // the reader has to report an error before the document's last token
    const char* what = "arbitrary";
    auto pos_in = [&](std::vector<size_t>& v) { return v[choose((uint32_t)v.size(), "bad.at")]; };
    switch (choose(12, "bad.kind")) {
    case 0: text.resize(choose((uint32_t)d.toks.back().end, "bad.cut")); what = "truncated"; must_flag = true; note_fault(F_HALF_CLOSE); break;
    case 1: if (!d.colons.empty()) { text[pos_in(d.colons)] = ';'; what = "colon"; must_flag = true; } break;
    case 2: if (!d.commas.empty()) { text[pos_in(d.commas)] = ';'; what = "comma"; must_flag = true; } break;
    case 3: { std::vector<size_t> c; for (auto& t : d.toks) if (t.item == js::item::end_array || t.item == js::item::end_object) c.push_back(t.end - 1);
        size_t p = pos_in(c); text[p] = text[p] == ']' ? '}' : ']'; what = "bracket"; must_flag = true; break; }
    case 4: { std::vector<size_t> c; for (auto& t : d.toks) if (t.item == js::item::null || t.item == js::item::boolean) c.push_back(t.end - 1 - choose(3, "bad.lit"));
        if (!c.empty()) { text[pos_in(c)] = '#'; what = "literal"; must_flag = true; } break; }
    case 5: { std::vector<size_t> c; for (auto& t : d.toks) if (t.item == js::item::string) c.push_back(t.end - 1);
        if (!c.empty()) { static const char* e[] = {"\\u12", "\\uzzzz", "\\u0141", "\\q", "\\x41", "\\u", "\\ud83d"}; text.insert(pos_in(c), e[choose(7, "bad.esc")]); what = "escape"; must_flag = true; } break; }
    case 6: { std::vector<size_t> c; for (auto& t : d.toks) if (t.item == js::item::begin_object) c.push_back(t.end == 0 ? 0 : t.end);
        // a property that is not a string
        c.clear(); for (size_t i = 0; i + 1 < d.toks.size(); i++) if (d.toks[i].item == js::item::property) c.push_back(d.toks[i].end);
        if (!c.empty()) { text.insert(pos_in(c), "5:"); what = "property"; must_flag = true; } break; }
    case 7: { unsigned n = pick(1, 4, "bad.muts"); for (unsigned i = 0; i < n; i++) { size_t p = choose((uint32_t)text.size(), "bad.pos"); switch (choose(3, "bad.mut")) { case 0: text[p] = (char)choose(256, "bad.byte"); break; case 1: text.erase(p, 1 + choose(5, "bad.len")); break; default: text.insert(p, 1, "\"\\[]{},:0e-+.\0 n"[choose(16, "bad.ins")]); } if (text.empty()) text = " "; } what = "mutated"; break; }
    case 8: { text.clear(); for (uint32_t n = choose(200, "bad.n"); n > 0; n--) text.push_back(choose(3, "bad.rk") ? "\"\\[]{},:0123456789eE-+.tfnu \n"[choose(29, "bad.r")] : (char)choose(256, "bad.byte")); what = "random"; break; }
    case 9: {                                                  // a bracket or a separator where a value or a property has to be
        bool after_comma = d.commas.size() && choose(2, "bad.after");
        if (!after_comma && d.colons.empty()) break;
        size_t p = pos_in(after_comma ? d.commas : d.colons) + 1;
        const char* wrong = "]},:";
        if (after_comma) for (auto& t : d.toks) if (t.end > p) { wrong = t.item == js::item::property ? "]],:" : "}},:"; break; }   // the reader tolerates a comma before the end
        text.insert(p, 1, wrong[choose(4, "bad.wrong")]); what = after_comma ? "place after a comma" : "place after a colon"; must_flag = true; break; }
    case 10: { std::vector<size_t> c; for (auto& t : d.toks) if (t.item == js::item::begin_array || t.item == js::item::begin_object) c.push_back(t.end);
        // a separator where the first item has to be
        if (!c.empty()) { text.insert(pos_in(c), 1, ",:"[choose(2, "bad.wrong")]); what = "beginning of an array or object"; must_flag = true; } break; }
    default: { std::string deep; unsigned n = pick((unsigned)L - 1, (unsigned)L + 3, "bad.deep"); std::string close; for (unsigned i = 0; i < n; i++) { bool o = choose(2, "bad.o"); deep += o ? "{\"a\":" : "["; close.insert(0, o ? "}" : "]"); } text = deep + "1" + close; what = "depth"; must_flag = n > L; if (n <= L) what = "deep but allowed"; break; }
    }
    coverage(what);
    feed f(text, chunking());
    log_holder lg;
    ev("%s input of %zu bytes: %s", what, text.size(), show(text).c_str());
    reader<L> r(&f, lg.get());
    size_t limit = text.size() + 8, n = 0, depth_max = 0; int open = 0; bool done = false, small = chance(300, "cfg.small");
    while (r.good() && !done) {
        if (n++ > limit) violation("endless-tokens", "%zu tokens from %zu bytes of input", n, text.size());
        if (chance(150, "bad.skip")) { js::item_t k = r.skip_value(); (void)k; }
        else {
            tbuf b(small ? sizeof(js::token_t) + choose(12, "bad.size") : sizeof(js::token_t) + text.size() + 16);
            r.get_token(b.t(), b.size);
        }
        if (r.good() && r.levels() == 0) done = true;
        depth_max = std::max(depth_max, r.levels());
        if (r.levels() > L) violation("levels", "%zu nesting levels are open, the limit is %zu", r.levels(), L);
    }
    (void)open;
    if (must_flag && done) violation("unflagged", "a document with a damaged %s was read to its end without an error: %s", what, show(text).c_str());
    for (int i = 0; i < 3; i++) { tbuf b(32); bool was = r.good(); r.get_token(b.t(), b.size); if (!was && r.good()) violation("error-forgotten", "the stream is good again after an error"); }
    if (!r.good()) r.skip_value();
    if (!strcmp(what, "deep but allowed") && !done && !small) violation("spurious-error", "nesting within the limit is refused");
    state_hash(hash64(text.data(), text.size()));
}
static void p_bad() {
    set_step_limit(5000000ull);
    switch (choose(3, "cfg.levels")) { case 0: parse_bad<64>(); break; case 1: parse_bad<3>(); break; default: parse_bad<13>(); }
}

// strings and numbers larger than what the caller provided room for
static void p_room() {
    set_step_limit(5000000ull);
    bool prop = choose(2, "cfg.prop"), number = chance(300, "cfg.num");
    std::string s, enc, text; size_t len = pick(0, 90, "room.len");
    std::string num;
    if (number) {
        unsigned a = choose(40, "room.a"), b = choose(40, "room.b"), e = choose(6, "room.e");
        if (choose(2, "room.neg")) num += "-+"[choose(2, "room.sign")];
        num += (char)('0' + choose(10, "room.d")); for (unsigned i = 0; i < a; i++) num += (char)('0' + choose(10, "room.d"));
        if (b) { num += '.'; for (unsigned i = 0; i < b; i++) num += (char)('0' + choose(10, "room.d")); }
        if (e) { num += 'e'; if (choose(2, "room.es")) num += '-'; for (unsigned i = 0; i < e; i++) num += (char)('0' + choose(10, "room.d")); }
        text = "[" + num + "]"; prop = false;
    } else {
        for (size_t i = 0; i < len; i++) { if (choose(4, "room.esc") == 0) { s += '\n'; enc += choose(2, "room.u") ? "\\u000a" : "\\n"; } else { char c = (char)('a' + i % 26); s += c; enc += c; } }
        text = prop ? "{\"" + enc + "\":7}" : "[\"" + enc + "\",7]";
    }
    size_t room = sizeof(js::token_t) + choose(100, "room.size");
    size_t space = room - offsetof(js::token_t, value);
    feed f(text, chunking());
    log_holder lg;
    ev("%zu bytes of room for a %s of %zu chars: %s", room, number ? "number" : prop ? "property" : "string", s.size(), show(text).c_str());
    reader<64> r(&f, lg.get());
    { tbuf b(32); r.get_token(b.t(), b.size); if (!r.good()) violation("spurious-error", "the beginning of a valid document is refused"); }
    tbuf b(room);
    r.get_token(b.t(), room);
    if (number) {
        if (r.good()) { tok w; w.item = js::item::number; w.d = strtod(num.c_str(), nullptr); compare(b.t(), w, 1); }
        else { coverage("number-too-long"); if (num.size() <= 17) violation("spurious-error", "the number %s is refused", num.c_str()); }
    } else {
        bool fits = s.size() + 1 <= space;
        if (r.good()) {
            if (!fits) violation("overlong-accepted", "a string of %zu chars was accepted into %zu bytes", s.size(), space);
            tok w; w.item = prop ? js::item::property : js::item::string; w.s = s; compare(b.t(), w, 1);
        } else {
            coverage("too-long");
            if (s.size() + 1 + 8 <= space) violation("spurious-error", "a string of %zu chars does not fit in %zu bytes", s.size(), space);
        }
    }
    state_hash(hash64(text.data(), text.size()) + room);
}

// ---------------------------------------------------------------- output
static void p_generate() {
    set_step_limit(5000000ull);
    doc d = make_doc(12, chance(900, "cfg.container"));
    uint32_t ch = chunking();
    drain out(ch);
    if (chance(300, "out.full")) out.capacity = choose((uint32_t)d.text.size() + 40, "out.cap");
    log_holder lg;
    ev("write %zu tokens, room for %zd bytes", d.toks.size(), (ssize_t)out.capacity);
    std::unique_ptr<writer<64>> w(new writer<64>(&out, lg.get()));
    bool via_token = chance(300, "cfg.token"), moves = chance(100, "cfg.move");
    for (auto& t : d.toks) {
        if (chance(100, "out.space")) switch (choose(4, "out.sp")) { case 0: w->put_space(); break; case 1: w->put_tab(); break; case 2: w->put_cr(); break; default: w->put_lf(); }
        if (moves && chance(200, "move")) { coverage("moved"); bool g = w->good(); if (g) { std::unique_ptr<writer<64>> n(new writer<64>(std::move(*w))); w = std::move(n); } }
        std::unique_ptr<char[]> exact(new char[t.s.size() + 1]); memcpy(exact.get(), t.s.c_str(), t.s.size() + 1);
        bool sized = chance(500, "out.sized");
        std::unique_ptr<char[]> unterminated(new char[t.s.size() ? t.s.size() : 1]); memcpy(unterminated.get(), t.s.data(), t.s.size());
        if (via_token) {
            tbuf b(sizeof(js::token_t) + t.s.size() + 1);
            b.t()->item = t.item;
            if (t.item == js::item::boolean) b.t()->value.boolean = t.b;
            if (t.item == js::item::number) b.t()->value.number = t.d;
            if (t.item == js::item::string || t.item == js::item::property) memcpy(b.t()->value.string, t.s.c_str(), t.s.size() + 1);
            if (sized) w->put_token(b.t(), t.s.size()); else w->put_token(b.t());
        } else switch (t.item) {
            case js::item::null: w->put_null(); break;
            case js::item::boolean: w->put_boolean(t.b); break;
            case js::item::number: w->put_number(t.d); break;
            case js::item::string: if (sized) w->put_string(unterminated.get(), t.s.size()); else w->put_string(exact.get()); break;
            case js::item::property: if (sized) w->put_property(unterminated.get(), t.s.size()); else w->put_property(exact.get()); break;
            case js::item::begin_array: w->put_begin_array(); break;
            case js::item::end_array: w->put_end_array(); break;
            case js::item::begin_object: w->put_begin_object(); break;
            case js::item::end_object: w->put_end_object(); break;
        }
        if (!w->good() && !out.failed) violation("spurious-error", "writing a valid token sequence put the stream in error");
    }
    w->flush();
    if (out.failed) { coverage("sink-full"); if (w->good()) violation("lost-output", "the stream is good although its buffer refused output"); return; }
    if (!w->good()) violation("spurious-error", "writing a valid token sequence put the stream in error");
    ev("wrote %s", show(out.data).c_str());
    // an independent reader of the text
    size_t p = 0; const std::string& s = out.data;
    auto ws = [&] { while (p < s.size() && strchr(" \t\r\n", s[p]) && s[p]) p++; };
    std::vector<char> st; bool first = true; bool after_prop = false;
    for (size_t i = 0; i < d.toks.size(); i++) {
        auto& t = d.toks[i];
        ws();
        bool end = t.item == js::item::end_array || t.item == js::item::end_object;
        if (!st.empty() && !first && !end && !after_prop) { if (p >= s.size() || s[p] != ',') violation("syntax", "no comma before token %zu in %s", i, show(s.substr(0, p + 10)).c_str()); p++; ws(); }
        after_prop = false; first = false;
        auto literal = [&](const char* l) { if (s.compare(p, strlen(l), l)) violation("syntax", "token %zu is not %s", i, l); p += strlen(l); };
        auto string = [&] {
            if (p >= s.size() || s[p] != '"') violation("syntax", "token %zu does not begin with a quote", i);
            p++; std::string r;
            while (p < s.size() && s[p] != '"') {
                if (s[p] == '\\') {
                    p++; if (p >= s.size()) violation("syntax", "the text ends within an escape");
                    const char* q = strchr("\"\\/bfnrt", s[p]);
                    if (s[p] == 'u') { r.push_back((char)strtol(s.substr(p + 1, 4).c_str(), nullptr, 16)); p += 5; }
                    else if (q && *q) { r.push_back("\"\\/\b\f\n\r\t"[q - "\"\\/bfnrt"]); p++; }
                    else violation("syntax", "escape \\%c in the output", s[p]);
                } else {
                    if ((unsigned char)s[p] < 0x20) violation("syntax", "a raw control char in a string");
                    r.push_back(s[p++]);
                }
            }
            if (p >= s.size()) violation("syntax", "a string does not end");
            p++;
            if (r != t.s) violation("string-changed", "string \"%s\" was written as \"%s\"", show(t.s).c_str(), show(r).c_str());
        };
        switch (t.item) {
        case js::item::null: literal("null"); break;
        case js::item::boolean: literal(t.b ? "true" : "false"); break;
        case js::item::number: { size_t e = s.find_first_not_of("0123456789+-.eE", p); if (e == std::string::npos) e = s.size(); double v = strtod(s.substr(p, e - p).c_str(), nullptr); if (e == p || std::fabs(v - t.d) > std::fabs(t.d) * 1e-15) violation("number-changed", "number %.17g was written as %s", t.d, s.substr(p, e - p).c_str()); p = e; break; }
        case js::item::string: string(); break;
        case js::item::property: string(); ws(); literal(":"); after_prop = true; break;
        case js::item::begin_array: literal("["); st.push_back('['); first = true; break;
        case js::item::begin_object: literal("{"); st.push_back('{'); first = true; break;
        case js::item::end_array: literal("]"); st.pop_back(); break;
        case js::item::end_object: literal("}"); st.pop_back(); break;
        }
    }
    ws();
    if (p != s.size()) violation("syntax", "%zu more bytes after the document", s.size() - p);
    // and back through the library
    feed f(s, chunking());
    reader<64> r(&f, lg.get());
    for (size_t i = 0; i < d.toks.size(); i++) {
        tbuf b(sizeof(js::token_t) + s.size() + 16);
        r.get_token(b.t(), b.size);
        tok t = d.toks[i];
        if (t.item == js::item::number && b.t()->item == t.item && std::fabs(b.t()->value.number - t.d) <= std::fabs(t.d) * 1e-15) t.d = b.t()->value.number;
        compare(b.t(), t, i);
    }
    state_hash(hash64(s.data(), s.size()));
}

// writer calls in an order that is not JSON are refused, and no output is written for them
static void p_misuse() {
    set_step_limit(5000000ull);
    drain out(chunking());
    log_holder lg;
    writer<5> w(&out, lg.get());
    auto put = [&](js::item_t item) {
        if (choose(3, "mis.token") == 0) {
            tbuf b(sizeof(js::token_t) + 8); b.t()->item = item;
            if (item == js::item::boolean) b.t()->value.boolean = true; else if (item == js::item::number) b.t()->value.number = 3; else if (item == js::item::string || item == js::item::property) strcpy(b.t()->value.string, "x");
            w.put_token(b.t());
            return;
        }
        switch (item) {
        case js::item::null: w.put_null(); break;
        case js::item::boolean: w.put_boolean(choose(2, "mis.bool")); break;
        case js::item::number: w.put_number(3); break;
        case js::item::string: w.put_string("x"); break;
        case js::item::property: w.put_property("p"); break;
        case js::item::begin_array: w.put_begin_array(); break;
        case js::item::end_array: w.put_end_array(); break;
        case js::item::begin_object: w.put_begin_object(); break;
        default: w.put_end_object(); break;
        }
    };
    std::vector<char> st; bool want_value = false, root = false;
    for (unsigned n = pick(3, 60, "mis.n"); n > 0; n--) {
        uint32_t k = choose(9, "mis.op");
        bool in_obj = !st.empty() && st.back() == '{', expect_prop = in_obj && !want_value;
        bool ok; std::string before = out.data;
        switch (k) {
        case 0: ok = !expect_prop; if (ok && st.empty() && root) continue; put(js::item::null); break;
        case 1: ok = !expect_prop; if (ok && st.empty() && root) continue; put(js::item::number); break;
        case 2: ok = !expect_prop; if (ok && st.empty() && root) continue; put(js::item::string); break;
        case 3: ok = expect_prop; put(js::item::property); break;
        case 4: ok = !expect_prop && st.size() < 5; if (st.empty() && root) continue; put(js::item::begin_array); break;
        case 5: ok = !expect_prop && st.size() < 5; if (st.empty() && root) continue; put(js::item::begin_object); break;
        case 6: ok = !st.empty() && st.back() == '['; put(js::item::end_array); break;
        case 8: ok = !expect_prop; if (ok && st.empty() && root) continue; put(js::item::boolean); break;
        default: ok = expect_prop; put(js::item::end_object); break;
        }
        ev("op %u %s", k, ok ? "legal" : "illegal");
        if (ok != w.good()) violation(ok ? "spurious-error" : "misuse-accepted", "operation %u with %zu levels open, %s: stream is %s; wrote %s", k, st.size(), expect_prop ? "a property expected" : "a value expected", w.good() ? "good" : "in error", show(out.data).c_str());
        if (!ok) { coverage("refused"); break; }
        root = true;
        if (k == 3) want_value = true; else if (k == 4) { st.push_back('['); want_value = false; } else if (k == 5) { st.push_back('{'); want_value = false; } else if (k == 6 || k == 7) { st.pop_back(); want_value = false; } else want_value = false;
        if (w.levels() != st.size()) violation("levels", "%zu levels, expected %zu", w.levels(), st.size());
    }
    state_hash(hash64(out.data.data(), out.data.size()));
}

namespace sim {
#define REAL "JSON reader and writer, base streams, log of the repository"
#define STUB "the stream buffer under them (portions, end of input, refused output)"
const property properties[] = {
    {"J01", p_parse, 20000, 400000, "distinct documents read token by token in distinct portions", REAL, STUB, 60},
    {"J02", p_bad, 20000, 400000, "distinct damaged, truncated or arbitrary inputs read to an error or an end", REAL, STUB, 60},
    {"J03", p_room, 20000, 400000, "distinct strings and numbers read into rooms of distinct size", REAL, STUB, 60},
    {"J04", p_generate, 20000, 400000, "distinct documents written into sinks that take portions or fill up", REAL, STUB, 60},
    {"J05", p_misuse, 20000, 400000, "distinct writer call sequences up to the first illegal call", REAL, STUB, 60},
    {nullptr}
};
const char* harness_name = "json";
}
