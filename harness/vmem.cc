// Persistent virtual memory: pool, pages, lists, stacks, maps, strings, linked page lists.
// One run = one seeded history of public operations on a pool file held by the simulated disk,
// checked step by step against plain in-memory reference containers.
#include <algorithm>
#include <cstring>
#include <istream>
#include <ostream>
#include <memory>
#include <set>
#include <stdexcept>
#include "log.h"
#include "vmem.h"
#include "core.h"

using namespace sim;
typedef std::vector<uint64_t> ids;
static const char* PATH = "/sim/pool.vmem";

// A log that formats lines (all of the first ones, then some) and drops them.
struct dropping_log {
    uint64_t lines = 0;
    void put_any(abc::category_t, abc::severity_t, abc::tag_t, const char* format, ...) __attribute__((format(printf, 5, 6))) {
        if (lines++ > 3000 && lines % 16) return;
        char line[200]; va_list a; va_start(a, format); int n = vsnprintf(line, sizeof line, format, a); va_end(a);
        if (n < 0) violation("log-line", "a log line could not be formatted: %s", format);
    }
    void put_binary(abc::category_t, abc::severity_t, abc::tag_t, const void* b, std::size_t n) { for (std::size_t i = 0; i < n; i++) lines += ((const volatile uint8_t*)b)[i]; }
};
static dropping_log* lg = nullptr;     // the log of every pool and container, or none
static void fill(uint8_t* p, size_t n, uint64_t id) {
    for (size_t i = 0; i < n; i += 8) { uint64_t w = mix(id * 1000003 + i / 8); memcpy(p + i, &w, n - i < 8 ? n - i : 8); }
}
static bool filled(const uint8_t* p, size_t n, uint64_t id) {
    for (size_t i = 0; i < n; i += 8) { uint64_t w = mix(id * 1000003 + i / 8); if (memcmp(p + i, &w, n - i < 8 ? n - i : 8)) return false; }
    return true;
}

#pragma pack(push, 1)
template <size_t S> struct item_t {
    uint64_t id;
    uint8_t body[S - 8];
    item_t() = default;
    explicit item_t(uint64_t i) : id(i) { fill(body, sizeof body, i); }
    uint64_t get() const {
        uint64_t i = id;
        if (!filled(body, sizeof body, i)) violation("item-bytes", "an item of %zu bytes (id %llu) came back with other bytes than were stored", S, (unsigned long long)i);
        return i;
    }
    bool operator<(const item_t& o) const { return id < o.id; }
    bool operator<=(const item_t& o) const { return id <= o.id; }
    bool operator==(const item_t& o) const { return id == o.id; }
};
template <> struct item_t<8> {
    uint64_t id;
    item_t() = default;
    explicit item_t(uint64_t i) : id(i) {}
    uint64_t get() const { return id; }
    bool operator<(const item_t& o) const { return id < o.id; }
    bool operator<=(const item_t& o) const { return id <= o.id; }
    bool operator==(const item_t& o) const { return id == o.id; }
};
struct start_t {
    abc::vmem_list_state lists[4];
    abc::vmem_stack_state stacks[2];
    abc::vmem_map_state maps[5];
    abc::vmem_linked_state linked[3];
    abc::vmem_string_state strings[2];
    uint8_t note[64];
};
#pragma pack(pop)

// ---------------------------------------------------------------- interfaces over the real containers
enum where_t { NONE = -1 };
struct seq {
    const char* name; const char* cls;
    virtual ~seq() {}
    virtual size_t size() = 0;
    virtual bool empty() = 0;
    virtual void push_back(uint64_t id) = 0;
    virtual void push_front(uint64_t) {}
    virtual void pop_back() = 0;
    virtual void pop_front() {}
    // returns id under the returned iterator or -1 (end / not dereferencable); ok = operation reported success
    virtual int64_t insert(size_t, uint64_t, size_t*) { return -1; }
    virtual int64_t erase(size_t, size_t*) { return -1; }
    virtual int64_t erase_range(size_t, size_t) { return -1; }
    virtual int64_t insert_range(size_t, const ids&, size_t*) { return -1; }
    // in two steps: where (nothing fails yet), then the change; true if it returned an iterator to an item
    virtual void aim(size_t) {}
    virtual bool insert_aimed(uint64_t) { return false; }
    virtual bool erase_aimed() { return false; }
    virtual void set(size_t, uint64_t) {}
    virtual int64_t own(size_t, size_t, size_t*) { return -1; }     // inserts one of its own items again, straight from its page
    virtual void push_own(size_t) = 0;
    virtual uint64_t front() = 0;
    virtual uint64_t back() = 0;
    virtual void again(bool move) = 0;
    virtual void clear() = 0;
    virtual ids forward(size_t limit) = 0;
    virtual ids backward(size_t limit) = 0;
    bool can_insert = true;
    size_t per_page = 1;
};

template <class C, class I, bool INS> struct seq_ops {
    static int64_t insert(C& c, size_t pos, uint64_t id, size_t* at);
};

template <class C, class I, bool INS> struct seq_of : seq {
    std::unique_ptr<C> c;
    void again(bool move) override { std::unique_ptr<C> n(move ? new C(std::move(*c)) : new C((const C&)*c)); c = std::move(n); }
    typedef decltype(std::declval<C&>().begin()) itr_t;
    template <class St, class P> seq_of(St* st, P* pool, const char* n, const char* cl) { c.reset(new C(st, pool, lg)); name = n; cls = cl; can_insert = INS; per_page = 4069 / sizeof(I); }
    static uint64_t val(itr_t i) { auto p = i.operator->(); if (p.operator->() == nullptr) violation("no-item", "an iterator inside the container gave no item"); return p->get(); }
    itr_t nth(size_t pos) {
        itr_t i = c->begin();
        for (size_t k = 0; k < pos; k++) i++;
        return i;
    }
    size_t size() override { return c->size(); }
    bool empty() override { return c->empty(); }
    void push_back(uint64_t id) override { I x(id); c->push_back(x); }
    void pop_back() override { c->pop_back(); }
    void push_own(size_t from) override { auto p = nth(from).operator->(); c->push_back(*p.operator->()); }
    uint64_t front() override { auto p = c->frontptr(); if (p.operator->() == nullptr) violation("no-item", "front of a non-empty container gave no item"); return p->get(); }
    uint64_t back() override { auto p = c->backptr(); if (p.operator->() == nullptr) violation("no-item", "back of a non-empty container gave no item"); return p->get(); }
    void clear() override { c->clear(); }
    ids forward(size_t limit) override { ids r; for (itr_t i = c->begin(); i != c->end(); i++) { if (r.size() > limit || !i.can_deref()) { r.push_back(~0ull); return r; } r.push_back(val(i)); } return r; }
    ids backward(size_t limit) override { ids r; for (itr_t i = c->rend(); i != c->rbegin(); i--) { if (r.size() > limit || !i.can_deref()) { r.push_back(~0ull); return r; } r.push_back(val(i)); } return r; }
};
template <class C, class I> struct list_of : seq_of<C, I, true> {
    typedef seq_of<C, I, true> B;
    typedef typename B::itr_t itr_t;
    using B::B; using B::c;
    void push_front(uint64_t id) override { I x(id); c->push_front(x); }
    void pop_front() override { c->pop_front(); }
    int64_t done(itr_t r, size_t* at) {
        if (!r.can_deref()) { if (at) *at = r == c->end() ? c->size() : ~(size_t)0; return -1; }
        uint64_t v = B::val(r);
        if (at) {      // where does the returned iterator stand?
            size_t k = 0;
            for (itr_t i = c->begin(); i != c->end() && k <= c->size(); i++, k++) if (i == r) break;
            *at = k;
        }
        return (int64_t)v;
    }
    int64_t insert(size_t pos, uint64_t id, size_t* at) override { I x(id); return done(c->insert(pos >= c->size() ? c->end() : B::nth(pos), x), at); }
    int64_t own(size_t pos, size_t from, size_t* at) override { auto p = B::nth(from).operator->(); return done(c->insert(pos >= c->size() ? c->end() : B::nth(pos), *p.operator->()), at); }
    std::unique_ptr<itr_t> aimed;
    void aim(size_t pos) override { aimed.reset(new itr_t(pos >= c->size() ? c->end() : B::nth(pos))); }
    bool insert_aimed(uint64_t id) override { I x(id); return c->insert(*aimed, x) != c->end(); }
    bool erase_aimed() override { return c->erase(*aimed) != c->end(); }
    int64_t erase(size_t pos, size_t* at) override { return done(c->erase(B::nth(pos)), at); }
    int64_t erase_range(size_t a, size_t b) override { 
        itr_t first = B::nth(a);
        itr_t last = b >= c->size() ? c->end() : B::nth(b);
        return done(c->erase(first, last), nullptr); }
    int64_t insert_range(size_t pos, const ids& v, size_t* at) override { std::vector<I> x; for (auto i : v) x.push_back(I(i)); return done(c->insert(pos >= c->size() ? c->end() : B::nth(pos), x.begin(), x.end()), at); }
    void set(size_t pos, uint64_t id) override { itr_t i = B::nth(pos); auto p = i.operator->(); if (p.operator->() == nullptr) violation("no-item", "an iterator inside the container gave no item"); *p.operator->() = I(id); }
};

static bool strict_find = true;   // nothing fails: compare the const lookups too
struct kvmap {
    const char* name; size_t per_page = 1, keys_per_page = 1;
    virtual ~kvmap() {}
    virtual size_t size() = 0;
    virtual bool empty() = 0;
    virtual bool insert(uint64_t k, uint64_t v, int64_t* atk, int64_t* atv) = 0;
    virtual size_t erase(uint64_t k) = 0;
    virtual size_t erase_own(uint64_t k) = 0;     // by the key where it is stored
    virtual bool find(uint64_t k, uint64_t* v) = 0;
    virtual bool index(uint64_t k, uint64_t* v) = 0;
    virtual bool step(uint64_t k, uint64_t* v) = 0;
    virtual void set(uint64_t k, uint64_t v) = 0;
    virtual void clear() = 0;
    virtual ids forward(size_t limit) = 0;      // k, v, k, v ...
    virtual ids backward(size_t limit) = 0;
    virtual void insert_range(const std::vector<std::pair<uint64_t, uint64_t>>& v) = 0;
    virtual void erase_range(const ids& v) = 0;
    virtual void again(bool move) = 0;
};
template <size_t KS, size_t VS, class P> struct kv_of : kvmap {
    typedef item_t<KS> K; typedef item_t<VS> V;

    typedef abc::vmem_map<K, V, P, dropping_log> C;
    typedef abc::vmem_map_value<K, V> KV;
    typedef decltype(std::declval<C&>().begin()) itr_t;
    std::unique_ptr<C> c;
    kv_of(abc::vmem_map_state* st, P* pool, const char* n) { c.reset(new C(st, pool, lg)); name = n; per_page = 4069 / sizeof(KV); keys_per_page = 4069 / (KS + 8); }
    void again(bool move) override { std::unique_ptr<C> n(move ? new C(std::move(*c)) : new C((const C&)*c)); c = std::move(n); }
    static KV make(uint64_t k, uint64_t v) { KV x; x.key = K(k); x.value = V(v); return x; }
    size_t size() override { return c->size(); }
    bool empty() override { return c->empty(); }
    static bool item(itr_t i, uint64_t* k, uint64_t* v) { auto p = i.operator->(); if (p.operator->() == nullptr) return false; *k = p->key.get(); *v = p->value.get(); return true; }
    bool insert(uint64_t k, uint64_t v, int64_t* atk, int64_t* atv) override {
        KV x = make(k, v);
        auto r = c->insert(x);
        uint64_t a = 0, b = 0;
        *atk = *atv = -1;
        if (r.first.can_deref() && item(r.first, &a, &b)) { *atk = (int64_t)a; *atv = (int64_t)b; }
        return r.second;
    }
    size_t erase(uint64_t k) override { K x(k); return c->erase(x); }
    size_t erase_own(uint64_t k) override { K x(k); auto p = (*c)[x]; if (p.operator->() == nullptr) violation("map-lost-key", "[] does not find a key that is present"); return c->erase(p->key); }
    bool find(uint64_t k, uint64_t* v) override {
        K x(k); itr_t i = c->find(x);
        if (strict_find) {
            const C& cc = *c; auto ci = cc.find(x); bool has = cc.contains(x), found = i != c->end();
            if (has != found || (found && (ci.page_pos() != i.page_pos() || ci.item_pos() != i.item_pos() || !ci.can_deref())) || (!found && ci.can_deref()))
                violation("map-const-find", "the const find()/contains() disagree with find() on key %llu", (unsigned long long)k);
        }
        if (i == c->end()) return false;
        uint64_t a;
        if (!strict_find) { if (!i.can_deref() || !item(i, &a, v)) return false; }
        else if (!i.can_deref() || !item(i, &a, v)) violation("find-iterator", "find() returned an iterator that is neither end nor an item");
        if (a != k) violation("find-other-key", "find(%llu) returned the item of key %llu", (unsigned long long)k, (unsigned long long)a);
        return true;
    }
    bool step(uint64_t k, uint64_t* v) override {      // the pieces of find(), insert() and erase()
        K x(k); auto a = c->find2(x);
        if (choose(2, "op.find2.move")) {
            ids path; for (auto i = a.path.begin(); i != a.path.end(); i++) path.push_back(*i.operator->().operator->());
            std::unique_ptr<typename C::find_result2> f(new typename C::find_result2(std::move(a))), g(new typename C::find_result2(std::move(*f))); f.reset();
            ids same; for (auto i = g->path.begin(); i != g->path.end() && same.size() <= path.size(); i++) same.push_back(*i.operator->().operator->());
            if (same != path || g->path.size() != path.size() || a.path.size() != 0) violation("find2-path", "the path of a find has %zu pages, after it was moved %zu", path.size(), same.size());
            coverage("find2-moved");
            if (!g->ok) return false;
            uint64_t b; if (!item(g->iterator, &b, v) || b != k) violation("find2-iterator", "a find of key %llu has another item", (unsigned long long)k);
            return true;
        }
        if (!a.ok) return false;
        uint64_t b; if (!item(a.iterator, &b, v) || b != k) violation("find2-iterator", "a find of key %llu has another item", (unsigned long long)k);
        return true;
    }
    bool index(uint64_t k, uint64_t* v) override { K x(k); auto p = (*c)[x]; if (p.operator->() == nullptr) return false; *v = p->value.get(); if (p->key.get() != k) violation("index-other-key", "[%llu] gave the item of another key", (unsigned long long)k); return true; }
    void set(uint64_t k, uint64_t v) override { K x(k); auto p = (*c)[x]; if (p.operator->() == nullptr) violation("map-lost-key", "[] does not find a key that is present"); p->value = V(v); }
    void clear() override { c->clear(); }
    ids forward(size_t limit) override { ids r; for (itr_t i = c->begin(); i != c->end(); i++) { uint64_t a, b; if (r.size() > 2 * limit || !i.can_deref() || !item(i, &a, &b)) { r.push_back(~0ull); return r; } r.push_back(a); r.push_back(b); } return r; }
    ids backward(size_t limit) override { ids r; for (itr_t i = c->rend(); i != c->rbegin(); i--) { uint64_t a, b; if (r.size() > 2 * limit || !i.can_deref() || !item(i, &a, &b)) { r.push_back(~0ull); return r; } r.push_back(a); r.push_back(b); } return r; }
    void insert_range(const std::vector<std::pair<uint64_t, uint64_t>>& v) override { std::vector<KV> x; for (auto& e : v) x.push_back(make(e.first, e.second)); c->insert(x.begin(), x.end()); }
    void erase_range(const ids& v) override { std::vector<K> x; for (auto e : v) x.push_back(K(e)); c->erase(x.begin(), x.end()); }
};

struct charitem {           // adapts vmem_string to the sequence interface
    char ch;
    explicit charitem(uint64_t id) : ch((char)id) {}
};

// ---------------------------------------------------------------- the world
struct config {
    unsigned seqs = 0, maps = 0;          // bit masks of enabled slots (lists 0-3, stacks 4-5 / maps 0-4)
    bool raw = false, linked = false, string = false, reopen = false, kill = false, hold = false, temp = false, brim = false, faults = false, growth_faults = false;
    unsigned ops = 60;
    unsigned keyspace = 64;
    size_t max_seq = 200, max_map = 150;
    unsigned verify_every = 7;
    unsigned erase_bias = 50;             // percent of shrinking operations
    bool range_ops = true;
};

template <size_t N> struct world {
    typedef dropping_log L;
    typedef abc::vmem_pool<N, L> P;
    typedef abc::vmem_page<P, L> page_t;
    typedef abc::vmem_linked<P, L> linked_t;
    config cfg;
    std::unique_ptr<P> pool;
    std::unique_ptr<page_t> start;
    start_t* st = nullptr;
    std::unique_ptr<seq> s[6];
    std::unique_ptr<kvmap> m[5];
    ids ms[6];
    std::map<uint64_t, uint64_t> mm[5];
    struct raw_t { uint64_t pos, id; };
    std::vector<raw_t> raws;
    std::vector<raw_t> lnk[3];
    struct held_t { std::unique_ptr<page_t> page; void* ptr; uint64_t pos, id; };
    std::vector<held_t> held;
    uint64_t next_id = 1;
    std::string str[2];
    uint64_t opno = 0;

    explicit world(const config& c) : cfg(c) {}

    void check_limit(const char* when) {
        if ((size_t)fs::max_map_count() > N) violation("memory-limit", "%d pages were mapped at once %s; the pool's limit is %zu", fs::max_map_count(), when, N);
    }
    void open() {
        pool.reset(new P(PATH, lg));
        start.reset(new page_t(pool.get(), abc::vmem_page_pos_start, lg));
        if (start->ptr() == nullptr) violation("start-page", "the start page cannot be locked on a freshly opened pool");
        st = (start_t*)start->ptr();
        attach();
    }
    void attach() {
        static const char* ln[] = {"list64", "list900", "list1900", "list4060"};
        if (cfg.seqs & 1) s[0].reset(new list_of<abc::vmem_list<item_t<64>, P, L>, item_t<64>>(&st->lists[0], pool.get(), ln[0], "list"));
        if (cfg.seqs & 2) s[1].reset(new list_of<abc::vmem_list<item_t<900>, P, L>, item_t<900>>(&st->lists[1], pool.get(), ln[1], "list"));
        if (cfg.seqs & 4) s[2].reset(new list_of<abc::vmem_list<item_t<1900>, P, L>, item_t<1900>>(&st->lists[2], pool.get(), ln[2], "list"));
        if (cfg.seqs & 8) s[3].reset(new list_of<abc::vmem_list<item_t<4060>, P, L>, item_t<4060>>(&st->lists[3], pool.get(), ln[3], "list"));
        if (cfg.seqs & 16) s[4].reset(new seq_of<abc::vmem_stack<item_t<8>, P, L>, item_t<8>, false>(&st->stacks[0], pool.get(), "stack8", "stack"));
        if (cfg.seqs & 32) s[5].reset(new seq_of<abc::vmem_stack<item_t<1300>, P, L>, item_t<1300>, false>(&st->stacks[1], pool.get(), "stack1300", "stack"));
        if (cfg.maps & 1) m[0].reset(new kv_of<8, 8, P>(&st->maps[0], pool.get(), "map8-8"));
        if (cfg.maps & 2) m[1].reset(new kv_of<8, 900, P>(&st->maps[1], pool.get(), "map8-900"));
        if (cfg.maps & 4) m[2].reset(new kv_of<900, 900, P>(&st->maps[2], pool.get(), "map900-900"));
        if (cfg.maps & 8) m[3].reset(new kv_of<2000, 8, P>(&st->maps[3], pool.get(), "map2000-8"));
        if (cfg.maps & 16) m[4].reset(new kv_of<8, 3900, P>(&st->maps[4], pool.get(), "map8-3900"));
    }
    void detach() { for (auto& x : s) x.reset(); for (auto& x : m) x.reset(); }
    void close_pool(bool graceful) {
        if (graceful) {
            held.clear(); detach(); start.reset(); st = nullptr; pool.reset();
            if (fs::map_count() != 0) violation("leak-mapping", "%d pages are still mapped after the pool was destroyed", fs::map_count());
            if (fs::open_fds() != 0) violation("leak-descriptor", "%d descriptors are still open after the pool was destroyed", fs::open_fds());
        } else {
            // The process dies here: nothing in memory survives, no destructor runs.
            note_fault(F_KILL);
            for (auto& x : held) x.page.release();
            held.clear();
            for (auto& x : s) x.release();
            for (auto& x : m) x.release();
            start.release(); pool.release(); st = nullptr;
            fs::drop_process_state();
        }
    }

    // ------------------------------------------------------------ verification
    static std::string show(const ids& v) { std::string r; char b[32]; for (size_t i = 0; i < v.size() && i < 24; i++) { snprintf(b, sizeof b, "%s%lld", i ? " " : "", (long long)v[i]); r += b; } if (v.size() > 24) r += " ..."; return r; }
    void verify_seq(int i) {
        seq& c = *s[i];
        const ids& w = ms[i];
        if (c.size() != w.size()) violation(c.cls[0] == 'l' ? "list-size" : "stack-size", "%s: size() is %zu, %zu items were left in it", c.name, c.size(), w.size());
        if (c.empty() != w.empty()) violation("list-empty", "%s: empty() is %d with %zu items", c.name, c.empty(), w.size());
        ids f = c.forward(w.size() + 2);
        if (f != w) violation(c.cls[0] == 'l' ? "list-content" : "stack-content", "%s: iteration gives [%s], reference is [%s]", c.name, show(f).c_str(), show(w).c_str());
        ids b = c.backward(w.size() + 2);
        std::reverse(b.begin(), b.end());
        if (b != w) violation(c.cls[0] == 'l' ? "list-backward" : "stack-backward", "%s: backward iteration gives [%s], reference is [%s]", c.name, show(b).c_str(), show(w).c_str());
        if (!w.empty()) {
            if (c.front() != w.front()) violation("list-front", "%s: front is %llu, reference %llu", c.name, (unsigned long long)c.front(), (unsigned long long)w.front());
            if (c.back() != w.back()) violation("list-back", "%s: back is %llu, reference %llu", c.name, (unsigned long long)c.back(), (unsigned long long)w.back());
        }
    }
    void verify_map(int i) {
        kvmap& c = *m[i];
        auto& w = mm[i];
        if (c.size() != w.size()) violation("map-size", "%s: size() is %zu, reference has %zu", c.name, c.size(), w.size());
        if (c.empty() != w.empty()) violation("map-empty", "%s: empty() is %d with %zu items", c.name, c.empty(), w.size());
        ids want; for (auto& e : w) { want.push_back(e.first); want.push_back(e.second); }
        ids f = c.forward(w.size() + 2);
        if (f != want) violation("map-content", "%s: iteration gives %zu items [%s], reference has %zu [%s]", c.name, f.size() / 2, show(f).c_str(), w.size(), show(want).c_str());
        ids b = c.backward(w.size() + 2);
        ids bb;
        for (size_t k = b.size(); k >= 2; k -= 2) { bb.push_back(b[k - 2]); bb.push_back(b[k - 1]); }
        if (bb != want) violation("map-backward", "%s: backward iteration gives [%s], reference [%s]", c.name, show(bb).c_str(), show(want).c_str());
        size_t nth = 0, skip = deep || w.size() <= 24 ? 1 : w.size() / 16, from = mix(opno) % skip;
        for (auto& e : w) {
            if (nth++ % skip != from) continue;
            uint64_t v = 0;
            if (!c.find(e.first, &v)) violation("map-lost-key", "%s: key %llu is present (iteration shows it) and find() does not find it", c.name, (unsigned long long)e.first);
            if (v != e.second) violation("map-value", "%s: find(%llu) gives %llu, reference %llu", c.name, (unsigned long long)e.first, (unsigned long long)v, (unsigned long long)e.second);
            if (!w.count(e.first + 1) && c.find(e.first + 1, &v)) violation("map-found-absent", "%s: find(%llu) succeeds although the key is absent", c.name, (unsigned long long)e.first + 1);
        }
    }
    void verify_raw() {
        for (auto& r : raws) {
            page_t p(pool.get(), r.pos, lg);
            if (p.ptr() == nullptr) { if (held.size() + 2 >= N) continue; violation("page-lock", "page %llu cannot be locked although the memory limit is not reached", (unsigned long long)r.pos); }
            if (!filled((uint8_t*)p.ptr(), abc::vmem_page_size, r.id)) violation("page-content", "page %llu no longer holds what its owner wrote", (unsigned long long)r.pos);
        }
        for (auto& h : held) {
            if (h.page->ptr() != h.ptr) violation("locked-page-moved", "a locked page changed its address");
            if (!fs::in_arena(h.ptr) || !filled((uint8_t*)h.ptr, abc::vmem_page_size, h.id)) violation("locked-page-content", "page %llu lost its content while its owner kept it locked", (unsigned long long)h.pos);
        }
    }
    void verify_linked(int i) {
        linked_t l(&st->linked[i], pool.get(), lg);
        ids want, got, back;
        for (auto& e : lnk[i]) want.push_back(e.pos);
        if (l.empty() != want.empty()) violation("linked-empty", "linked list %d: empty() is %d with %zu pages", i, l.empty(), want.size());
        size_t n = 0;
        for (auto it = l.begin(); it != l.end() && n++ < want.size() + 2; it++) got.push_back(*it.operator->().operator->());
        if (got != want) violation("linked-content", "linked list %d: pages [%s], reference [%s]", i, show(got).c_str(), show(want).c_str());
        n = 0;
        for (auto it = l.rend(); it != l.rbegin() && n++ < want.size() + 2; it--) back.push_back(*it.operator->().operator->());
        std::reverse(back.begin(), back.end());
        if (!want.empty()) {
            if (l.front() != want.front() || l.back() != want.back()) violation("linked-ends", "linked list %d: its ends are pages %llu and %llu, reference [%s]", i, (unsigned long long)l.front(), (unsigned long long)l.back(), show(want).c_str());
        }
        if (back != want) violation("linked-backward", "linked list %d: backward pages [%s], reference [%s]", i, show(back).c_str(), show(want).c_str());
        for (auto& e : lnk[i]) {
            page_t p(pool.get(), e.pos, lg);
            if (p.ptr() == nullptr) violation("page-lock", "page %llu cannot be locked", (unsigned long long)e.pos);
            if (!filled((uint8_t*)p.ptr() + sizeof(abc::vmem_linked_page), abc::vmem_page_size - sizeof(abc::vmem_linked_page), e.id)) violation("linked-page-content", "page %llu of a linked list no longer holds what was written", (unsigned long long)e.pos);
        }
    }
    void verify_string(int i) {
        typedef abc::vmem_string<P, L> S;
        S x(&st->strings[i], pool.get(), lg);
        std::string got;
        for (auto it = x.begin(); it != x.end() && got.size() <= str[i].size() + 2; it++) got.push_back(*it.operator->().operator->());
        if (got != str[i]) violation("string-content", "string %d: %zu characters iterate, reference has %zu", i, got.size(), str[i].size());
        if (x.size() != str[i].size()) violation("string-size", "string %d: size() is %zu, reference has %zu", i, x.size(), str[i].size());
    }
    bool deep = true;
    void verify_all(bool d = true) {
        deep = d;
        for (int i = 0; i < 6; i++) if (s[i]) verify_seq(i);
        for (int i = 0; i < 5; i++) if (m[i]) verify_map(i);
        if (cfg.raw) verify_raw();
        if (cfg.linked) for (int i = 0; i < 3; i++) verify_linked(i);
        if (cfg.string) for (int i = 0; i < 2; i++) verify_string(i);
        for (size_t i = 0; i < sizeof st->note; i++) if (st->note[i] != note[i]) violation("start-page-content", "application data in the start page changed");
        note_state();
    }
    uint8_t note[64] = {};
    void note_state() {
        uint64_t h = pages();
        for (int i = 0; i < 6; i++) h = mix(h * 31 + ms[i].size());
        for (int i = 0; i < 5; i++) h = mix(h * 31 + mm[i].size());
        for (int i = 0; i < 3; i++) h = mix(h * 31 + lnk[i].size());
        h = mix(h * 31 + raws.size() + 1000 * held.size() + 100000 * str[0].size());
        state_hash(h);
    }

    // ------------------------------------------------------------ operations
    bool shrink(size_t n, size_t max) { return n > 0 && (n >= max || pick(0, 99, "op.shrink") < cfg.erase_bias); }
    size_t somewhere(size_t n) {      // an index below n; edges and middle
        switch (choose(4, "op.where")) { case 0: return n - 1; case 1: return 0; default: return choose((uint32_t)n, "op.index"); }
    }
    void op_seq(int i) {
        seq& c = *s[i];
        ids& w = ms[i];
        bool list = c.can_insert;
        if (shrink(w.size(), cfg.max_seq)) {
            switch (choose(list ? 6 : 2, "op.seq.erase")) {
                case 0: ev("%s pop_back", c.name); c.pop_back(); w.pop_back(); break;
                case 1: if (chance(120, "op.seq.clear")) { ev("%s clear", c.name); c.clear(); w.clear(); break; }
                        if (!list) { ev("%s pop_back", c.name); c.pop_back(); w.pop_back(); break; }
                        ev("%s pop_front", c.name); c.pop_front(); w.erase(w.begin()); break;
                case 2: if (cfg.range_ops) {
                            size_t a = somewhere(w.size()), b = a + 1 + choose((uint32_t)std::min<size_t>(w.size() - a, 12), "op.seq.span");
                            ev("%s erase [%zu, %zu)", c.name, a, b);
                            int64_t r = c.erase_range(a, b);
                            w.erase(w.begin() + a, w.begin() + b);
                            int64_t want = a < w.size() ? (int64_t)w[a] : -1;
                            if (r != want) violation("erase-iterator", "%s: erasing [%zu, %zu) returned an iterator to %lld, the next item is %lld", c.name, a, b, (long long)r, (long long)want);
                            break;
                        } // fall through
                default: {
                    size_t a = somewhere(w.size()), at = 0;
                    ev("%s erase %zu of %zu", c.name, a, w.size());
                    int64_t r = c.erase(a, &at);
                    w.erase(w.begin() + a);
                    int64_t want = a < w.size() ? (int64_t)w[a] : -1;
                    if (r != want || at != a) violation("erase-iterator", "%s: erasing item %zu returned an iterator to %lld at %zu, expected %lld at %zu", c.name, a, (long long)r, at, (long long)want, a);
                }
            }
        } else {
            uint64_t id = next_id++;
            if (!w.empty() && held.size() < hold_max() && chance(100, "op.seq.own")) {
                size_t from = somewhere(w.size()), a = somewhere(w.size()) + choose(2, "op.seq.after"), at = 0; id = w[from]; coverage("own-item");
                if (!list || choose(4, "op.seq.own.how") == 0) { ev("%s push_back its item %zu", c.name, from); c.push_own(from); w.push_back(id); }
                else {
                    ev("%s insert its item %zu at %zu of %zu", c.name, from, a, w.size());
                    int64_t r = c.own(a, from, &at);
                    if (r != (int64_t)id || at != a) violation("insert-iterator", "%s: inserting its item %zu at %zu of %zu returned an iterator to %lld at %zu", c.name, from, a, w.size(), (long long)r, at);
                    w.insert(w.begin() + a, id);
                }
            } else
            switch (choose(list ? 7 : 2, "op.seq.insert")) {
                case 0: ev("%s push_back", c.name); c.push_back(id); w.push_back(id); break;
                case 1: {
                    size_t n = choose((uint32_t)std::min<size_t>(cfg.max_seq, c.per_page * 3) + 1, "op.seq.bulk");
                    ev("%s push_back x%zu", c.name, n);
                    for (size_t k = 0; k < n; k++) { c.push_back(id); w.push_back(id); id = next_id++; }
                    break; }
                case 2: ev("%s push_front", c.name); c.push_front(id); w.insert(w.begin(), id); break;
                case 6: if (cfg.range_ops) {
                    size_t n = choose(2, "op.seq.many") ? choose((uint32_t)std::min<size_t>(c.per_page, 40) * 2 + 2, "op.seq.range") : choose(4, "op.seq.range");
                    size_t a = w.empty() ? 0 : somewhere(w.size()) + choose(2, "op.seq.after"), at = 0;
                    ids v; for (size_t k = 0; k < n; k++) v.push_back(next_id++);
                    ev("%s insert range of %zu at %zu of %zu", c.name, n, a, w.size());
                    int64_t r = c.insert_range(a, v, &at);
                    if (n > 0 && (r != (int64_t)v[0] || at != a)) violation("insert-range-iterator", "%s: inserting %zu items at %zu returned an iterator to %lld at %zu", c.name, n, a, (long long)r, at);
                    w.insert(w.begin() + a, v.begin(), v.end());
                    break; } // fall through
                case 3: if (!w.empty()) { size_t a = somewhere(w.size()); ev("%s set %zu", c.name, a); c.set(a, id); w[a] = id; break; } // fall through
                default: {
                    size_t a = w.empty() ? 0 : somewhere(w.size()) + choose(2, "op.seq.after"), at = 0;
                    ev("%s insert at %zu of %zu", c.name, a, w.size());
                    int64_t r = c.insert(a, id, &at);
                    if (r != (int64_t)id || at != a) violation("insert-iterator", "%s: inserting at %zu of %zu returned an iterator to %lld at %zu", c.name, a, w.size(), (long long)r, at);
                    w.insert(w.begin() + a, id);
                }
            }
        }
        if (c.size() != w.size()) violation(list ? "list-size" : "stack-size", "%s: size() is %zu, %zu items were left in it", c.name, c.size(), w.size());
    }
    uint64_t key() { return 1 + choose(cfg.keyspace, "op.key"); }
    void op_map(int i) {
        kvmap& c = *m[i];
        auto& w = mm[i];
        uint64_t k = key();
        if (shrink(w.size(), cfg.max_map)) {
            uint32_t o = choose(8, "op.map.erase");
            if (o == 1 && chance(100, "op.map.clear")) { ev("%s clear", c.name); c.clear(); w.clear(); }
            else if (o == 2) { ids v; for (size_t n = choose(6, "op.map.n"); n > 0; n--) v.push_back(key()); ev("%s erase x%zu", c.name, v.size()); c.erase_range(v); for (auto x : v) w.erase(x); }
            else {
                if (!w.empty()) switch (choose(4, "op.map.which")) { case 0: k = w.begin()->first; break; case 1: k = w.rbegin()->first; break; case 2: { auto it = w.lower_bound(k); if (it != w.end()) k = it->first; } }
                ev("%s erase %llu", c.name, (unsigned long long)k);
                bool own = w.count(k) && held.size() < hold_max() && chance(100, "op.map.own"); if (own) coverage("own-key");
                size_t r = own ? c.erase_own(k) : c.erase(k), want = w.erase(k);
                if (r != want) violation("map-erase", "%s: erase(%llu) returned %zu, reference %zu", c.name, (unsigned long long)k, r, want);
            }
        } else switch (choose(9, "op.map.insert")) {
            case 8: {
                std::vector<std::pair<uint64_t, uint64_t>> v;
                for (size_t n = choose(12, "op.map.n"); n > 0; n--) v.push_back({key(), next_id++});
                ev("%s insert range of %zu", c.name, v.size());
                c.insert_range(v);
                for (auto& e : v) w.insert(e);
                break; }
            case 1: {
                std::vector<std::pair<uint64_t, uint64_t>> v;
                uint64_t from = k, n = choose(24, "op.map.n");
                bool down = choose(2, "op.map.down");
                ev("%s insert run of %llu from %llu %s", c.name, (unsigned long long)n, (unsigned long long)from, down ? "down" : "up");
                for (uint64_t x = 0; x < n && w.size() < cfg.max_map; x++) {
                    uint64_t kk = down ? (from > x ? from - x : 0) : from + x;
                    if (kk == 0) break;
                    int64_t a, b; uint64_t id = next_id++;
                    bool ok = c.insert(kk, id, &a, &b), want = w.insert({kk, id}).second;
                    if (ok != want) violation("map-insert", "%s: insert(%llu) returned %d, reference %d", c.name, (unsigned long long)kk, ok, want);
                    if (a != (int64_t)kk || b != (int64_t)w[kk]) violation("map-insert-iterator", "%s: insert(%llu) returned an iterator to key %lld", c.name, (unsigned long long)kk, (long long)a);
                }
                break; }
            case 2: {
                uint64_t v = 0; bool r = c.find(k, &v); ev("%s find %llu", c.name, (unsigned long long)k);
                if (r != (w.count(k) == 1)) violation(r ? "map-found-absent" : "map-lost-key", "%s: find(%llu) says %d, reference %zu", c.name, (unsigned long long)k, r, w.count(k));
                if (r && v != w[k]) violation("map-value", "%s: find(%llu) gives %llu, reference %llu", c.name, (unsigned long long)k, (unsigned long long)v, (unsigned long long)w[k]);
                break; }
            case 3: {
                uint64_t v = 0; bool r = choose(4, "op.find2") ? c.index(k, &v) : c.step(k, &v); ev("%s [%llu]", c.name, (unsigned long long)k);
                if (r != (w.count(k) == 1)) violation(r ? "map-found-absent" : "map-lost-key", "%s: [%llu] says %d, reference %zu", c.name, (unsigned long long)k, r, w.count(k));
                if (r && v != w[k]) violation("map-value", "%s: [%llu] gives %llu, reference %llu", c.name, (unsigned long long)k, (unsigned long long)v, (unsigned long long)w[k]);
                break; }
            case 4: if (w.count(k)) { ev("%s set %llu", c.name, (unsigned long long)k); uint64_t id = next_id++; c.set(k, id); w[k] = id; break; } // fall through
            default: {
                uint64_t id = next_id++; int64_t a, b;
                ev("%s insert %llu", c.name, (unsigned long long)k);
                bool ok = c.insert(k, id, &a, &b), want = w.insert({k, id}).second;
                if (ok != want) violation("map-insert", "%s: insert(%llu) returned %d, reference %d", c.name, (unsigned long long)k, ok, want);
                if (a != (int64_t)k || b != (int64_t)w[k]) violation("map-insert-iterator", "%s: insert(%llu) returned an iterator to key %lld", c.name, (unsigned long long)k, (long long)a);
            }
        }
        if (c.size() != w.size()) violation("map-size", "%s: size() is %zu, reference has %zu", c.name, c.size(), w.size());
    }
    uint64_t fresh_page(page_t& p) {
        if (p.pos() == abc::vmem_page_pos_nil || p.ptr() == nullptr) violation("page-alloc", "a page cannot be allocated although nothing failed");
        if (p.pos() < 2) violation("page-reserved", "allocation handed out reserved page %llu", (unsigned long long)p.pos());
        for (auto& r : raws) if (r.pos == p.pos()) violation("page-double-allocation", "page %llu was allocated while it is in use", (unsigned long long)p.pos());
        for (auto& l : lnk) for (auto& r : l) if (r.pos == p.pos()) violation("page-double-allocation", "page %llu was allocated while it is in use", (unsigned long long)p.pos());
        return p.pos();
    }
    void op_raw() {
        if (shrink(raws.size(), 24)) {
            size_t a = somewhere(raws.size());
            uint64_t pos = raws[a].pos;
            for (size_t k = 0; k < held.size(); ) if (held[k].pos == pos) held.erase(held.begin() + k); else k++;
            ev("free page %llu", (unsigned long long)pos);
            { page_t p(pool.get(), pos, lg); if (p.ptr() == nullptr) violation("page-lock", "page %llu cannot be locked", (unsigned long long)pos); p.free(); }
            raws.erase(raws.begin() + a);
        } else {
            page_t p(pool.get(), lg);
            uint64_t pos = fresh_page(p), id = next_id++;
            ev("alloc page %llu", (unsigned long long)pos);
            fill((uint8_t*)p.ptr(), abc::vmem_page_size, id);
            raws.push_back({pos, id});
            if (cfg.hold && held.size() < hold_max() && choose(2, "op.hold")) { void* q = p.ptr(); std::unique_ptr<page_t> u(new page_t(p)); held.push_back({std::move(u), q, pos, id}); }
        }
        if (!held.empty() && chance(300, "op.unhold")) held.erase(held.begin() + choose((uint32_t)held.size(), "op.unhold.i"));
        if (!held.empty()) op_handles();
        if (cfg.brim && chance(150, "op.brim")) op_brim();
    }
    void same(held_t& h, const char* what) {
        if (h.page->pos() != h.pos || h.page->ptr() != h.ptr || h.page->pool() != pool.get()) violation("page-handle", "%s: the handle of page %llu is of page %llu at another address", what, (unsigned long long)h.pos, (unsigned long long)h.page->pos());
    }
    // Handles are copied, moved and assigned; each keeps exactly one lock of the page it is of.
    void op_handles() {
        held_t& h = held[choose((uint32_t)held.size(), "op.hnd.i")]; held_t& g = held[choose((uint32_t)held.size(), "op.hnd.j")];
        switch (choose(10, "op.hnd")) {
        case 0: { page_t c(*h.page); if (c.ptr() != h.ptr || c.pos() != h.pos) violation("page-handle", "a copy of a page handle is of another page"); break; }
        case 1: { std::unique_ptr<page_t> n(new page_t(std::move(*h.page))); if (h.page->ptr() || h.page->pos() != abc::vmem_page_pos_nil) violation("page-handle", "a page handle still has its page after it was moved"); h.page = std::move(n); break; }
        case 2: { *h.page = (const page_t&)*g.page; h.ptr = g.ptr; h.pos = g.pos; h.id = g.id; break; }
        case 3: { page_t t(std::move(*h.page)); *h.page = std::move(*g.page); *g.page = std::move(t); if (&h != &g) { std::swap(h.ptr, g.ptr); std::swap(h.pos, g.pos); std::swap(h.id, g.id); } break; }
        case 4: { page_t n(nullptr); n = (const page_t&)*h.page; if (n.ptr() != h.ptr) violation("page-handle", "a page handle assigned to an empty one is of another page"); page_t k(nullptr); k = std::move(n); if (k.ptr() != h.ptr || n.ptr()) violation("page-handle", "a page handle moved to an empty one is of another page"); break; }
        case 5: { page_t n(*h.page); n = page_t(nullptr); if (n.ptr() || n.pos() != abc::vmem_page_pos_nil) violation("page-handle", "a page handle has a page after an empty one was assigned"); break; }
        case 6: case 7: {                                    // pointers to a byte of a page
            typedef abc::vmem_ptr<uint8_t, P, L> ptr_t; size_t o = choose((uint32_t)abc::vmem_page_size, "op.hnd.byte"), q = choose((uint32_t)abc::vmem_page_size, "op.hnd.byte2");
            auto at = [&](const ptr_t& p, const held_t& x, size_t off, const char* what) {
                if (p.operator->() != (uint8_t*)x.ptr + off || p.page_pos() != x.pos || p.byte_pos() != off || p.pool() != pool.get() || &*p != p.operator->() || (const uint8_t*)p != p.operator->()) violation("pointer", "%s is not to byte %zu of page %llu", what, off, (unsigned long long)x.pos);
            };
            ptr_t a(pool.get(), h.pos, (abc::vmem_item_pos_t)o, lg), b(pool.get(), g.pos, (abc::vmem_item_pos_t)q, lg); at(a, h, o, "a pointer"); at(b, g, q, "a pointer");
            ptr_t c(a); at(c, h, o, "a copied pointer"); c = b; at(c, g, q, "an assigned pointer"); at(b, g, q, "a pointer assigned from");
            ptr_t d(std::move(c)); at(d, g, q, "a moved pointer"); d = std::move(a); at(d, h, o, "a pointer moved to another"); d = (const ptr_t&)d; at(d, h, o, "a pointer assigned to itself");
            ptr_t n(nullptr, lg); if (n.operator->()) violation("pointer", "a null pointer is to a byte");
            bool threw = false; try { sim::state_hash(*n); } catch (const std::exception&) { threw = true; }
            if (!threw) violation("pointer", "a null pointer can be dereferenced");
            b = n; if (b.operator->() || (uint8_t*)b) violation("pointer", "a pointer is to a byte after a null one was assigned");
            n = d; at(n, h, o, "a null pointer assigned another"); coverage("pointers");
            break; }
        default: return;
        }
        coverage("handles");
        same(h, "first"); same(g, "second");
    }
    // Pages are locked until no more fit: exactly as many as the limit says.
    void op_brim() {
        while (raws.size() < N + 2) { page_t p(pool.get(), lg); uint64_t pos = fresh_page(p), id = next_id++; fill((uint8_t*)p.ptr(), abc::vmem_page_size, id); raws.push_back({pos, id}); }
        ev("lock all pages that fit");
        std::set<uint64_t> locked{abc::vmem_page_pos_start}; for (auto& h : held) locked.insert(h.pos);
        std::vector<page_t> extra; const raw_t* first = nullptr; size_t off = choose((uint32_t)raws.size(), "op.brim.off");
        for (size_t k = 0; k < raws.size(); k++) {
            auto& r = raws[(k + off) % raws.size()];
            page_t p(pool.get(), r.pos, lg);
            bool fits = locked.size() < N || locked.count(r.pos);
            if (fits != (p.ptr() != nullptr)) violation("lock-limit", "with %zu pages of %zu locked, locking %sother one %s", locked.size(), N, locked.count(r.pos) ? "no " : "an", p.ptr() ? "succeeds" : "fails");
            if (!p.ptr()) { if (!first) first = &r; continue; }
            if (!filled((uint8_t*)p.ptr(), abc::vmem_page_size, r.id)) violation("raw-page-content", "page %llu no longer holds what was written", (unsigned long long)r.pos);
            locked.insert(r.pos); extra.push_back(choose(2, "op.brim.how") ? std::move(p) : page_t(p));
        }
        check_limit("with all locked"); coverage("brim");
        if (!extra.empty() && chance(250, "op.brim.often")) {
            // One page locked by very many owners stays where it is until the last of them goes.
            size_t v = choose((uint32_t)extra.size(), "op.brim.v"); uint64_t pos = extra[v].pos(), id = 0; void* at = extra[v].ptr();
            for (auto& r : raws) if (r.pos == pos) id = r.id;
            unsigned n = chance(40, "op.brim.most") ? 65536 : 256;
            ev("page %llu locked %u times", (unsigned long long)pos, n); coverage("locked-often");
            std::vector<page_t> many; many.reserve(n);
            for (unsigned k = 0; k < n; k++) { many.emplace_back(pool.get(), pos, lg); if (many.back().ptr() != at) violation("locked-page-moved", "a locked page changed its address at its lock %u", k); }
            extra.erase(std::remove_if(extra.begin(), extra.end(), [&](const page_t& p) { return p.pos() == pos; }), extra.end());
            auto press = [&](const char* when) {
                if (first) { page_t p(pool.get(), first->pos, lg); if (p.ptr()) violation("lock-limit", "with %zu pages of %zu locked, one of them %s, locking another one succeeds", locked.size(), N, when); }
                if (!fs::in_arena(at) || !filled((uint8_t*)at, abc::vmem_page_size, id)) violation("locked-page-moved", "a page %s is no longer mapped", when);
            };
            press("locked by many");
            for (int k = 0; k < 4; k++) { many.pop_back(); press("locked by many"); }
            while (many.size() > 1) many.pop_back();
            press("still locked by one of many");
            first = nullptr;
        }
        for (auto& h : held) same(h, "held");
        if (first && !extra.empty()) {
            size_t k = choose((uint32_t)extra.size(), "op.brim.k"); uint64_t pos = extra[k].pos(); extra.erase(extra.begin() + k);
            bool still = false; for (auto& h : held) still |= h.pos == pos; for (auto& e : extra) still |= e.pos() == pos;
            page_t p(pool.get(), first->pos, lg);
            if ((p.ptr() != nullptr) == still) violation("lock-limit", "a page %s be locked after another was unlocked", still ? "can" : "cannot");
            if (p.ptr() && !filled((uint8_t*)p.ptr(), abc::vmem_page_size, first->id)) violation("raw-page-content", "page %llu no longer holds what was written", (unsigned long long)first->pos);
        }
    }
    size_t hold_max() const { return N > 12 ? N - 12 : 0; }
    void op_linked() {
        int i = (int)choose(3, "op.lnk");
        linked_t l(&st->linked[i], pool.get(), lg);
        auto& w = lnk[i];
        auto nth = [&](size_t k) { auto it = l.begin(); while (k--) it++; return it; };
        uint32_t o = choose(8, "op.lnk.op");
        if (o == 1) {
            int j = (i + 1 + (int)choose(2, "op.lnk.other")) % 3;
            linked_t x(&st->linked[j], pool.get(), lg);
            ev("linked%d splice linked%d (%zu + %zu pages)", i, j, w.size(), lnk[j].size());
            l.splice(x);
            w.insert(w.end(), lnk[j].begin(), lnk[j].end());
            lnk[j].clear();
            verify_linked(i); verify_linked(j);
        } else if (o == 2 && chance(300, "op.lnk.clear")) { ev("linked%d clear", i); l.clear(); w.clear(); verify_linked(i); }
        else if (shrink(w.size(), 12)) {
            size_t a = somewhere(w.size());
            if (o == 3) a = 0; else if (o == 4) a = w.size() - 1;
            ev("linked%d erase %zu of %zu", i, a, w.size());
            if (o == 3) l.pop_front();
            else if (o == 4) l.pop_back();
            else {
                auto r = l.erase(nth(a));
                if (a + 1 < w.size()) { if (r == l.end() || *r.operator->().operator->() != w[a + 1].pos) violation("linked-erase-iterator", "erase on a linked page list returned a wrong iterator"); }
                else if (r != l.end()) violation("linked-erase-iterator", "erasing the last page did not return end");
            }
            w.erase(w.begin() + a);
        } else {
            uint64_t pos, id = next_id++;
            { page_t p(pool.get(), lg); pos = fresh_page(p); }
            size_t a = w.empty() ? 0 : somewhere(w.size()) + choose(2, "op.lnk.after");
            if (o == 3) a = 0; else if (o == 4) a = w.size();
            ev("linked%d insert page %llu at %zu of %zu", i, (unsigned long long)pos, a, w.size());
            if (o == 3) l.push_front(pos);
            else if (o == 4) l.push_back(pos);
            else { auto r = l.insert(a == w.size() ? l.end() : nth(a), pos); if (r == l.end() || *r.operator->().operator->() != pos) violation("linked-insert-iterator", "insert into a linked page list returned a wrong iterator"); }
            page_t p(pool.get(), pos, lg);
            fill((uint8_t*)p.ptr() + sizeof(abc::vmem_linked_page), abc::vmem_page_size - sizeof(abc::vmem_linked_page), id);
            w.insert(w.begin() + a, raw_t{pos, id});
        }
    }
    void op_string() {
        typedef abc::vmem_string<P, L> S;
        typedef abc::vmem_string_streambuf<P, L> B;
        int i = (int)choose(2, "op.str");
        S x(&st->strings[i], pool.get(), lg);
        std::string& w = str[i];
        switch (choose(6, "op.str.op")) {
            case 0: case 1: {
                if (w.size() > 12000) { ev("string%d clear", i); x.clear(); w.clear(); break; }
                std::string t;
                uint32_t n = choose(4, "op.str.long") == 1 ? pick(500, 5000, "op.str.len") : pick(0, 40, "op.str.len");
                uint32_t kind = choose(3, "op.str.kind");
                for (uint32_t k = 0; k < n; k++) t.push_back(kind == 0 ? (char)pick('a', 'z', "op.str.ch") : kind == 1 ? (char)choose(256, "op.str.ch") : (choose(3, "op.str.ch") ? (char)0xff : (char)0));
                ev("string%d stream %u chars", i, n);
                { std::unique_ptr<B> sb(new B(&x)); std::ostream o(sb.get()); size_t at = 0;
                  auto move = [&] { std::unique_ptr<B> next(new B(std::move(*sb))); o.rdbuf(next.get()); sb = std::move(next); coverage("moved-stream"); };
                  while (at < t.size()) { size_t k = std::min<size_t>(t.size() - at, pick(1, 7, "op.str.piece")); if (k == 1) o.put(t[at]); else o.write(t.data() + at, (std::streamsize)k); at += k; if (chance(50, "op.str.flush")) o.flush(); if (chance(10, "op.str.move")) move(); }
                  if (chance(100, "op.str.move")) move();
                  o.flush();
                  if (!o.good()) violation("string-stream-state", "writing to a string stream failed although nothing failed"); }
                w += t; break; }
            case 2: {
                ev("string%d read back", i);
                std::unique_ptr<B> sb(new B(&x)); std::istream in(sb.get()); std::string got;
                uint32_t how = choose(3, "op.str.how");
                if (how == 2) {                                 // looking ahead, putting back, moving
                    for (;;) {
                        int ch = chance(500, "op.str.peek") ? in.peek() : 0;
                        if (chance(50, "op.str.move")) { std::unique_ptr<B> next(new B(std::move(*sb))); in.rdbuf(next.get()); sb = std::move(next); coverage("moved-stream"); }
                        if (ch == std::char_traits<char>::eof()) break;
                        int g = in.get(); if (g == std::char_traits<char>::eof()) break;
                        if (chance(100, "op.str.unget")) { in.unget(); if (!in.good()) violation("string-stream-read", "the char that was just read cannot be put back"); int h = in.get(); if (h != g) violation("string-stream-read", "char %d came back as %d after putting it back", g, h); }
                        got.push_back((char)g); if (got.size() > w.size()) break;
                        if (got.size() > 300 && got.size() + 300 < w.size() && chance(900, "op.str.skip")) { size_t n = w.size() - got.size() - 200; std::string part(n, 0); in.read(&part[0], (std::streamsize)n); got += part; }
                    }
                } else
                if (how == 1) { char b[64]; while (in.read(b, sizeof b) || in.gcount()) { got.append(b, (size_t)in.gcount()); if (got.size() > w.size() + 64) break; } }
                else for (int ch; (ch = in.get()) != std::char_traits<char>::eof(); ) { got.push_back((char)ch); if (got.size() > w.size()) break; }
                if (got != w) violation("string-stream-read", "reading string %d through its stream buffer gives %zu characters, it holds %zu (first difference at %zu)", i, got.size(), w.size(), (size_t)(std::mismatch(got.begin(), got.begin() + (long)std::min(got.size(), w.size()), w.begin()).first - got.begin()));
                break; }
            case 3: if (!w.empty()) { size_t a = somewhere(w.size()); ev("string%d erase %zu", i, a); auto it = x.begin(); for (size_t k = 0; k < a; k++) it++; x.erase(it); w.erase(a, 1); break; } // fall through
            case 4: { char ch = (char)pick(32, 126, "op.str.ch"); size_t a = w.empty() ? 0 : somewhere(w.size()); ev("string%d insert %zu", i, a); auto it = x.begin(); for (size_t k = 0; k < a; k++) it++; x.insert(a == w.size() ? x.end() : it, ch); w.insert(a, 1, ch); break; }
            case 5: if (chance(200, "op.str.clear")) { ev("string%d clear", i); x.clear(); w.clear(); } else { x.push_back('!'); w.push_back('!'); } break;
        }
        if (x.size() != w.size()) violation("string-size", "string %d: size() is %zu, reference %zu", i, x.size(), w.size());
    }
    void op() {
        std::vector<int> kinds;
        for (int i = 0; i < 6; i++) if (s[i]) { kinds.push_back(i); kinds.push_back(i); }
        for (int i = 0; i < 5; i++) if (m[i]) { kinds.push_back(10 + i); kinds.push_back(10 + i); }
        if (cfg.raw) kinds.push_back(20);
        if (cfg.linked) { kinds.push_back(21); kinds.push_back(21); kinds.push_back(21); }
        if (cfg.string) { kinds.push_back(22); kinds.push_back(22); }
        int k = kinds[choose((uint32_t)kinds.size(), "op.kind")];
        if (k < 20 && chance(30, "op.again")) { bool mv = choose(2, "op.again.move"); ev("container %d %s", k, mv ? "moved" : "copied"); if (k < 10) s[k]->again(mv); else m[k - 10]->again(mv); coverage("container-moved"); }
        if (k < 10) op_seq(k); else if (k < 20) op_map(k - 10); else if (k == 20) op_raw(); else if (k == 21) op_linked(); else op_string();
        check_limit("during an operation");
    }
    // The pool moves to another object; pages stay mapped across it.
    void move_pool() {
        ev("the pool moves"); coverage("pool-moved");
        held.clear(); detach(); start.reset(); st = nullptr;
        int maps = fs::map_count();
        std::unique_ptr<P> next(new P(std::move(*pool))), old = std::move(pool);
        bool late = choose(2, "op.pool.late");
        if (!late) old.reset();
        pool = std::move(next);
        if (fs::map_count() != maps || fs::open_fds() != 1) violation("pool-move", "moving a pool changed the %d pages it had mapped to %d, or its descriptor (%d open)", maps, fs::map_count(), fs::open_fds());
        start.reset(new page_t(pool.get(), abc::vmem_page_pos_start, lg));
        if (start->ptr() == nullptr) violation("start-page", "the start page cannot be locked on a moved pool");
        st = (start_t*)start->ptr();
        attach();
        if (late) old.reset();
        verify_all();
    }
    // A temporary container gives its pages back when its last owner goes.
    void op_temp() {
        typedef abc::vmem_temp<abc::vmem_list<item_t<900>, P, L>> T;
        abc::vmem_list_state state; ids w; unsigned n = choose(30, "op.temp.n");
        ev("a temporary list of %u items", n);
        {
            std::unique_ptr<T> t(new T(&state, pool.get(), lg));
            for (unsigned i = 0; i < n; i++) {
                if (chance(80, "op.temp.move")) { std::unique_ptr<T> next(new T(std::move(*t))); t = std::move(next); coverage("temp-moved"); }
                item_t<900> x(next_id); t->push_back(x); w.push_back(next_id++);
            }
            ids got; for (auto i = t->begin(); i != t->end() && got.size() <= w.size(); i++) got.push_back(i.operator->()->get());
            if (got != w || t->size() != w.size()) violation("temp-content", "a temporary list holds [%s], reference is [%s]", show(got).c_str(), show(w).c_str());
        }
        if (state.total_item_count != 0 || state.front_page_pos != abc::vmem_page_pos_nil) violation("temp-left", "a temporary list left %zu items behind", (size_t)state.total_item_count);
    }
    void reopen_maybe() {
        if (cfg.reopen && chance(30, "op.pool.move")) { move_pool(); return; }
        if (cfg.kill && chance(60, "op.kill")) { ev("process killed, restart"); close_pool(false); open(); coverage("kill"); verify_all(); }
        else if (cfg.reopen && chance(60, "op.reopen")) { ev("close and reopen"); close_pool(true); open(); coverage("reopen"); verify_all(); }
    }
    void run_ops(unsigned n) {
        for (unsigned i = 0; i < n; i++) {
            op(); opno++;
            if (cfg.temp && chance(30, "op.temp")) op_temp();
            if (cfg.verify_every && i % cfg.verify_every == cfg.verify_every - 1) verify_all(false);
            reopen_maybe();
        }
        verify_all();
    }
    // Everything freed: every page except the two reserved ones must be free exactly once.
    void clear_everything() {
        for (int i = 0; i < 6; i++) if (s[i]) { s[i]->clear(); ms[i].clear(); }
        for (int i = 0; i < 5; i++) if (m[i]) { m[i]->clear(); mm[i].clear(); }
        held.clear();
        for (auto& r : raws) { page_t p(pool.get(), r.pos, lg); p.free(); }
        raws.clear();
        for (int i = 0; i < 3; i++) { linked_t l(&st->linked[i], pool.get(), lg); l.clear(); lnk[i].clear(); }
        if (cfg.string) for (int i = 0; i < 2; i++) { abc::vmem_string<P, L> x(&st->strings[i], pool.get(), lg); x.clear(); str[i].clear(); }
    }
    size_t pages() { int64_t n = fs::size(PATH); return n < 0 ? 0 : (size_t)n / abc::vmem_page_size; }
    void check_all_free(bool may_leak = false) {
        verify_all();
        size_t total = pages();
        std::set<uint64_t> seen;
        for (size_t k = 2; k < total; k++) {
            page_t p(pool.get(), lg);
            if (p.ptr() == nullptr) violation("page-alloc", "a page cannot be allocated although nothing failed");
            if (p.pos() < 2 || !seen.insert(p.pos()).second) violation("page-double-allocation", "page %llu was handed out twice", (unsigned long long)p.pos());
            if (pages() != total && may_leak) break;       // a page that could not be mapped could not be put on the list of free pages
            if (pages() != total) violation("page-leak", "everything was freed, yet after reusing %zu of %zu pages the file grew: pages are lost", k - 2, total - 2);
        }
        for (auto x : seen) { page_t p(pool.get(), x, lg); p.free(); }
    }
};


// ---------------------------------------------------------------- storage failures
template <size_t N> struct fault_world : world<N> {
    typedef world<N> W;
    using W::cfg; using W::s; using W::m; using W::ms; using W::mm; using W::raws; using W::next_id; using W::str; using W::pool; using W::st; using W::start;
    typedef typename W::page_t page_t; typedef typename W::P P; typedef typename W::L L;
    explicit fault_world(const config& c) : W(c) {}
    uint64_t f0 = 0;
    void on() { f0 = faults_injected; faults_enabled = true; }
    bool off() { faults_enabled = false; return faults_injected > f0; }
    static void no_rates() { for (int k : {F_DISK_FULL, F_WRITE_FAIL, F_SHORT_WRITE, F_MMAP_FAIL, F_SEEK_FAIL, F_OPEN_FAIL}) set_fault_rate((fault_t)k, 0); fs::capacity = -1; }
    void growth_faults() {
        no_rates();
        switch (choose(4, "fault.growth")) {
            case 0: fs::capacity = fs::used() + 4096 * (int64_t)choose(6, "fault.room") + (choose(2, "fault.odd") ? pick(1, 4095, "fault.part") : 0); coverage("disk-full"); break;
            case 1: set_fault_rate(F_WRITE_FAIL, pick(50, 600, "fault.rate")); coverage("write-error"); break;
            case 2: set_fault_rate(F_SHORT_WRITE, pick(50, 600, "fault.rate")); coverage("short-write"); break;
            default: set_fault_rate(F_SEEK_FAIL, pick(50, 600, "fault.rate")); coverage("seek-error");
        }
    }
    void insert_seq(int i) {
        seq& c = *s[i]; ids& w = ms[i];
        bool list = c.can_insert;
        uint64_t id = next_id++;
        ids want = w;
        int64_t r = 0; bool returned = false;
        switch (choose(list ? 4 : 1, "f.seq")) {
            case 0: ev("%s push_back (faults)", c.name); on(); c.push_back(id); want.push_back(id); break;
            case 1: ev("%s push_front (faults)", c.name); on(); c.push_front(id); want.insert(want.begin(), id); break;
            default: { size_t a = w.empty() ? 0 : this->somewhere(w.size()) + choose(2, "f.after"); size_t at; ev("%s insert at %zu (faults)", c.name, a); on(); r = c.insert(a, id, &at); returned = true; want.insert(want.begin() + a, id); }
        }
        bool bad = off();
        size_t n = c.size();
        if (n == want.size()) { if (returned && r != (int64_t)id) violation("fault-report", "%s: an insertion during a storage failure succeeded and returned an iterator to %lld", c.name, (long long)r); w = want; }
        else if (n == w.size()) { coverage("insert-refused"); if (!bad) violation("spurious-failure", "%s: an insertion failed although nothing failed", c.name); if (returned && r != -1) violation("fault-report", "%s: a failed insertion did not return end", c.name); }
        else violation("list-size", "%s: size() is %zu after an insertion into %zu items", c.name, n, w.size());
        this->verify_seq(i);
    }
    void insert_map(int i) {
        kvmap& c = *m[i]; auto& w = mm[i];
        uint64_t k = this->key(), id = next_id++; int64_t a, b;
        ev("%s insert %llu (faults)", c.name, (unsigned long long)k);
        on(); bool ok = c.insert(k, id, &a, &b); bool bad = off();
        bool had = w.count(k);
        if (had && ok) violation("map-insert", "%s: insert of the present key %llu succeeded", c.name, (unsigned long long)k);
        if (!had && !ok) { coverage("insert-refused"); if (!bad) violation("spurious-failure", "%s: an insertion failed although nothing failed", c.name); }
        if (ok) { w[k] = id; if (a != (int64_t)k || b != (int64_t)id) violation("map-insert-iterator", "%s: insert(%llu) returned an iterator to key %lld", c.name, (unsigned long long)k, (long long)a); }
        this->deep = true; this->verify_map(i);
    }
    void erase_map(int i) {
        kvmap& c = *m[i]; auto& w = mm[i];
        if (w.empty()) return;
        uint64_t k = this->key(); auto it = w.lower_bound(k); if (it != w.end()) k = it->first;
        ev("%s erase %llu (faults)", c.name, (unsigned long long)k);
        on(); size_t r = c.erase(k); bool bad = off();
        if (r == 1) { if (!w.erase(k)) violation("map-erase", "%s: erase of the absent key %llu succeeded", c.name, (unsigned long long)k); }
        else if (w.count(k)) { coverage("erase-refused"); if (!bad) violation("spurious-failure", "%s: an erasure failed although nothing failed", c.name); }
        this->deep = true; this->verify_map(i);
    }
    void erase_seq(int i) {        // giving space back needs no space
        seq& c = *s[i]; ids& w = ms[i];
        if (w.empty()) return;
        if (c.can_insert) { size_t a = this->somewhere(w.size()), at; ev("%s erase %zu (faults)", c.name, a); on(); c.erase(a, &at); off(); w.erase(w.begin() + a); }
        else { ev("%s pop_back (faults)", c.name); on(); c.pop_back(); off(); w.pop_back(); }
        this->verify_seq(i);
    }
    void raw() {
        if (raws.size() > 16) { page_t p(pool.get(), raws.back().pos); p.free(); raws.pop_back(); return; }
        ev("alloc (faults)");
        on(); page_t p(pool.get(), lg); bool bad = off();
        if (p.pos() == abc::vmem_page_pos_nil || p.ptr() == nullptr) { if (!bad) violation("spurious-failure", "a page allocation failed although nothing failed"); coverage("alloc-refused"); if (p.pos() != abc::vmem_page_pos_nil) p.free(); return; }
        uint64_t pos = this->fresh_page(p), id = next_id++;
        fill((uint8_t*)p.ptr(), abc::vmem_page_size, id);
        raws.push_back({pos, id});
        this->verify_raw();
    }
    void string(int i) {
        typedef abc::vmem_string<P, L> S; typedef abc::vmem_string_streambuf<P, L> B;
        S x(&st->strings[i], pool.get(), lg);
        std::string& w = str[i]; std::string t;
        if (w.size() > 9000) { x.clear(); w.clear(); }
        for (uint32_t n = pick(1, 4500, "f.str.n"), k = 0; k < n; k++) t.push_back((char)('a' + k % 26));
        ev("string stream %zu (faults)", t.size());
        bool good, bad;
        { B sb(&x); std::ostream o(&sb); on(); o.write(t.data(), (std::streamsize)t.size()); o.flush(); good = o.good(); bad = off(); }
        if (x.size() < w.size() || x.size() > w.size() + t.size()) violation("string-size", "string has %zu characters after writing %zu to %zu", x.size(), t.size(), w.size());
        size_t k = x.size() - w.size();
        w += t.substr(0, k);
        this->verify_string(i);
        if (k < t.size()) { coverage("stream-refused"); if (!bad) violation("spurious-failure", "a stream write failed although nothing failed"); if (good) violation("fault-report", "%zu of %zu characters reached the string and the stream reports success", k, t.size()); }
    }
    void linked(bool erase) {
        typedef typename W::linked_t linked_t;
        int i = (int)choose(3, "f.lnk");
        auto& w = this->lnk[i];
        linked_t l(&st->linked[i], pool.get(), lg);
        auto nth = [&](size_t k) { auto it = l.begin(); while (k--) it++; return it; };
        if (erase || w.size() > 12) {
            if (w.empty()) return;
            size_t a = this->somewhere(w.size());
            auto it = nth(a);
            ev("linked%d erase %zu of %zu (faults)", i, a, w.size());
            on(); l.erase(it); bool bad = off();
            size_t n = 0; for (auto k = l.begin(); k != l.end() && n <= w.size(); k++) n++;
            if (n == w.size()) { coverage("erase-refused"); if (!bad) violation("spurious-failure", "erasing from a linked page list failed although nothing failed"); }
            else w.erase(w.begin() + a);
        } else {
            uint64_t pos, id = next_id++;
            { page_t p(pool.get(), lg); pos = this->fresh_page(p); fill((uint8_t*)p.ptr() + sizeof(abc::vmem_linked_page), abc::vmem_page_size - sizeof(abc::vmem_linked_page), id); }
            size_t a = w.empty() ? 0 : this->somewhere(w.size()) + choose(2, "f.after");
            auto it = a == w.size() ? l.end() : nth(a);
            ev("linked%d insert page %llu at %zu of %zu (faults)", i, (unsigned long long)pos, a, w.size());
            on(); auto r = l.insert(it, pos); bool bad = off();
            if (r == l.end()) { coverage("insert-refused"); if (!bad) violation("spurious-failure", "an insertion into a linked page list failed although nothing failed"); page_t p(pool.get(), pos, lg); p.free(); }
            else { if (r.page_pos() != pos) violation("linked-insert-iterator", "insert into a linked page list returned a wrong iterator"); w.insert(w.begin() + a, typename W::raw_t{pos, id}); }
        }
        this->verify_linked(i);
    }
    void growth_phase(unsigned n) {
        growth_faults();
        for (unsigned q = 0; q < n; q++) {
            std::vector<int> kinds;
            for (int i = 0; i < 6; i++) if (s[i]) { kinds.push_back(i); kinds.push_back(i); kinds.push_back(i); kinds.push_back(30 + i); }
            for (int i = 0; i < 5; i++) if (m[i]) { kinds.push_back(10 + i); kinds.push_back(10 + i); kinds.push_back(40 + i); }
            if (cfg.raw) kinds.push_back(20);
            if (cfg.string) kinds.push_back(21);
            int k = kinds[choose((uint32_t)kinds.size(), "f.kind")];
            if (k < 10) insert_seq(k); else if (k < 20) insert_map(k - 10); else if (k == 20) raw(); else if (k == 21) string((int)choose(2, "f.str")); else if (k < 40) erase_seq(k - 30); else erase_map(k - 40);
        }
        no_rates();
    }
    // pages that cannot be mapped while page lists change and pages are allocated and freed
    void unmappable_phase(unsigned n) {
        no_rates();
        set_fault_rate(F_MMAP_FAIL, pick(50, 700, "fault.rate"));
        for (unsigned q = 0; q < n; q++) switch (choose(5, "f.kind")) {
            case 0: raw(); break;
            case 1: linked(true); break;
            case 2: {
                int i = (int)choose(3, "f.lnk"), j = (i + 1 + (int)choose(2, "f.lnk2")) % 3;
                typename W::linked_t l(&st->linked[i], pool.get(), lg), x(&st->linked[j], pool.get(), lg);
                if (this->lnk[j].empty()) break;
                ev("linked%d splice linked%d (faults)", i, j);
                on(); l.splice(x); bool bad = off();
                if (x.empty()) { this->lnk[i].insert(this->lnk[i].end(), this->lnk[j].begin(), this->lnk[j].end()); this->lnk[j].clear(); }
                else { coverage("splice-refused"); if (!bad) violation("spurious-failure", "a splice failed although nothing failed"); }
                this->verify_linked(i); this->verify_linked(j);
                break;
            }
            default: linked(false);
        }
        no_rates();
    }
    // pages that cannot be mapped: the caller is told, nothing is made up
    void map_phase(unsigned n) {
        no_rates();
        set_fault_rate(F_MMAP_FAIL, pick(100, 700, "fault.rate"));
        coverage("mmap-error");
        for (unsigned q = 0; q < n && !raws.empty(); q++) {
            auto& r = raws[choose((uint32_t)raws.size(), "f.page")];
            on(); page_t p(pool.get(), r.pos, lg); void* x = p.ptr(); bool bad = off();
            if (x == nullptr) { coverage("lock-refused"); if (!bad) violation("spurious-failure", "page %llu cannot be locked although nothing failed", (unsigned long long)r.pos); }
            else if (!filled((uint8_t*)x, abc::vmem_page_size, r.id)) violation("page-content", "page %llu no longer holds what its owner wrote", (unsigned long long)r.pos);
        }
        no_rates();
    }
    // opening fails: an exception, nothing left behind; later it opens with everything in it
    void open_phase() {
        for (unsigned tries = pick(1, 4, "f.tries"); tries > 0; tries--) {
            no_rates();
            set_fault_rate(F_OPEN_FAIL, choose(2, "f.o") * 300); set_fault_rate(F_SEEK_FAIL, choose(2, "f.k") * 300); set_fault_rate(F_MMAP_FAIL, choose(2, "f.m") * 500);
            set_fault_rate(F_WRITE_FAIL, choose(2, "f.w") * 400); set_fault_rate(F_SHORT_WRITE, choose(2, "f.s") * 400);
            if (choose(4, "f.cap") == 0) fs::capacity = fs::used() + choose(9000, "f.room");
            on();
            bool threw = false;
            std::unique_ptr<P> p;
            try { p.reset(new P(PATH, lg)); } catch (const std::exception& e) { threw = true; ev("open failed"); }
            bool bad = off();
            no_rates();
            if (threw) {
                coverage("open-refused");
                if (!bad) violation("spurious-failure", "opening the pool failed although nothing failed");
                if (fs::map_count() != 0) violation("leak-mapping", "%d pages are still mapped after opening a pool failed", fs::map_count());
                if (fs::open_fds() != 0) violation("leak-descriptor", "%d descriptors are still open after opening a pool failed", fs::open_fds());
            }
        }
    }
};
template <size_t N> static void body_faults(config c) {
    fault_world<N> w(c);
    faults_enabled = false;
    if (chance(400, "f.first")) { w.open_phase(); coverage("fresh-pool-faults"); }
    w.open();
    for (size_t i = 0; i < sizeof w.note; i++) w.st->note[i] = w.note[i] = (uint8_t)(i * 7 + 1);
    for (unsigned r = 0; r < 3; r++) {
        w.run_ops(c.ops);
        w.growth_phase(pick(5, 40, "f.ops"));
        w.verify_all();
        if (chance(400, "f.map")) { w.map_phase(pick(5, 20, "f.ops")); w.verify_all(); }
        if (chance(400, "f.open")) { w.close_pool(true); w.open_phase(); w.open(); w.verify_all(); }
    }
    w.run_ops(c.ops);
    w.close_pool(true);
    w.open();
    w.verify_all();
    w.close_pool(true);
}

template <size_t N> static void body_unmappable(config c) {
    fault_world<N> w(c);
    faults_enabled = false;
    w.open();
    for (size_t i = 0; i < sizeof w.note; i++) w.st->note[i] = w.note[i] = (uint8_t)(i * 7 + 1);
    for (unsigned r = 0; r < 3; r++) {
        w.run_ops(c.ops);
        w.unmappable_phase(pick(5, 40, "f.ops"));
        w.verify_all();
        w.map_phase(pick(0, 10, "f.ops")); w.verify_all();
    }
    w.run_ops(c.ops);
    w.close_pool(true);
    w.open();
    w.verify_all();
    w.clear_everything();
    w.check_all_free(true);
    w.close_pool(true);
}

template <size_t N> static void tinit(world<N>& w) {
    fs::reset_max_map_count();
    w.open();
    for (size_t i = 0; i < sizeof w.note; i++) w.st->note[i] = w.note[i] = (uint8_t)(i * 7 + 1);
}
template <size_t N> static void body_history(config c) {
    world<N> w(c);
    tinit(w);
    w.run_ops(c.ops);
    w.close_pool(true);
    w.open();
    w.verify_all();
    w.close_pool(true);
    w.check_limit("in the whole run");
}
template <size_t N> static void body_space(config c) {
    world<N> w(c);
    tinit(w);
    unsigned rounds = 3;
    size_t peak = 0;
    for (unsigned r = 0; r < rounds; r++) {
        w.run_ops(c.ops);
        w.clear_everything();
        w.check_all_free();
        peak = std::max(peak, w.pages());
        if (c.reopen && chance(500, "round.reopen")) { w.close_pool(true); w.open(); }
    }
    coverage("space");
    w.close_pool(true);
}

// dispatch on the pool's memory limit
template <template <size_t> class F> struct disp;
#define DISPATCH(fn, sizes_min, c)                                                      \
    do {                                                                                \
        uint32_t sel = choose(4, "cfg.limit");                                          \
        if (sel == 3) { coverage("limit-64"); fn<64>(c); }                              \
        else if (sel == 2) { coverage("limit-16"); fn<16>(c); }                         \
        else if (sel == 1 && sizes_min <= 8) { coverage("limit-8"); fn<8>(c); }         \
        else if (sizes_min <= 5) { coverage("limit-5"); fn<5>(c); }                     \
        else { coverage("limit-16"); fn<16>(c); }                                       \
    } while (0)

static void size_ops(config& c, unsigned lo, unsigned hi) {
    c.ops = pick(lo, hi, "cfg.ops");
    c.erase_bias = pick(20, 60, "cfg.shrink");
    c.verify_every = pick(1, 12, "cfg.verify");
    set_step_limit(400000000ull);
    static dropping_log l; lg = chance(60, "cfg.log") ? &l : nullptr; if (lg) coverage("with-log");
}

static void p_pages() {        // V01
    config c; c.raw = true; c.linked = chance(500, "cfg.linked"); c.hold = true; c.reopen = chance(300, "cfg.reopen");
    c.seqs = choose(64, "cfg.seqs"); c.maps = chance(400, "cfg.m") ? 1u << choose(5, "cfg.map") : 0; c.string = chance(200, "cfg.str");
    c.max_seq = 40; c.max_map = 60;
    size_ops(c, 20, 120);
    DISPATCH(body_history, 5, c);
}
static void p_list() {         // V02
    config c; c.temp = true; c.seqs = 1u << choose(6, "cfg.seq"); if (chance(300, "cfg.two")) c.seqs |= 1u << choose(6, "cfg.seq2");
    c.max_seq = 300; c.reopen = chance(200, "cfg.reopen");
    size_ops(c, 10, 200);
    DISPATCH(body_history, 5, c);
}
static void p_map() {          // V03
    config c; c.maps = 1u << choose(5, "cfg.map"); if (chance(200, "cfg.two")) c.maps |= 1u << choose(5, "cfg.map2");
    bool big = chance(100, "cfg.big") ;
    c.keyspace = big ? pick(600, 1500, "cfg.keys") : pick(4, 250, "cfg.keys"); c.max_map = big ? 700 : 160;
    c.reopen = chance(200, "cfg.reopen");
    size_ops(c, 10, big ? 400 : 250);
    DISPATCH(body_history, 5, c);
}
static void p_linked() {       // V04
    config c; c.linked = true; c.raw = chance(300, "cfg.raw"); c.reopen = chance(300, "cfg.reopen");
    size_ops(c, 10, 150);
    DISPATCH(body_history, 5, c);
}
static void p_persist() {      // V05
    config c; c.reopen = c.kill = true; c.raw = chance(500, "cfg.raw"); c.linked = chance(300, "cfg.linked"); c.string = chance(300, "cfg.str");
    c.seqs = 1 + choose(63, "cfg.seqs"); c.maps = choose(32, "cfg.maps"); c.max_seq = 60; c.max_map = 80; c.keyspace = pick(4, 100, "cfg.keys");
    size_ops(c, 20, 120);
    DISPATCH(body_history, 5, c);
}
static void p_limit() {        // V06
    config c; c.hold = true; c.raw = true; c.brim = true; c.reopen = chance(200, "cfg.reopen");
    c.seqs = choose(64, "cfg.seqs"); c.maps = choose(32, "cfg.maps"); c.max_seq = 40; c.max_map = 60; c.keyspace = pick(4, 100, "cfg.keys");
    size_ops(c, 20, 120);
    DISPATCH(body_history, 5, c);
}
static config fault_config() {
    config c; c.raw = chance(700, "cfg.raw"); c.linked = chance(400, "cfg.linked"); c.string = chance(300, "cfg.str");
    c.seqs = choose(64, "cfg.seqs"); if (!c.seqs) c.raw = true;
    c.max_seq = 40; c.max_map = 80; c.keyspace = pick(4, 120, "cfg.keys");
    return c;
}
static void p_faults() {       // V07
    config c = fault_config();
    size_ops(c, 5, 40);
    DISPATCH(body_faults, 5, c);
}
static void p_fault_map() {    // V08
    config c = fault_config(); c.seqs &= 3; c.maps = 1 + choose(31, "cfg.maps"); c.raw = c.string = false;
    size_ops(c, 5, 40);
    DISPATCH(body_faults, 5, c);
}
template <size_t N> static void list_unmappable(config c) {
    fault_world<N> w(c);
    faults_enabled = false;
    w.open();
    for (size_t i = 0; i < sizeof w.note; i++) w.st->note[i] = w.note[i] = (uint8_t)(i * 7 + 1);
    int i = 0; while (!w.s[i]) i++;
    w.run_ops(pick(5, 60, "x.ops"));
    for (unsigned rounds = pick(1, 10, "x.rounds"); rounds; rounds--) {
        if (choose(2, "x.reopen")) { w.close_pool(true); w.open(); }
        seq& q = *w.s[i]; ids& m = w.ms[i];
        size_t n = m.size(), a = q.can_insert ? choose(n + 1, "x.at") : n;
        bool insert = a == n || choose(2, "x.op");
        if (!q.can_insert) insert = n == 0 || choose(2, "x.op");
        q.aim(a);
        std::vector<typename fault_world<N>::page_t> hold;
        for (unsigned k = 0; k < std::min<size_t>(N - 1, w.pages()); k++) if (choose(2, "x.hold")) hold.emplace_back(w.pool.get(), choose(w.pages(), "x.page"));
        set_fault_rate(F_MMAP_FAIL, choose(2, "x.all") ? 1000 : pick(50, 700, "x.rate"));
        uint64_t id = w.next_id++;
        ev("%s %s at %zu of %zu, %zu per page (faults)", q.name, insert ? "insert" : "erase", a, n, q.per_page);
        w.on();
        bool done = false;
        if (insert) { if (q.can_insert) done = q.insert_aimed(id); else { q.push_back(id); done = q.size() > n; } }
        else if (q.can_insert) q.erase_aimed(); else try { q.pop_back(); } catch (const std::exception&) { coverage("pop-threw"); }
        bool bad = w.off() || hold.size() > 0;
        size_t now = q.size();
        set_fault_rate(F_MMAP_FAIL, 0);
        hold.clear();
        if (insert) { if (done != (now > n)) violation("fault-report", "%s: an insertion with pages that cannot be mapped says %d, %zu of %zu items", q.name, done, now, n); if (now > n) m.insert(m.begin() + a, id); }
        else if (now < n) m.erase(m.begin() + (q.can_insert ? a : n - 1));
        if (now == n) { coverage(insert ? "insert-refused" : "erase-refused"); if (!bad) violation("spurious-failure", "%s: a change failed although nothing failed", q.name); }
        w.verify_all();
    }
    w.run_ops(10);
    w.close_pool(true);
}
template <size_t N> static void map_unmappable(config c) {
    fault_world<N> w(c);
    faults_enabled = false;
    w.open();
    for (size_t i = 0; i < sizeof w.note; i++) w.st->note[i] = w.note[i] = (uint8_t)(i * 7 + 1);
    int i = 0; while (!w.m[i]) i++;
    w.run_ops(pick(5, 60, "x.ops"));
    for (unsigned rounds = pick(1, 10, "x.rounds"); rounds; rounds--) {
        bool fresh = choose(2, "x.reopen");
        if (fresh) { w.close_pool(true); w.open(); }
        uint64_t k = w.key(), v = 0;
        if (fresh && choose(2, "x.change")) {                // nothing of the map can be mapped: nothing changes
            set_fault_rate(F_MMAP_FAIL, 1000);
            if (choose(2, "x.op")) w.insert_map(i); else w.erase_map(i);
        } else {                                             // reading goes through or says no
            set_fault_rate(F_MMAP_FAIL, choose(2, "x.all") ? 1000 : pick(50, 700, "x.rate"));
            strict_find = false; w.on(); bool found = w.m[i]->find(k, &v); bool bad = w.off(); strict_find = true;
            bool has = w.mm[i].count(k);
            if (found && !has) violation("map-found-absent", "%s: find(%llu) succeeds although the key is absent", w.m[i]->name, (unsigned long long)k);
            if (!found && has) { coverage("find-refused"); if (!bad) violation("map-lost-key", "%s: find() does not find key %llu although nothing failed", w.m[i]->name, (unsigned long long)k); }
            if (found && v != w.mm[i][k]) violation("map-value", "%s: key %llu has value %llu, reference %llu", w.m[i]->name, (unsigned long long)k, (unsigned long long)v, (unsigned long long)w.mm[i][k]);
        }
        set_fault_rate(F_MMAP_FAIL, 0);
        w.verify_all();
    }
    w.run_ops(10);
    w.close_pool(true);
}
// Known finding: an insertion that adds a level of keys to a map while one page cannot be mapped.
static void map_level_unmappable() {
    config c; c.maps = 4;
    fault_world<8> w(c);
    faults_enabled = false;
    w.open();
    kvmap& m = *w.m[2];
    int64_t a, b; uint64_t v;
    for (uint64_t q = 2; q <= 10; q += 2) m.insert(q, q, &a, &b);
    w.close_pool(true); w.open();
    fs::mmap_fail_at = 12;
    w.m[2]->insert(11, 11, &a, &b);
    fs::mmap_fail_at = 0;
    for (uint64_t q = 2; q <= 10; q += 2) if (!w.m[2]->find(q, &v)) violation("map-level-not-mapped", "inserting key 11 into a map of keys 2, 4, 6, 8 and 10 while the 12th page cannot be mapped loses key %llu", (unsigned long long)q);
}
static void p_unmappable() {   // V11
    config c;
    uint32_t what = choose(60, "cfg.what");
    if (what == 0) map_level_unmappable();
    else if (what < 20) { c.seqs = 1u << choose(6, "cfg.seq"); c.max_seq = 40; size_ops(c, 10, 60); DISPATCH(list_unmappable, 5, c); }
    else if (what < 35) { c.maps = 1u << choose(5, "cfg.map"); c.max_map = 80; c.keyspace = pick(4, 120, "cfg.keys"); size_ops(c, 10, 60); DISPATCH(map_unmappable, 5, c); }
    else { c.raw = c.linked = true; c.reopen = chance(200, "cfg.reopen"); size_ops(c, 2, 20); DISPATCH(body_unmappable, 5, c); }
}
static void p_space() {        // V09
    config c; c.temp = true; c.raw = chance(500, "cfg.raw"); c.linked = chance(300, "cfg.linked"); c.string = chance(300, "cfg.str"); c.reopen = chance(300, "cfg.reopen");
    c.seqs = choose(64, "cfg.seqs"); c.maps = choose(32, "cfg.maps"); if (!c.seqs && !c.maps) c.seqs = 2;
    c.max_seq = 40; c.max_map = 80; c.keyspace = pick(4, 120, "cfg.keys");
    size_ops(c, 10, 80);
    DISPATCH(body_space, 5, c);
}
// Strings of wider chars, and their stream buffers used directly, with every value a char of the type can have but the one that means the end.
template <typename C> static void body_wide() {
    typedef dropping_log L; static dropping_log l; lg = chance(100, "cfg.log") ? &l : nullptr; set_step_limit(400000000ull);
    typedef abc::vmem_pool<8, L> P; typedef abc::vmem_basic_string<C, P, L> S; typedef abc::vmem_basic_string_streambuf<C, P, L> B; typedef std::basic_string<C> W;
    typedef std::char_traits<C> T;
    auto any = [] { uint32_t k = choose(6, "wide.kind"); uint64_t v = k == 0 ? 0 : k == 1 ? choose(256, "wide.ch") : k == 2 ? ~(uint64_t)choose(3, "wide.ch") - 2 : k == 3 ? 1ull << choose(sizeof(C) * 8, "wide.bit") : pick(32, 60000, "wide.ch"); C c = (C)v; return T::eq_int_type(T::to_int_type(c), T::eof()) || !T::eq(T::to_char_type(T::to_int_type(c)), c) ? C(7) : c; };
    W w;
    for (unsigned round = 0, rounds = pick(1, 3, "wide.rounds"); round < rounds; round++) {
        P pool(PATH, lg); abc::vmem_page<P, L> start(&pool, abc::vmem_page_pos_start, lg);
        if (!start.ptr()) violation("start-page", "the start page cannot be locked");
        S x((abc::vmem_string_state*)start.ptr(), &pool, lg);
        auto check = [&](const char* when) {
            if (x.size() != w.size()) violation("string-size", "%s: a string of %zu-byte chars has %zu, reference %zu", when, sizeof(C), (size_t)x.size(), w.size());
            size_t k = 0; for (auto i = x.begin(); i != x.end() && k <= w.size(); i++, k++) if (k >= w.size() || *i.operator->().operator->() != w[k]) violation("string-content", "%s: char %zu of a string of %zu-byte chars is wrong", when, k, sizeof(C));
            if (k != w.size()) violation("string-content", "%s: %zu chars iterate, reference has %zu", when, k, w.size());
        };
        check("opened");
        for (unsigned n = pick(2, 14, "wide.ops"); n > 0; n--) switch (choose(5, "wide.op")) {
        case 0: case 1: {
            W t; unsigned k = chance(150, "wide.long") ? pick(900, 5000, "wide.n") : pick(0, 40, "wide.n"); for (unsigned q = 0; q < k; q++) t.push_back(q < 60 ? any() : C(1 + q % 200));
            std::unique_ptr<B> b(new B(&x, lg)); ev("write %u", k);
            for (size_t q = 0; q < t.size();) {
                if (chance(300, "wide.put1")) { if (!T::eq_int_type(b->sputc(t[q]), T::to_int_type(t[q]))) violation("string-stream-write", "a char was refused although nothing failed"); q++; }
                else { size_t m = std::min<size_t>(t.size() - q, pick(1, 3000, "wide.putn")); if ((size_t)b->sputn(t.data() + q, (std::streamsize)m) != m) violation("string-stream-write", "chars were refused although nothing failed"); q += m; }
                if (chance(100, "wide.sync") && b->pubsync() != 0) violation("string-stream-write", "flushing failed although nothing failed");
                if (chance(50, "wide.move")) { std::unique_ptr<B> o(new B(std::move(*b))); b = std::move(o); coverage("wide-moved"); }
            }
            if (b->pubsync() != 0) violation("string-stream-write", "flushing failed although nothing failed");
            w += t; break; }
        case 2: {
            std::unique_ptr<B> b(new B(&x, lg)); W got; ev("read %zu", w.size());
            for (;;) {
                if (chance(150, "wide.get1") || w.size() > 200) { C part[64]; size_t m = (size_t)b->sgetn(part, pick(1, 64, "wide.getn")); got.append(part, m); if (!m) break; }
                else { auto p = b->sgetc(); if (T::eq_int_type(p, T::eof())) break; auto g = b->sbumpc(); if (!T::eq_int_type(p, g)) violation("string-stream-read", "a char is another one when it is read after peeking"); got.push_back(T::to_char_type(g)); if (chance(100, "wide.unget")) { if (T::eq_int_type(b->sungetc(), T::eof()) || !T::eq_int_type(b->sbumpc(), g)) violation("string-stream-read", "the char put back is not the one that comes next"); } }
                if (got.size() > w.size()) break;
                if (chance(50, "wide.move")) { std::unique_ptr<B> o(new B(std::move(*b))); b = std::move(o); }
            }
            if (got != w) violation("string-stream-read", "reading a string of %zu-byte chars gives %zu, it holds %zu (first difference at %zu)", sizeof(C), got.size(), w.size(), (size_t)(std::mismatch(got.begin(), got.begin() + (long)std::min(got.size(), w.size()), w.begin()).first - got.begin()));
            break; }
        case 3: { size_t a = choose((uint32_t)w.size() + 1, "wide.at"); C c = any(); auto it = x.begin(); for (size_t k = 0; k < a; k++) it++; ev("insert %zu", a); x.insert(a == w.size() ? x.end() : it, c); w.insert(w.begin() + (long)a, c); break; }
        default: if (!w.empty()) { size_t a = choose((uint32_t)w.size(), "wide.at"); auto it = x.begin(); for (size_t k = 0; k < a; k++) it++; ev("erase %zu", a); x.erase(it); w.erase(a, 1); }
        }
        check("at the end"); state_hash(w.size() * 8 + sizeof(C));
    }
    coverage("wide");
}
static void p_string() {       // V10
    if (chance(150, "cfg.wide")) { switch (choose(3, "cfg.char")) { case 0: body_wide<wchar_t>(); break; case 1: body_wide<char16_t>(); break; default: body_wide<char32_t>(); } return; }
    config c; c.string = true; c.reopen = chance(300, "cfg.reopen");
    size_ops(c, 5, 60);
    DISPATCH(body_history, 5, c);
}

namespace sim {
#define REAL "pool, page, linked list, container, list, stack, map, string and iterator code of the repository"
#define STUB "file system calls (open, lseek, write, mmap, munmap, msync, close) served by the simulated disk"
const property properties[] = {
    {"V01", p_pages, 4000, 60000, "distinct histories in which pages were allocated and freed next to live containers", REAL, STUB, 60},
    {"V02", p_list, 4000, 60000, "distinct operation histories on lists and stacks compared step by step with a reference sequence", REAL, STUB, 60},
    {"V03", p_map, 4000, 60000, "distinct operation histories on maps compared step by step with a reference ordered map", REAL, STUB, 60},
    {"V04", p_linked, 4000, 60000, "distinct histories of page list insertions, erasures, splices and clears", REAL, STUB, 60},
    {"V05", p_persist, 3000, 60000, "distinct histories with at least one close/reopen or process kill", REAL, STUB, 60},
    {"V06", p_limit, 3000, 60000, "distinct histories under a memory limit with pages held locked", REAL, STUB, 60},
    {"V07", p_faults, 3000, 60000, "distinct histories in which the storage failed and recovered", REAL, STUB, 60},
    {"V08", p_fault_map, 3000, 60000, "distinct map histories in which the storage failed and recovered", REAL, STUB, 60},
    {"V09", p_space, 3000, 60000, "distinct fill/clear histories after which every page was accounted for", REAL, STUB, 60},
    {"V10", p_string, 3000, 60000, "distinct histories of string edits and stream reads and writes", REAL, STUB, 60},
    {"V11", p_unmappable, 4000, 60000, "distinct histories of page list changes in which pages could not be mapped", REAL, STUB, 60},
    {nullptr}
};
const char* harness_name = "vmem";
}
