#include "internal.h"
#include "raw.h"
#include <atomic>
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <linux/futex.h>
#include <queue>
#include <sys/time.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>

extern "C" int __interceptor_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) __attribute__((weak));

namespace sim {

bool active = false;
thread_local thread* self_thread = nullptr;
result* res = nullptr;
std::vector<choice_rec>* record = nullptr;
std::map<std::pair<std::string, uint32_t>, uint32_t>* overrides = nullptr;
bool replay_mode = false;
bool verbose = false;
FILE* trace_out = nullptr;
std::string* trace_text = nullptr;
uint64_t steps = 0;
int64_t wall_offset_ns = 0;
int64_t epoch_ns = 1700000000ll * 1000000000ll;
int64_t syscall_cost_ns = 1000;
bool deadlock_is_violation = true;
bool livelock_is_violation = true;
bool faults_enabled = true;
uint64_t faults_injected = 0;
const char* context_note = nullptr;
fn_t on_thread_terminate;

static uint64_t g_seed = 0;
static int64_t g_now = 0;
static uint64_t step_limit = 20000000;
static uint32_t preempt_mean = 0;
static int64_t preempt_in = 0;
static uint32_t yield_switch = 100;
static uint32_t yields_since_switch = 0;
static uint64_t edges_since_switch = 0;
static std::vector<thread*> threads;
static thread* cur = nullptr;
static int in_sched = 0;
static uint32_t rates[F_COUNT];

struct timer { int64_t t; uint64_t seq; fn_t fn; };
struct timer_later { bool operator()(const timer& a, const timer& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::priority_queue<timer, std::vector<timer>, timer_later> timers;
static uint64_t timer_seq = 0;

uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
uint64_t hash64(const void* p, size_t n, uint64_t h) {
    const unsigned char* b = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
int64_t real_mono_ns() {
    struct timespec ts;
    raw(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
    return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}

static const char* fault_names[F_COUNT] = {
    "preempt", "stall", "spurious_wake",
    "short_send", "short_recv", "net_delay", "reset", "eintr", "accept_fail", "socket_fail", "half_close",
    "dgram_loss", "dgram_dup", "dgram_reorder",
    "short_write", "write_fail", "read_fail", "disk_full", "open_fail", "mmap_fail", "seek_fail", "msync_fail", "stat_fail",
    "kill", "clock_jump", "thread_fail", "alloc_fail", "ioctl_fail", "resolve_fail", "late_wake", "short_read"
};
const char* fault_name(int k) { return fault_names[k]; }

// ------------------------------------------------------------------ trace
static inline void h_add(uint64_t v) {
    if (res) res->trace_hash = (res->trace_hash ^ mix(v + res->trace_hash)) * 0x9ddfea08eb382d69ull + 0x1234567;
}
static void out_text(const char* s) {
    if (trace_text && trace_text->size() < (4u << 20)) { *trace_text += s; *trace_text += '\n'; }
    if (trace_out) { fputs(s, trace_out); fputc('\n', trace_out); fflush(trace_out); }
}
void ev(const char* fmt, ...) {
    char buf[1200];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    h_add(hash64(buf, n));
    if (verbose) {
        char line[1300];
        snprintf(line, sizeof line, "[%12.6fms T%d] %s", g_now / 1e6, self_thread ? self_thread->id : -1, buf);
        out_text(line);
    }
}
void evh(const char* tag, uint64_t a, uint64_t b, uint64_t c) {
    h_add(hash64(tag, strlen(tag)));
    h_add(a); h_add(b); h_add(c);
    if (verbose) {
        char line[300];
        snprintf(line, sizeof line, "[%12.6fms T%d] %s %llu %llu %llu", g_now / 1e6, self_thread ? self_thread->id : -1, tag,
                 (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
        out_text(line);
    }
}
void state_hash(uint64_t h) {
    if (!res) return;
    uint32_t n = res->nstates;
    if (n >= 192) return;
    for (uint32_t i = n; i-- > 0 && i + 8 > n;) if (res->states[i] == h) return;
    res->states[res->nstates++] = h;
}
void coverage(const char* key) {
    if (!res) return;
    for (uint32_t i = 0; i < res->ncov; i++) if (!strncmp(res->cov[i], key, 47)) return;
    if (res->ncov < 64) { strncpy(res->cov[res->ncov], key, 47); res->cov[res->ncov][47] = 0; res->ncov++; }
}

static void fill_result() {
    if (!res) return;
    res->steps = steps;
    res->sim_ns = g_now;
}
[[noreturn]] static void finish(int status) {
    fill_result();
    if (res) res->status = status;
    if (trace_out) fflush(trace_out);
    extern void on_finish();
    on_finish();
    raw(SYS_exit_group, status == 1 ? 0 : 10 + status);
    for (;;) {}
}
static std::atomic<int> finishing{0};
void violation(const char* sig, const char* fmt, ...) {
    if (finishing.exchange(1)) { for (;;) raw(SYS_pause); }
    char buf[1800];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (res) {
        snprintf(res->sig, sizeof res->sig, "%s", sig);
        if (context_note) snprintf(res->msg, sizeof res->msg, "%s [%s]", buf, context_note);
        else snprintf(res->msg, sizeof res->msg, "%s", buf);
        for (char* p = res->msg; *p; p++) if (*p == '\n' || *p == '\r') *p = ' ';
    }
    h_add(hash64(sig, strlen(sig)));
    if (verbose) { char line[2100]; snprintf(line, sizeof line, "VIOLATED %s: %s", sig, buf); out_text(line); }
    finish(2);
}
void harness_error(const char* fmt, ...) {
    if (finishing.exchange(1)) { for (;;) raw(SYS_pause); }
    char buf[1800];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (res) { snprintf(res->sig, sizeof res->sig, "harness-error"); snprintf(res->msg, sizeof res->msg, "%s", buf); }
    finish(3);
}
void end_run() {
    if (finishing.exchange(1)) { for (;;) raw(SYS_pause); }
    finish(1);
}

// ------------------------------------------------------------------ choices
struct tag_state { std::string name; uint64_t h; uint32_t next = 0; };
static std::unordered_map<std::string, tag_state*>* tags;
static std::unordered_map<const void*, tag_state*>* tag_ptrs;
static tag_state* tag_of(const char* tag) {
    if (!tags) { tags = new std::unordered_map<std::string, tag_state*>(); tag_ptrs = new std::unordered_map<const void*, tag_state*>(); }
    auto q = tag_ptrs->find(tag);
    if (q != tag_ptrs->end() && q->second->name == tag) return q->second;
    auto it = tags->find(tag);
    tag_state* ts;
    if (it == tags->end()) { ts = new tag_state(); ts->name = tag; ts->h = hash64(tag, strlen(tag)); (*tags)[tag] = ts; }
    else ts = it->second;
    (*tag_ptrs)[tag] = ts;
    return ts;
}
static uint32_t decide(uint32_t n, const char* tag, uint32_t permille_nonzero /*0: uniform*/) {
    if (n <= 1) return 0;
    tag_state* ts = tag_of(tag);
    uint32_t idx = ts->next++;
    uint32_t v;
    if (replay_mode) {
        v = 0;
        if (overrides) {
            auto o = overrides->find({tag, idx});
            if (o != overrides->end()) v = o->second % n;
        }
    } else {
        uint64_t h = mix(mix(g_seed * 0x9e3779b97f4a7c15ull + ts->h) + idx);
        if (permille_nonzero) {
            v = (h % 1000 < permille_nonzero) ? 1 + (uint32_t)((h >> 20) % (n - 1)) : 0;
        } else v = (uint32_t)((h >> 8) % n);
    }
    if (v && record) record->push_back({tag, idx, v});
    if (res) res->nchoices++;
    h_add(ts->h + v);
    return v;
}
uint32_t choose(uint32_t n, const char* tag) { return decide(n, tag, 0); }
uint32_t pick(uint32_t lo, uint32_t hi, const char* tag) { return lo + decide(hi - lo + 1, tag, 0); }
bool chance(uint32_t permille, const char* tag) {
    if (permille == 0) return false;
    if (permille >= 1000) permille = 1000;
    return decide(2, tag, permille) != 0;
}
void set_fault_rate(fault_t k, uint32_t permille) { rates[k] = permille; }
uint32_t fault_rate(fault_t k) { return rates[k]; }
void note_fault(fault_t k) { faults_injected++; if (res) res->faults[k]++; evh(fault_names[k]); }
bool fault(fault_t k) {
    if (!faults_enabled || rates[k] == 0 || !on()) return false;
    static char ftags[F_COUNT][40];
    if (!ftags[k][0]) snprintf(ftags[k], sizeof ftags[k], "f.%s", fault_names[k]);
    if (!chance(rates[k], ftags[k])) return false;
    note_fault(k);
    return true;
}

// ------------------------------------------------------------------ scheduler
static void futex_wait(int* p, int v) { raw(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v); }
static void futex_wake(int* p) { raw(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1); }
static void post(thread* t) { __atomic_store_n(&t->sem, 1, __ATOMIC_SEQ_CST); futex_wake(&t->sem); }
static void await(thread* t) {
    while (__atomic_load_n(&t->sem, __ATOMIC_SEQ_CST) == 0) futex_wait(&t->sem, 0);
    __atomic_store_n(&t->sem, 0, __ATOMIC_SEQ_CST);
}

static int64_t gap() { uint32_t v = choose(2 * preempt_mean, "sched.gap"); return v ? v : 2 * (int64_t)preempt_mean; }
int64_t now() { return g_now; }
void advance(int64_t ns) { g_now += ns; }
int self_id() { return self_thread ? self_thread->id : -1; }
void set_preempt_mean(uint32_t m) {
    preempt_mean = m;
    preempt_in = m ? gap() : INT64_MAX;
}
void set_step_limit(uint64_t n) { step_limit = n; }
void set_yield_switch(uint32_t p) { yield_switch = p; }

void scan_due() {
    in_sched++;
    while (!timers.empty() && timers.top().t <= g_now) {
        fn_t f = timers.top().fn;
        timers.pop();
        f();
    }
    in_sched--;
    for (thread* t : threads)
        if (t->state == thread::BLOCKED && t->deadline >= 0 && t->deadline <= g_now) {
            t->state = thread::RUN; t->timed_out = true; t->deadline = -1;
        }
}
static void describe_blocked(char* buf, size_t n) {
    size_t k = 0; buf[0] = 0;
    for (thread* t : threads)
        if (t->state == thread::BLOCKED && k < n)
            k += snprintf(buf + k, n - k, " T%d(%s) in %s;", t->id, t->name.c_str(), t->why);
}
[[noreturn]] static void deadlock() {
    char buf[800]; describe_blocked(buf, sizeof buf);
    if (deadlock_is_violation) violation("deadlock", "no thread can ever run again:%s", buf);
    harness_error("deadlock:%s", buf);
}
// Pick the next thread to run (never returns nullptr).  The caller is blocked or done.
static thread* dispatch() {
    for (;;) {
        scan_due();
        std::vector<thread*> r;
        for (thread* t : threads) if (t->state == thread::RUN) r.push_back(t);
        if (!r.empty()) {
            uint32_t i = r.size() > 1 ? choose(r.size(), "sched.next") : 0;
            return r[i];
        }
        int64_t t = INT64_MAX;
        if (!timers.empty()) t = timers.top().t;
        for (thread* th : threads) if (th->state == thread::BLOCKED && th->deadline >= 0) t = std::min(t, th->deadline);
        if (t == INT64_MAX) deadlock();
        if (t > g_now) g_now = t;
    }
}
static void switch_to(thread* t) {
    thread* me = self_thread;
    yields_since_switch = 0; edges_since_switch = 0;
    if (t == me) return;
    if (res) { res->switches++; res->sched_hash = mix(res->sched_hash * 31 + t->id + 1 + hash64(me->why, strlen(me->why))); }
    h_add(0x7000 + t->id);
    cur = t;
    post(t);
    if (me->state != thread::DONE) await(me);
}
static bool others_runnable(std::vector<thread*>& r) {
    for (thread* t : threads) if (t->state == thread::RUN && t != self_thread) r.push_back(t);
    return !r.empty();
}
static void maybe_switch(bool forced) {
    std::vector<thread*> r;
    if (!others_runnable(r)) return;
    uint32_t i = r.size() > 1 ? choose(r.size(), "sched.to") : 0;
    switch_to(r[i]);
}
void yield(const char* why) {
    if (!on() || in_sched) return;
    self_thread->why = why;
    scan_due();
    if (fault(F_STALL)) {
        int64_t d = (int64_t)pick(1, 2000, "stall.us") * 1000;
        if (chance(200, "stall.long")) d *= 500;
        block(mix((uint64_t)(uintptr_t)self_thread + 77), g_now + d, "stall");
        return;
    }
    bool forced = ++yields_since_switch > 3000;
    if (forced || (yield_switch && threads.size() > 1 && chance(yield_switch, "sched.sw"))) maybe_switch(forced);
}
void enter_syscall(const char* tag) {
    if (!on() || in_sched) return;
    g_now += syscall_cost_ns;
    if (++steps > step_limit) {
        if (livelock_is_violation) violation("livelock", "no end after %llu steps, %.3f simulated seconds (in %s)", (unsigned long long)steps, g_now / 1e9, tag);
        harness_error("step limit");
    }
    yield(tag);
}
bool block(uint64_t key, int64_t deadline, const char* why) {
    thread* me = self_thread;
    if (!on()) harness_error("block outside of a simulated thread");
    me->state = thread::BLOCKED; me->key = key; me->timed_out = false; me->why = why;
    if (deadline >= 0) {
        if (fault(F_LATE_WAKE)) deadline += (int64_t)pick(1, 3000, "late.us") * 1000;
        me->deadline = deadline;
    } else me->deadline = -1;
    thread* t = dispatch();
    switch_to(t);
    return !me->timed_out;
}
int wake(uint64_t key, int max) {
    int n = 0;
    for (thread* t : threads) {
        if (n >= max) break;
        if (t->state == thread::BLOCKED && t->key == key) { t->state = thread::RUN; t->deadline = -1; t->timed_out = false; n++; }
    }
    return n;
}
bool wake_one_random(uint64_t key) {
    std::vector<thread*> w;
    for (thread* t : threads) if (t->state == thread::BLOCKED && t->key == key) w.push_back(t);
    if (w.empty()) return false;
    thread* t = w[w.size() > 1 ? choose(w.size(), "sched.wake") : 0];
    t->state = thread::RUN; t->deadline = -1; t->timed_out = false;
    return true;
}
void at(int64_t t, fn_t fn) { timers.push({t < g_now ? g_now : t, timer_seq++, std::move(fn)}); }
void sleep_ns(int64_t ns) {
    if (!on()) return;
    if (ns < 0) ns = 0;
    block(mix((uint64_t)(uintptr_t)self_thread + 99), g_now + ns, "sleep");
}
int live_threads() { int n = 0; for (thread* t : threads) if (t->state != thread::DONE) n++; return n; }

static void* trampoline(void* p) {
    thread* t = (thread*)p;
    self_thread = t;
    // every simulated thread needs its own alternate stack for crash reporting
    stack_t ss{}; ss.ss_size = 65536; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
    await(t);
    t->fn();
    t->state = thread::DONE;
    wake(mix((uint64_t)(uintptr_t)t + 5));
    evh("thread.done", t->id);
    thread* n = dispatch();
    t->why = "exit";
    if (res) { res->switches++; res->sched_hash = mix(res->sched_hash * 31 + n->id + 1); }
    self_thread = nullptr;
    cur = n;
    yields_since_switch = 0; edges_since_switch = 0;
    post(n);
    for (;;) raw(SYS_pause);   // carriers never exit: thread teardown would run outside the simulation
    return nullptr;
}
thread* new_thread(const char* name, fn_t fn) {
    thread* t = new thread();
    t->id = (int)threads.size();
    t->name = name;
    t->fn = std::move(fn);
    threads.push_back(t);
    return t;
}
void launch(thread* t, const pthread_attr_t* attr) {
    typedef int (*pc_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static pc_t real = nullptr;
    if (!real) real = __interceptor_pthread_create ? (pc_t)__interceptor_pthread_create : (pc_t)dlsym(RTLD_NEXT, "pthread_create");
    // stacks at fixed addresses: thread identifiers are addresses in them, and programs print those
    const size_t STACK = 8u << 20;
    void* at = (void*)(0x300000000000ull + ((uint64_t)t->id << 24));
    long m = raw(SYS_mmap, (long)at, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m != (long)at) harness_error("cannot place a stack");
    pthread_attr_t own; pthread_attr_init(&own); pthread_attr_setstack(&own, at, STACK); (void)attr;
    int e = real(&t->real, &own, trampoline, t);
    pthread_attr_destroy(&own);
    if (e) harness_error("cannot create a carrier thread: %s", strerror(e));
    t->has_real = true;
}
int spawn(const char* name, fn_t fn) {
    thread* t = new_thread(name, std::move(fn));
    launch(t, nullptr);
    typedef int (*pd_t)(pthread_t);
    static pd_t det = (pd_t)dlsym(RTLD_NEXT, "pthread_detach");
    det(t->real);
    t->detached = true;
    evh("spawn", t->id);
    yield("spawn");
    return t->id;
}
void join(int id) {
    thread* t = threads[id];
    while (t->state != thread::DONE) block(mix((uint64_t)(uintptr_t)t + 5), -1, "join");
}
bool is_done(int id) { return threads[id]->state == thread::DONE; }
thread* thread_by_real(pthread_t p) {
    for (size_t i = threads.size(); i-- > 0;) if (threads[i]->has_real && pthread_equal(threads[i]->real, p)) return threads[i];
    return nullptr;
}
void start_run(void (*f)()) {
    thread* t = new_thread("main", [f] { f(); end_run(); });
    cur = t;
    active = true;
    if (preempt_mean == 0) preempt_in = INT64_MAX;
    launch(t, nullptr);
    post(t);
    for (;;) raw(SYS_pause);
}

// ------------------------------------------------------------------ code instrumentation (abc code only)
static void edge() {
    if (!active || in_sched) return;
    thread* me = self_thread;
    if (!me || me != cur) return;
    if (++steps > step_limit) {
        if (livelock_is_violation) violation("livelock", "no end after %llu steps of the code, %.3f simulated seconds", (unsigned long long)steps, g_now / 1e9);
        harness_error("step limit");
    }
    if ((steps & 63) == 0) g_now += 1000;
    if (--preempt_in <= 0 || ++edges_since_switch > 4000000) {
        preempt_in = preempt_mean ? gap() : INT64_MAX;
        scan_due();
        std::vector<thread*> r;
        if (others_runnable(r)) {
            me->why = "preempt";
            uint32_t i = choose(r.size() + 1, "sched.pre");
            if (i || edges_since_switch > 4000000) { note_fault(F_PREEMPT); switch_to(r[i ? i - 1 : 0]); }
        }
    }
}

// ------------------------------------------------------------------ crash handling
static void on_signal(int s, siginfo_t* si, void*) {
    const char* where = "";
    if (s == SIGXCPU) violation("hang", "the code keeps computing without end (CPU time limit of one run)");
    if ((s == SIGSEGV || s == SIGBUS) && fs::in_arena(si->si_addr)) where = fs::describe(si->si_addr);
    const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGPIPE ? "SIGPIPE" : "signal";
    char sig[64]; snprintf(sig, sizeof sig, "crash-%s", n);
    violation(sig, "the process is killed by %s %s", n, where);
}
static void on_terminate() {
    char what[600] = "no active exception";
    std::exception_ptr p = std::current_exception();
    if (p) {
        try { std::rethrow_exception(p); }
        catch (const std::exception& e) { snprintf(what, sizeof what, "uncaught %s: %s", typeid(e).name(), e.what()); }
        catch (...) { snprintf(what, sizeof what, "uncaught exception"); }
    }
    violation("terminate", "std::terminate: %s", what);
}
void install_handlers() {
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGPIPE, SIGXCPU}) sigaction(s, &sa, nullptr);
    stack_t ss{}; ss.ss_size = 65536; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
    std::set_terminate(on_terminate);
}
void begin_process_run(uint64_t seed) {
    g_seed = seed;
    g_now = 0;
}
} // namespace sim

extern "C" {
__attribute__((no_sanitize("address"), no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t*) { sim::edge(); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
#define LS(n) void __sanitizer_cov_load##n(void*) { sim::edge(); } void __sanitizer_cov_store##n(void*) { sim::edge(); }
LS(1) LS(2) LS(4) LS(8) LS(16)
const char* __asan_default_options() {
    return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:"
           "allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:symbolize=0:"
           "use_sigaltstack=0:detect_odr_violation=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=256";
}
void __asan_set_error_report_callback(void (*)(const char*)) __attribute__((weak));
}
namespace sim {
static void asan_report(const char* text) {
    const char* p = strstr(text, "AddressSanitizer: ");
    char kind[64] = "error";
    if (p) { p += 18; size_t i = 0; while (i < 60 && p[i] && p[i] != ' ' && p[i] != '\n') { kind[i] = p[i]; i++; } kind[i] = 0; }
    const char* rw = strstr(text, "READ of size") ? "read" : strstr(text, "WRITE of size") ? "write" : "access";
    // keep the first frame line of our own when the report has symbols, else only the kind
    char sig[96]; snprintf(sig, sizeof sig, "memory-%s", kind);
    if (verbose && trace_out) { fputs(text, trace_out); }
    violation(sig, "memory error: %s (%s)", kind, rw);
}
void install_asan() { if (__asan_set_error_report_callback) __asan_set_error_report_callback(asan_report); }
}
