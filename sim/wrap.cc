// Interposed threading, locking, time and randomness.
#include "internal.h"
#include "raw.h"
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <cstdlib>
#include <sys/time.h>
#include <sys/random.h>
#include <time.h>
#include <unordered_map>
#include <unistd.h>
#include <cstdarg>

namespace sim {
// ------------------------------------------------------------- locks, keyed by address
struct mtx { int owner = -1; int count = 0; };
static std::unordered_map<const void*, mtx>* mutexes;
static std::unordered_map<const void*, mtx>& mx() { if (!mutexes) mutexes = new std::unordered_map<const void*, mtx>(); return *mutexes; }
struct rwl { int writer = -1; int readers = 0; };
static std::unordered_map<const void*, rwl>* rwlocks;
static std::unordered_map<const void*, rwl>& rw() { if (!rwlocks) rwlocks = new std::unordered_map<const void*, rwl>(); return *rwlocks; }
struct keyer { uint64_t n = 0; };
// Addresses are deterministic (no ASLR), so they can serve as wait keys.
static uint64_t key_of(const void* p, int salt) { return mix((uint64_t)(uintptr_t)p * 8 + salt); }
static void touch(const void* p) { volatile char c = *(const volatile char*)p; (void)c; }

static int lock(const void* m, bool recursive_ok) {
    touch(m);
    enter_syscall("lock");
    for (;;) {
        mtx& x = mx()[m];
        if (x.owner < 0) { x.owner = self_thread->id; x.count = 1; return 0; }
        if (x.owner == self_thread->id && recursive_ok) { x.count++; return 0; }
        block(key_of(m, 1), -1, "mutex");
        touch(m);
    }
}
static int unlock(const void* m, bool sched) {
    touch(m);
    auto it = mx().find(m);
    if (it == mx().end()) return 0;
    if (--it->second.count > 0) return 0;
    mx().erase(it);
    wake_one_random(key_of(m, 1));
    if (sched) enter_syscall("unlock");
    return 0;
}
static bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

static int64_t abs_to_now(const struct timespec* ts, bool realtime) {
    int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
    if (realtime) t -= epoch_ns + wall_offset_ns;
    else t -= 1000000000000ll;   // CLOCK_MONOTONIC starts at 1000 s
    return t < 0 ? 0 : t;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
    touch(c);
    mtx saved = mx()[m];
    mx().erase(m);
    wake_one_random(key_of(m, 1));
    bool woken = true;
    if (fault(F_SPURIOUS_WAKE)) {
        int64_t d = now() + (int64_t)pick(0, 3000, "spurious.us") * 1000;
        if (deadline >= 0 && d > deadline) d = deadline;
        block(key_of(c, 2), d, "cond");
    } else woken = block(key_of(c, 2), deadline, "cond");
    touch(m);
    for (;;) {
        mtx& x = mx()[m];
        if (x.owner < 0) { x.owner = self_thread->id; x.count = saved.count ? saved.count : 1; break; }
        block(key_of(m, 1), -1, "mutex");
        touch(m);
    }
    if (!woken && deadline >= 0 && now() >= deadline) return ETIMEDOUT;
    return 0;
}
template <typename F> static F next(const char* name) { return (F)dlsym(RTLD_NEXT, name); }

static int futex_sim(int* addr, int op, int val, const struct timespec* to, int val3) {
    int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    (void)val3;
    switch (cmd) {
    case FUTEX_WAIT: case FUTEX_WAIT_BITSET: {
        enter_syscall("futex.wait");
        if (*(volatile int*)addr != val) { errno = EAGAIN; return -1; }
        int64_t dl = -1;
        if (to) dl = cmd == FUTEX_WAIT ? now() + to->tv_sec * 1000000000ll + to->tv_nsec : abs_to_now(to, op & FUTEX_CLOCK_REALTIME);
        if (!block(key_of(addr, 3), dl, "futex")) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    case FUTEX_WAKE: case FUTEX_WAKE_BITSET: {
        int n = wake(key_of(addr, 3), val);
        enter_syscall("futex.wake");
        return n;
    }
    default: harness_error("futex op %d", op);
    }
}
static uint64_t rnd_state = 0x1234567;
static void fill_random(void* p, size_t n) {
    unsigned char* b = (unsigned char*)p;
    for (size_t i = 0; i < n; i++) { rnd_state = mix(rnd_state + 1); b[i] = (unsigned char)rnd_state; }
}
static void get_clock(clockid_t id, struct timespec* ts) {
    int64_t t;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t = epoch_ns + wall_offset_ns + now();
    else t = 1000000000000ll + now();
    ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll;
    if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000ll; ts->tv_sec--; }
}
void seed_random(uint64_t s) { rnd_state = mix(s); }
void fill_random_public(void* p, size_t n) { fill_random(p, n); }
} // namespace sim
using namespace sim;

extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*f)(void*), void* arg) {
    if (!on()) {
        typedef int (*F)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
        static F real = next<F>("pthread_create");
        return real(out, attr, f, arg);
    }
    enter_syscall("pthread_create");
    if (fault(F_THREAD_FAIL)) return EAGAIN;
    thread* t = new_thread("std::thread", [f, arg]() { f(arg); });
    launch(t, nullptr);
    *out = t->real;
    evh("pthread_create", t->id);
    yield("pthread_create");
    return 0;
}
int pthread_join(pthread_t p, void** ret) {
    if (!on()) { typedef int (*F)(pthread_t, void**); static F real = next<F>("pthread_join"); return real(p, ret); }
    thread* t = thread_by_real(p);
    if (!t) harness_error("join of an unknown thread");
    enter_syscall("pthread_join");
    if (t == self_thread) return EDEADLK;
    join(t->id);
    t->has_real = false;   // joined: the identifier may be reused
    if (ret) *ret = nullptr;
    return 0;
}
int pthread_detach(pthread_t p) {
    if (!on()) { typedef int (*F)(pthread_t); static F real = next<F>("pthread_detach"); return real(p); }
    thread* t = thread_by_real(p);
    if (t) t->detached = true;
    enter_syscall("pthread_detach");
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!on()) { typedef int (*F)(pthread_mutex_t*); static F real = next<F>("pthread_mutex_lock"); return real(m); }
    return lock(m, is_recursive(m));
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!on()) { typedef int (*F)(pthread_mutex_t*); static F real = next<F>("pthread_mutex_trylock"); return real(m); }
    touch(m);
    enter_syscall("trylock");
    mtx& x = mx()[m];
    if (x.owner < 0) { x.owner = self_thread->id; x.count = 1; return 0; }
    if (x.owner == self_thread->id && is_recursive(m)) { x.count++; return 0; }
    return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!on() || mx().find(m) == mx().end()) {
        if (on()) return 0;
        typedef int (*F)(pthread_mutex_t*); static F real = next<F>("pthread_mutex_unlock"); return real(m);
    }
    return unlock(m, true);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!on()) { typedef int (*F)(pthread_cond_t*, pthread_mutex_t*); static F real = next<F>("pthread_cond_wait"); return real(c, m); }
    return cond_wait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!on()) { typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*); static F real = next<F>("pthread_cond_timedwait"); return real(c, m, ts); }
    return cond_wait(c, m, abs_to_now(ts, true));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) {
    if (!on()) { typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*); static F real = next<F>("pthread_cond_clockwait"); return real(c, m, id, ts); }
    return cond_wait(c, m, abs_to_now(ts, id == CLOCK_REALTIME));
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!on()) { typedef int (*F)(pthread_cond_t*); static F real = next<F>("pthread_cond_signal"); return real(c); }
    touch(c);
    enter_syscall("cond.signal");
    wake_one_random(key_of(c, 2));
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!on()) { typedef int (*F)(pthread_cond_t*); static F real = next<F>("pthread_cond_broadcast"); return real(c); }
    touch(c);
    enter_syscall("cond.broadcast");
    wake(key_of(c, 2));
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (!on()) { typedef int (*F)(pthread_rwlock_t*); static F real = next<F>("pthread_rwlock_rdlock"); return real(l); }
    for (;;) {
        rwl& x = rw()[l];
        if (x.writer < 0) { x.readers++; return 0; }
        block(key_of(l, 4), -1, "rwlock");
    }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (!on()) { typedef int (*F)(pthread_rwlock_t*); static F real = next<F>("pthread_rwlock_wrlock"); return real(l); }
    for (;;) {
        rwl& x = rw()[l];
        if (x.writer < 0 && x.readers == 0) { x.writer = self_thread->id; return 0; }
        block(key_of(l, 4), -1, "rwlock");
    }
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!on()) { typedef int (*F)(pthread_rwlock_t*); static F real = next<F>("pthread_rwlock_unlock"); return real(l); }
    auto it = rw().find(l);
    if (it == rw().end()) return 0;
    if (it->second.writer == self_thread->id) it->second.writer = -1;
    else if (it->second.readers > 0) it->second.readers--;
    if (it->second.writer < 0 && it->second.readers == 0) rw().erase(it);
    wake(key_of(l, 4));
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    if (!on()) { typedef int (*F)(pthread_once_t*, void (*)(void)); static F real = next<F>("pthread_once"); return real(o, f); }
    for (;;) {
        if ((*o & 2) == 2) return 0;
        if (*o == 0) { *o = 1; f(); *o = 2; wake(key_of(o, 5)); return 0; }
        block(key_of(o, 5), -1, "once");
    }
}
int sched_yield(void) {
    if (!on()) return (int)raw(SYS_sched_yield);
    enter_syscall("sched_yield");
    return 0;
}

// Fixed signature under the real name: a caller passes only the arguments it has.
__attribute__((no_sanitize("address"))) long sim_syscall(long n, long a, long b, long c, long d, long e, long f) __asm__("syscall");
__attribute__((no_sanitize("address"))) long sim_syscall(long n, long a, long b, long c, long d, long e, long f) {
    if (on() && n == SYS_futex) return futex_sim((int*)a, (int)b, (int)c, (const struct timespec*)d, (int)f);
    if (active && n == SYS_getrandom) { fill_random((void*)a, (size_t)b); return b; }
    return raw(n, a, b, c, d, e, f);
}

int clock_gettime(clockid_t id, struct timespec* ts) {
    if (!on()) return (int)raw(SYS_clock_gettime, id, (long)ts);
    enter_syscall("clock");
    if (fault(F_CLOCK_JUMP)) {
        int64_t d = (int64_t)pick(0, 7200, "jump.s") - 3600;
        wall_offset_ns += d * 1000000000ll;
    }
    get_clock(id, ts);
    return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    if (!on()) { struct timespec ts; raw(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* out) {
    struct timespec ts;
    if (!on()) raw(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); else get_clock(CLOCK_REALTIME, &ts);
    if (out) *out = ts.tv_sec;
    return ts.tv_sec;
}
int nanosleep(const struct timespec* req, struct timespec* rem) {
    if (!on()) return (int)raw(SYS_nanosleep, (long)req, (long)rem);
    enter_syscall("nanosleep");
    sleep_ns(req->tv_sec * 1000000000ll + req->tv_nsec);
    if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; }
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* req, struct timespec* rem) {
    if (!on()) { long r = raw6(SYS_clock_nanosleep, id, flags, (long)req, (long)rem); return (int)-r; }
    enter_syscall("nanosleep");
    if (flags & TIMER_ABSTIME) sleep_ns(abs_to_now(req, id == CLOCK_REALTIME) - now());
    else sleep_ns(req->tv_sec * 1000000000ll + req->tv_nsec);
    return 0;
}
int usleep(useconds_t us) {
    struct timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) {
    struct timespec ts{(time_t)s, 0};
    nanosleep(&ts, nullptr);
    return 0;
}
ssize_t getrandom(void* p, size_t n, unsigned flags) {
    if (!active) return raw(SYS_getrandom, (long)p, n, flags);
    fill_random(p, n);
    return n;
}
int getentropy(void* p, size_t n) {
    if (!active) return raw(SYS_getrandom, (long)p, n, 0) == (long)n ? 0 : -1;
    fill_random(p, n);
    return 0;
}
pid_t getpid(void) {
    if (!active) return (pid_t)raw(SYS_getpid);
    return 4242;
}
} // extern "C"
