// Deterministic simulator core: keyed choices, cooperative scheduler over real threads,
// virtual clock, event trace.  Everything nondeterministic goes through choose().
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
// A choice is identified by (tag, occurrence number of that tag in this run).  In random mode
// its value is a keyed hash of the seed; in replay mode it comes from the replay file and is 0
// ("benign": no fault, stay on the same thread, simplest operation) when the file has no entry.
uint32_t choose(uint32_t n, const char* tag);                 // uniform in [0, n)
uint32_t pick(uint32_t lo, uint32_t hi, const char* tag);     // uniform in [lo, hi]
bool     chance(uint32_t permille, const char* tag);          // 0 = no

// ---------------------------------------------------------------- faults
enum fault_t : int {
    F_PREEMPT, F_STALL, F_SPURIOUS_WAKE,
    F_SHORT_SEND, F_SHORT_RECV, F_NET_DELAY, F_RESET, F_EINTR, F_ACCEPT_FAIL, F_SOCKET_FAIL, F_HALF_CLOSE,
    F_DGRAM_LOSS, F_DGRAM_DUP, F_DGRAM_REORDER,
    F_SHORT_WRITE, F_WRITE_FAIL, F_READ_FAIL, F_DISK_FULL, F_OPEN_FAIL, F_MMAP_FAIL, F_SEEK_FAIL, F_MSYNC_FAIL, F_STAT_FAIL,
    F_KILL, F_CLOCK_JUMP, F_THREAD_FAIL, F_ALLOC_FAIL, F_IOCTL_FAIL, F_RESOLVE_FAIL, F_LATE_WAKE, F_SHORT_READ,
    F_COUNT
};
const char* fault_name(int k);
void set_fault_rate(fault_t k, uint32_t permille);            // per-run rate, 0 = off (default)
uint32_t fault_rate(fault_t k);
bool fault(fault_t k);                                        // decides and counts
void note_fault(fault_t k);                                   // count a fault injected by other means
extern uint64_t faults_injected;                               // in this run so far
extern bool faults_enabled;                                   // master switch ("faults stop")

// ---------------------------------------------------------------- trace, outcome
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));       // hashed + kept as text when verbose
void state_hash(uint64_t h);                                  // a state reached (distinct-state measure)
void coverage(const char* key);                               // named situation reached (counted per run)
[[noreturn]] void violation(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void end_run();                                  // the run is over and nothing was wrong
// If set, called with (signature, text) before a violation is final: lets a harness add context.
extern const char* context_note;

// ---------------------------------------------------------------- scheduler
extern bool active;                                           // inside a simulated run
struct thread;
typedef std::function<void()> fn_t;
[[noreturn]] void start_run(void (*f)());                     // run f as simulated thread 0
int  spawn(const char* name, fn_t fn);                        // new simulated thread, returns id
void join(int id);
bool is_done(int id);
void yield(const char* why);                                  // scheduling point
bool block(uint64_t key, int64_t deadline_ns, const char* why);  // true = woken, false = timed out; deadline<0: none
int  wake(uint64_t key, int max = 1 << 30);                   // wake threads blocked on key
bool wake_one_random(uint64_t key);
void at(int64_t t_ns, fn_t fn);                               // timer event
int64_t now();                                                // virtual nanoseconds since run start
void advance(int64_t ns);
void sleep_ns(int64_t ns);
int  self_id();
int  live_threads();
void set_preempt_mean(uint32_t edges);                        // 0 = no fine-grained preemption
void set_step_limit(uint64_t edges);
void set_yield_switch(uint32_t permille);                     // probability of switching at a scheduling point
extern bool deadlock_is_violation;
extern bool livelock_is_violation;
extern uint64_t steps;
extern int64_t wall_offset_ns;                                // CLOCK_REALTIME = epoch + now + offset
extern int64_t epoch_ns;
extern fn_t on_thread_terminate;

// real (non simulated) helpers
uint64_t hash64(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
uint64_t mix(uint64_t x);

// ---------------------------------------------------------------- file system (paths below /sim/)
namespace fs {
    struct file;
    void  put(const char* path, const std::string& content);
    bool  get(const char* path, std::string& content);
    int64_t size(const char* path);          // -1: no such file
    void  mkdir(const char* path);
    bool  exists(const char* path);
    void  remove(const char* path);
    std::vector<std::string> list(const char* prefix);
    int   open_count(const char* path);                       // descriptors open on it
    int   open_fds();
    int   map_count();                                        // live mappings
    int   map_count_file(const char* path);
    int   max_map_count();                                    // high water mark since reset
    void  reset_max_map_count();
    bool  in_arena(const void* p);
    const char* describe(const void* p);
    extern bool strict;                                       // paths outside /sim/ are recorded and refused
    extern std::vector<std::string> outside;                  // such paths
    extern std::vector<std::string> opened;                   // normalised sim paths opened or stat'ed
    extern int mmap_fail_at;                                  // this mmap from now on fails (1 = the next one); <=0 none
    extern int64_t capacity;                                  // bytes of all files; <0 unlimited
    extern uint64_t syscalls;
    int64_t used();
    void drop_process_state();                                // process killed: descriptors and mappings vanish
    void set_virtual_size(const char* path, int64_t size);
    extern const char* fault_scope;                           // only paths with this prefix see faults (nullptr: all)
}

// ---------------------------------------------------------------- devices (/dev/gpiochip*, /dev/i2c-*)
namespace dev {
    // returns result (>=0) or -errno
    extern std::function<int(const char* path)> on_open;                        // return 0 or -errno
    extern std::function<int(int fd, const char* path, unsigned long req, void* arg)> on_ioctl;
    extern std::function<void(int fd, const char* path)> on_close;
    int new_fd(const char* path);                                               // e.g. gpio line descriptor
    int open_fds();
}

// ---------------------------------------------------------------- network
namespace net {
    extern uint32_t sndbuf;                                   // bytes in flight per direction
    extern bool die_on_sigpipe;
    extern bool strict_peer_close;                            // closing with unread data resets the connection
    extern uint64_t bytes_moved;
    int  open_fds();
    int  connections();
    void reset_all();
    bool listening(const char* ip, int port);
}

// ---------------------------------------------------------------- harness side registration
struct property {
    const char* id;
    void (*run)();                 // one simulated run; ends by returning, end_run() or violation()
    uint64_t quick_runs;
    uint64_t thorough_runs;
    const char* rule;              // what counts as a distinct non-trivial execution
    const char* real;              // components running real code
    const char* stub;              // components running a stand-in
    uint32_t watchdog_s;
};
extern const property properties[];   // terminated by id == nullptr
extern const char* harness_name;

} // namespace sim
