#pragma once
#include "core.h"
#include <pthread.h>
namespace sim {
struct thread {
    int id = 0;
    std::string name;
    fn_t fn;
    int sem = 0;
    enum { RUN, BLOCKED, DONE } state = RUN;
    uint64_t key = 0;
    int64_t deadline = -1;
    bool timed_out = false;
    const char* why = "";
    pthread_t real{};
    bool has_real = false;
    bool detached = false;
};
extern thread_local thread* self_thread;
inline bool on() { return active && self_thread != nullptr; }
thread* new_thread(const char* name, fn_t fn);
void launch(thread* t, const pthread_attr_t* attr);
void evh(const char* tag, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);
void scan_due();
extern int64_t syscall_cost_ns;
void enter_syscall(const char* tag);      // time cost + scheduling point
thread* thread_by_real(pthread_t p);

// result block shared with the driver
struct result {
    volatile int status;            // 0 started, 1 ok, 2 violation, 3 harness error
    char sig[96];
    char msg[2000];
    uint64_t trace_hash, sched_hash, steps, nchoices, switches;
    int64_t sim_ns;
    uint32_t faults[F_COUNT];
    uint32_t nstates;
    uint64_t states[192];
    uint32_t ncov;
    char cov[64][48];
};
extern result* res;
struct choice_rec { std::string tag; uint32_t idx; uint32_t val; };
extern std::vector<choice_rec>* record;                                   // nonzero choices, when recording
extern std::map<std::pair<std::string, uint32_t>, uint32_t>* overrides;   // replay mode when non null
extern bool replay_mode;
extern bool verbose;
extern FILE* trace_out;
extern std::string* trace_text;
void begin_process_run(uint64_t seed);
void install_handlers();

// real syscalls
int64_t real_mono_ns();
}
