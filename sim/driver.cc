// Runs simulations in child processes, searches seeds, gates, minimises and reports.
#include "internal.h"
#include "raw.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern char** environ;
namespace sim {
void seed_random(uint64_t);
void install_asan();

static const size_t REC_CAP = 64u << 20;
struct shared { result r; uint64_t rec_bytes; uint64_t rec_overflow; };
static shared* sh;
static char* rec_area;
static std::string* text_area;
static const char* text_path = nullptr;

void on_finish() {
    if (record && rec_area) {
        size_t o = 0;
        for (auto& c : *record) {
            size_t n = c.tag.size();
            if (o + n + 16 > REC_CAP) { sh->rec_overflow = 1; break; }
            memcpy(rec_area + o, &c.idx, 4); memcpy(rec_area + o + 4, &c.val, 4);
            uint32_t l = n; memcpy(rec_area + o + 8, &l, 4); memcpy(rec_area + o + 12, c.tag.data(), n);
            o += 12 + n;
        }
        sh->rec_bytes = o;
    }
    if (trace_text && text_path) {
        int fd = (int)raw(SYS_open, (long)text_path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) { raw(SYS_write, fd, (long)trace_text->data(), trace_text->size()); raw(SYS_close, fd); }
    }
}
static const property* prop;
struct outcome { result r; std::vector<choice_rec> rec; bool killed = false; };

// One simulated run in a child process.
static uint32_t time_scale = 1;
static void child_run(uint64_t seed, bool rec, const std::vector<choice_rec>* replay, const char* text) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    for (int fd = 3; fd < 64; fd++) raw(SYS_close, fd);
    if (!(text && !strcmp(text, "-")) && !getenv("SIM_STDERR")) { int n = (int)raw(SYS_open, (long)"/dev/null", O_WRONLY); raw(SYS_dup2, n, 2); raw(SYS_close, n); }
    res = &sh->r;
    if (rec) record = new std::vector<choice_rec>();
    if (replay) {
        replay_mode = true;
        overrides = new std::map<std::pair<std::string, uint32_t>, uint32_t>();
        for (auto& c : *replay) (*overrides)[{c.tag, c.idx}] = c.val;
    }
    if (text) { verbose = true; text_path = text; trace_text = new std::string(); if (!strcmp(text, "-")) { text_path = nullptr; trace_out = stderr; } }
    struct rlimit rl; uint32_t cpu = (prop->watchdog_s ? prop->watchdog_s : 20) * time_scale; rl.rlim_cur = cpu; rl.rlim_max = cpu + 20;
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    raw(SYS_alarm, 300);
    install_handlers();
    begin_process_run(seed);
    seed_random(seed);
    start_run(prop->run);
}
static outcome run_one(uint64_t seed, bool rec, const std::vector<choice_rec>* replay, const char* text = nullptr) {
    outcome o;
    memset(&sh->r, 0, sizeof sh->r);
    sh->rec_bytes = 0; sh->rec_overflow = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) { child_run(seed, rec, replay, text); _exit(13); }
    if (p < 0) { perror("fork"); exit(3); }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) o.killed = true;
    o.r = sh->r;
    if (o.r.status == 0) { o.r.status = 3; snprintf(o.r.msg, sizeof o.r.msg, "run ended without a result (wait status %x%s)", st, o.killed ? ", killed by the watchdog" : ""); snprintf(o.r.sig, sizeof o.r.sig, "no-result"); }
    if (rec) {
        size_t off = 0;
        while (off < sh->rec_bytes) {
            choice_rec c; uint32_t l;
            memcpy(&c.idx, rec_area + off, 4); memcpy(&c.val, rec_area + off + 4, 4); memcpy(&l, rec_area + off + 8, 4);
            c.tag.assign(rec_area + off + 12, l);
            off += 12 + l;
            o.rec.push_back(c);
        }
    }
    return o;
}
static void setup_shared() {
    // a high descriptor keeps the table large: growing it in a threaded process waits for an RCU period
    struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 4096); setrlimit(RLIMIT_NOFILE, &rl);
    int n = (int)raw(SYS_open, (long)"/dev/null", O_RDWR); raw(SYS_fcntl, n, F_DUPFD, rl.rlim_cur > 2050 ? 2047 : rl.rlim_cur - 1); raw(SYS_close, n);
    sh = (shared*)mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    rec_area = (char*)mmap(nullptr, REC_CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
    return o;
}
static uint64_t run_seed(uint64_t base, uint64_t i) { return mix(mix(base) ^ (i * 0x2545F4914F6CDD1Dull)); }

// ------------------------------------------------------------------ replay files
static void write_replay(const std::string& path, uint64_t seed, const result& r, const std::vector<choice_rec>& rec, size_t original) {
    std::ofstream f(path);
    f << "abc-sim-replay 1\nharness " << harness_name << "\nproperty " << prop->id << "\nseed " << seed << "\nsig " << r.sig << "\nmsg " << r.msg
      << "\nhash " << std::hex << r.trace_hash << std::dec << "\nfaults";
    for (int i = 0; i < F_COUNT; i++) if (r.faults[i]) f << " " << fault_name(i) << "=" << r.faults[i];
    f << "\nsimulated_ns " << r.sim_ns << "\noriginal_choices " << original << "\nchoices " << rec.size() << "\n";
    for (auto& c : rec) f << c.tag << " " << c.idx << " " << c.val << "\n";
}
struct replay_file { std::string property, sig; uint64_t seed = 0, hash = 0; std::vector<choice_rec> rec; };
static bool read_replay(const char* path, replay_file& rf) {
    std::ifstream f(path);
    std::string line, k;
    if (!std::getline(f, line) || line != "abc-sim-replay 1") return false;
    while (std::getline(f, line)) {
        std::istringstream is(line); is >> k;
        if (k == "property") is >> rf.property;
        else if (k == "seed") is >> rf.seed;
        else if (k == "sig") is >> rf.sig;
        else if (k == "hash") is >> std::hex >> rf.hash >> std::dec;
        else if (k == "choices") {
            size_t n; is >> n;
            for (size_t i = 0; i < n && std::getline(f, line); i++) { std::istringstream cs(line); choice_rec c; cs >> c.tag >> c.idx >> c.val; rf.rec.push_back(c); }
            return true;
        }
    }
    return false;
}
// ------------------------------------------------------------------ minimisation
static void minimise(uint64_t seed, const std::string& sig, std::vector<choice_rec>& rec, double budget_s) {
    int64_t end = real_mono_ns() + (int64_t)(budget_s * 1e9);
    auto fails = [&](const std::vector<choice_rec>& c) {
        outcome o = run_one(seed, false, &c);
        return o.r.status == 2 && sig == o.r.sig;
    };
    auto try_drop = [&](const std::function<bool(const choice_rec&)>& pred) {
        std::vector<choice_rec> c;
        for (auto& x : rec) if (!pred(x)) c.push_back(x);
        if (c.size() == rec.size()) return;
        if (real_mono_ns() < end && fails(c)) rec = c;
    };
    // whole kinds first: faults, then scheduling, then the rest by tag
    std::set<std::string> tags;
    for (auto& c : rec) tags.insert(c.tag);
    for (auto& t : tags) if (t.compare(0, 2, "f.") == 0) try_drop([&](const choice_rec& c) { return c.tag == t; });
    for (auto& t : tags) if (t.compare(0, 6, "sched.") == 0) try_drop([&](const choice_rec& c) { return c.tag == t; });
    for (auto& t : tags) if (t.compare(0, 2, "f.") && t.compare(0, 6, "sched.")) try_drop([&](const choice_rec& c) { return c.tag == t; });
    size_t chunk = std::max<size_t>(1, rec.size() / 2);
    while (real_mono_ns() < end && !rec.empty()) {
        bool any = false;
        for (size_t i = 0; i < rec.size() && real_mono_ns() < end;) {
            std::vector<choice_rec> c(rec.begin(), rec.begin() + i);
            c.insert(c.end(), rec.begin() + std::min(rec.size(), i + chunk), rec.end());
            if (fails(c)) { rec = c; any = true; } else i += chunk;
        }
        if (chunk == 1) { if (!any) break; } else chunk = std::max<size_t>(1, chunk / 2);
    }
    for (size_t i = 0; i < rec.size() && real_mono_ns() < end; i++) {
        while (rec[i].val > 1 && real_mono_ns() < end) {
            std::vector<choice_rec> c = rec; c[i].val /= 2;
            if (fails(c)) rec = c; else break;
        }
    }
}
// ------------------------------------------------------------------ known findings
struct known { std::string sig, what; };
static std::vector<known> read_known(const char* path, const char* id) {
    std::vector<known> v;
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line)) {
        if (line.compare(0, 6, "known:") != 0) continue;
        std::istringstream is(line.substr(6));
        std::string a, b; is >> a >> b;
        if (a != std::string("property=") + id || b.compare(0, 4, "sig=") != 0) continue;
        std::string rest; std::getline(is, rest);
        v.push_back({b.substr(4), rest});
    }
    return v;
}
// ------------------------------------------------------------------ check
struct agg {
    uint64_t runs = 0, steps = 0, switches = 0, nchoices = 0; double sim_s = 0;
    uint64_t faults[F_COUNT] = {}, fault_runs[F_COUNT] = {};
    std::unordered_set<uint64_t> traces, scheds, states, nontrivial;
    std::map<std::string, uint64_t> cov;
};
struct found { uint64_t index; uint64_t seed; result r; };

static int check(const char* id, const std::string& tier, uint64_t seed, const std::string& evidence, const std::string& replays, const char* known_path, int64_t runs_override, int jobs, double budget) {
    prop = nullptr;
    for (const property* p = properties; p->id; p++) if (!strcmp(p->id, id)) prop = p;
    if (!prop) { fprintf(stderr, "unknown property %s\n", id); return 3; }
    int64_t t0 = real_mono_ns();
    uint64_t total = tier == "thorough" ? prop->thorough_runs : prop->quick_runs;
    if (runs_override > 0) total = runs_override;
    std::vector<known> kn = read_known(known_path, id);
    std::vector<int> pipes; std::vector<pid_t> pids;
    volatile int* stop = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int64_t deadline = t0 + (int64_t)(budget * 1e9);
    for (int w = 0; w < jobs; w++) {
        int pf[2]; if (pipe(pf)) return 3;
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(pf[0]);
            int out = fcntl(pf[1], F_DUPFD, 500); close(pf[1]);
            setup_shared();
            for (uint64_t i = w; i < total && !*stop && real_mono_ns() < deadline; i += jobs) {
                outcome o = run_one(run_seed(seed, i), false, nullptr);
                char* b = (char*)&o.r; size_t n = sizeof(result);
                uint64_t hdr = i;
                if (write(out, &hdr, 8) != 8) _exit(1);
                while (n) { ssize_t k = write(out, b, n); if (k <= 0) _exit(1); b += k; n -= k; }
            }
            _exit(0);
        }
        close(pf[1]);
        pipes.push_back(pf[0]); pids.push_back(p);
    }
    agg A; std::map<std::string, found> bad; std::vector<std::string> samples; uint64_t errors = 0; std::string first_error;
    std::vector<std::string> bufs(jobs);
    std::vector<bool> open_(jobs, true);
    int nopen = jobs;
    while (nopen) {
        std::vector<struct pollfd> pf; std::vector<int> who;
        for (int w = 0; w < jobs; w++) if (open_[w]) { pf.push_back({pipes[w], POLLIN, 0}); who.push_back(w); }
        raw(SYS_poll, (long)pf.data(), pf.size(), 1000);
        for (size_t k = 0; k < pf.size(); k++) if (pf[k].revents) {
            char tmp[65536];
            ssize_t n = read(pf[k].fd, tmp, sizeof tmp);
            if (n <= 0) { open_[who[k]] = false; nopen--; continue; }
            std::string& b = bufs[who[k]]; b.append(tmp, n);
            size_t need = 8 + sizeof(result), off = 0;
            while (b.size() - off >= need) {
                uint64_t i; static result r;
                memcpy(&i, b.data() + off, 8); memcpy((void*)&r, b.data() + off + 8, sizeof(result)); off += need;
                A.runs++; A.steps += r.steps; A.switches += r.switches; A.nchoices += r.nchoices; A.sim_s += r.sim_ns / 1e9;
                for (int f = 0; f < F_COUNT; f++) { A.faults[f] += r.faults[f]; if (r.faults[f]) A.fault_runs[f]++; }
                A.traces.insert(r.trace_hash); A.scheds.insert(r.sched_hash);
                for (uint32_t s = 0; s < r.nstates; s++) A.states.insert(r.states[s]);
                for (uint32_t c = 0; c < r.ncov; c++) A.cov[r.cov[c]]++;
                if (r.ncov && r.status != 3) A.nontrivial.insert(r.trace_hash);
                if (i < 3 || (samples.size() < 5 && r.ncov > 3)) {
                    std::ostringstream s;
                    s << "run " << i << " seed " << run_seed(seed, i) << ": status " << (r.status == 1 ? "held" : r.status == 2 ? r.sig : "error") << ", " << r.steps << " steps, " << r.switches << " context switches, " << r.sim_ns / 1000000 << " simulated ms, trace " << std::hex << r.trace_hash << std::dec << ", faults:";
                    for (int f = 0; f < F_COUNT; f++) if (r.faults[f]) s << " " << fault_name(f) << "=" << r.faults[f];
                    s << ", situations:"; for (uint32_t c = 0; c < r.ncov && c < 12; c++) s << " " << r.cov[c];
                    samples.push_back(s.str());
                }
                if (r.status == 2) {
                    auto it = bad.find(r.sig);
                    if (it == bad.end() || it->second.index > i) bad[r.sig] = {i, run_seed(seed, i), r};
                    bool is_known = false;
                    for (auto& q : kn) if (q.sig == r.sig) is_known = true;
                    if (!is_known && !getenv("SIM_KEEP_GOING")) *stop = 1;
                }
                if (r.status == 3) { errors++; if (first_error.empty()) first_error = std::string(r.sig) + ": " + r.msg + " (seed " + std::to_string(run_seed(seed, i)) + ")"; if (errors > 20) *stop = 1; }
            }
            b.erase(0, off);
        }
    }
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
    double search_s = (real_mono_ns() - t0) / 1e9;
    // ---- verdicts
    setup_shared();
    int rc = 0; uint64_t violations = 0; std::vector<std::string> notes;
    for (auto& kv : bad) {
        const known* q = nullptr;
        for (auto& x : kn) if (x.sig == kv.first) q = &x;
        if (q) continue;
        found& f = kv.second;
        outcome a = run_one(f.seed, true, nullptr), b = run_one(f.seed, true, nullptr);
        if (a.r.status != 2 || a.r.trace_hash != b.r.trace_hash || a.r.trace_hash != f.r.trace_hash || strcmp(a.r.sig, b.r.sig)) {
            fprintf(stderr, "ERROR: violation %s of seed %llu does not repeat (statuses %d %d, hashes %llx %llx %llx)\n", kv.first.c_str(), (unsigned long long)f.seed, a.r.status, b.r.status,
                    (unsigned long long)f.r.trace_hash, (unsigned long long)a.r.trace_hash, (unsigned long long)b.r.trace_hash);
            rc = rc == 1 ? 1 : 3;
            continue;
        }
        std::vector<choice_rec> rec = a.rec; size_t orig = rec.size();
        outcome c = run_one(f.seed, false, &rec);
        if (c.r.status != 2 || strcmp(c.r.sig, a.r.sig)) { fprintf(stderr, "ERROR: replay of the recorded choices differs (seed %llu sig %s -> %d %s)\n", (unsigned long long)f.seed, a.r.sig, c.r.status, c.r.sig); rc = rc == 1 ? 1 : 3; continue; }
        double mb = getenv("SIM_MIN_S") ? atof(getenv("SIM_MIN_S")) : tier == "thorough" ? 120 : 60;
        minimise(f.seed, a.r.sig, rec, mb);
        std::string path = replays + "/" + id + "-" + std::to_string(violations) + ".replay";
        outcome m = run_one(f.seed, false, &rec, (path + ".trace").c_str());
        if (m.r.status != 2 || strcmp(m.r.sig, a.r.sig)) { fprintf(stderr, "ERROR: minimised replay differs\n"); rc = rc == 1 ? 1 : 3; continue; }
        write_replay(path, f.seed, m.r, rec, orig);
        // fresh process
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            int n = open("/dev/null", O_WRONLY); dup2(n, 1);
            const char* av[] = {"/proc/self/exe", "replay", path.c_str(), nullptr};
            execv("/proc/self/exe", (char* const*)av);
            _exit(9);
        }
        int st; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "ERROR: the replay file does not reproduce in a fresh process (%x)\n", st); rc = rc == 1 ? 1 : 3; continue; }
        violations++;
        printf("VIOLATION property=%s replay=%s\n", id, path.c_str());
        printf("  %s: %s\n  seed %llu, %zu of %zu choices left after minimising, %llu faults in the trace (see %s.trace)\n", m.r.sig, m.r.msg, (unsigned long long)f.seed, rec.size(), orig,
               (unsigned long long)[&] { uint64_t n = 0; for (int i = 1; i < F_COUNT; i++) n += m.r.faults[i]; return n; }(), path.c_str());
        rc = 1;
    }
    for (auto& q : kn) printf("KNOWN-FINDING: property=%s %s%s\n", id, q.what.c_str(), bad.count(q.sig) ? "" : " (not met in this run)");
    if (errors && rc != 1) { fprintf(stderr, "ERROR: %llu runs ended in a harness error; first: %s\n", (unsigned long long)errors, first_error.c_str()); rc = 3; }
    if (rc == 0 && A.runs < total / 4) { fprintf(stderr, "ERROR: only %llu of %llu runs fitted in the time\n", (unsigned long long)A.runs, (unsigned long long)total); if (A.runs < 50) rc = 3; }
    double wall = (real_mono_ns() - t0) / 1e9;
    if (!evidence.empty()) {
        std::ofstream e(evidence);
        e << "{\n \"property\": \"" << id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << ",\n \"coverage\": {\n"
          << "  \"evaluations\": " << A.runs << ",\n  \"distinct_nontrivial\": " << A.nontrivial.size() << ",\n  \"rule\": \"" << jesc(prop->rule) << "\",\n"
          << "  \"runs_planned\": " << total << ",\n  \"runs_and_seeds_per_hour\": " << (uint64_t)(A.runs / std::max(0.001, search_s) * 3600) << ",\n  \"simulated_seconds\": " << A.sim_s << ",\n  \"code_steps\": " << A.steps
          << ",\n  \"scheduler_and_fault_choices\": " << A.nchoices << ",\n  \"context_switches\": " << A.switches << ",\n  \"distinct_traces\": " << A.traces.size() << ",\n  \"distinct_interleavings\": " << A.scheds.size() << ",\n  \"interleaving_measure\": \"hash of the sequence of (thread given the processor, where the previous one stopped)\",\n  \"distinct_states\": " << A.states.size() << ",\n  \"faults_injected\": {";
        bool first = true;
        for (int f = 0; f < F_COUNT; f++) if (A.faults[f]) { e << (first ? "" : ", ") << "\"" << fault_name(f) << "\": {\"times\": " << A.faults[f] << ", \"runs\": " << A.fault_runs[f] << "}"; first = false; }
        e << "},\n  \"situations_reached_runs\": {"; first = true;
        for (auto& c : A.cov) { e << (first ? "" : ", ") << "\"" << jesc(c.first) << "\": " << c.second; first = false; }
        e << "},\n  \"real_components\": \"" << jesc(prop->real) << "\",\n  \"stub_components\": \"" << jesc(prop->stub) << "\",\n  \"signatures_met\": {"; first = true;
        for (auto& b : bad) { e << (first ? "" : ", ") << "\"" << jesc(b.first) << "\": \"" << jesc(b.second.r.msg) << "\""; first = false; }
        e << "},\n  \"known_findings_met\": ["; first = true;
        for (auto& q : kn) if (bad.count(q.sig)) { e << (first ? "" : ", ") << "\"" << jesc(q.sig) << "\""; first = false; }
        e << "],\n  \"samples\": ["; first = true;
        for (auto& s : samples) { e << (first ? "\n   \"" : ",\n   \"") << jesc(s) << "\""; first = false; }
        e << "]\n },\n \"assumptions\": [\"one process, one token: only one simulated thread runs at a time (sequentially consistent memory)\", \"the simulated kernel behaves like Linux for the calls the code makes\"]\n}\n";
    }
    printf("%s %s seed %llu: %llu runs in %.1f s, %zu distinct traces, %zu distinct interleavings, %zu states, %s\n", id, tier.c_str(), (unsigned long long)seed, (unsigned long long)A.runs, wall, A.traces.size(), A.scheds.size(), A.states.size(), rc == 0 ? "held" : rc == 1 ? "VIOLATED" : "error");
    if (getenv("SIM_KEEP_GOING")) for (auto& b : bad) printf("  sig %s (run %llu seed %llu): %s\n", b.first.c_str(), (unsigned long long)b.second.index, (unsigned long long)b.second.seed, b.second.r.msg);
    return rc;
}
} // namespace sim
using namespace sim;

int main(int argc, char** argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
        personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
        setenv("SIM_NOREEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    if (!getenv("SIM_CLEANENV")) {
        // the same small environment and argument block always: stack addresses do not depend on the caller
        std::vector<std::string> keep; 
        for (const char* k : {"SIM_KEEP_GOING", "SIM_MIN_S", "SIM_STDERR", "SIM_N"}) if (getenv(k)) keep.push_back(std::string(k) + "=" + getenv(k));
        std::vector<char*> env; keep.push_back("SIM_CLEANENV=1"); keep.push_back("SIM_NOREEXEC=1"); keep.push_back("TZ=UTC"); keep.push_back("LANG=C"); keep.push_back("OPENSSL_CONF=/dev/null");
        for (auto& s : keep) env.push_back((char*)s.c_str());
        env.push_back(nullptr);
        execve("/proc/self/exe", argv, env.data());
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    signal(SIGPIPE, SIG_DFL);
    install_asan();
    std::string cmd = argc > 1 ? argv[1] : "";
    auto opt = [&](const char* n, const char* d) -> std::string { for (int i = 2; i + 1 < argc; i++) if (!strcmp(argv[i], n)) return argv[i + 1]; return d; };
    if (cmd == "check") {
        std::string id = opt("--property", ""), tier = opt("--tier", "quick");
        double budget = atof(opt("--budget", tier == "thorough" ? "700" : "75").c_str());
        return check(id.c_str(), tier, strtoull(opt("--seed", "1").c_str(), nullptr, 10), opt("--evidence", ""), opt("--replays", "/tmp"), opt("--known", "/dev/null").c_str(), atoll(opt("--runs", "0").c_str()), atoi(opt("--jobs", "8").c_str()), budget);
    }
    if (cmd == "replay") {
        replay_file rf;
        if (argc < 3 || !read_replay(argv[2], rf)) { fprintf(stderr, "cannot read the replay file\n"); return 3; }
        for (const property* p = properties; p->id; p++) if (rf.property == p->id) prop = p;
        if (!prop) return 3;
        setup_shared();
        bool v = argc > 3 && !strcmp(argv[3], "-v");
        outcome o = run_one(rf.seed, false, &rf.rec, v ? "-" : nullptr);
        bool same = o.r.status == 2 && rf.sig == o.r.sig && rf.hash == o.r.trace_hash;
        printf("%s: status %d sig %s hash %llx (expected %s %llx) %s\n", same ? "reproduced" : "NOT reproduced", o.r.status, o.r.sig, (unsigned long long)o.r.trace_hash, rf.sig.c_str(), (unsigned long long)rf.hash, o.r.msg);
        if (same) { printf("VIOLATION property=%s replay=%s\n", prop->id, argv[2]); return 1; }
        return o.r.status == 1 ? 0 : 3;
    }
    if (cmd == "run") {   // one seed, verbose: run PROPERTY RUNSEED [-v]
        for (const property* p = properties; p->id; p++) if (argc > 2 && !strcmp(p->id, argv[2])) prop = p;
        if (!prop || argc < 4) return 3;
        setup_shared();
        outcome o = run_one(strtoull(argv[3], nullptr, 10), false, nullptr, argc > 4 ? "-" : nullptr);
        printf("status %d sig %s msg %s hash %llx steps %llu sim_ms %.3f\n", o.r.status, o.r.sig, o.r.msg, (unsigned long long)o.r.trace_hash, (unsigned long long)o.r.steps, o.r.sim_ns / 1e6);
        return o.r.status == 1 ? 0 : o.r.status == 2 ? 1 : 3;
    }
    if (cmd == "determinism") {   // determinism PROPERTY N: every seed twice, in separate processes
        for (const property* p = properties; p->id; p++) if (argc > 2 && !strcmp(p->id, argv[2])) prop = p;
        if (!prop || argc < 4) return 3;
        setup_shared();
        uint64_t n = strtoull(argv[3], nullptr, 10), diff = 0;
        uint64_t base = argc > 4 ? strtoull(argv[4], nullptr, 10) : 1;
        for (uint64_t i = 0; i < n; i++) {
            outcome a = run_one(run_seed(base, i), true, nullptr);
            outcome b = run_one(run_seed(base, i), false, nullptr);
            outcome c = run_one(run_seed(base, i), false, &a.rec);
            if (a.r.trace_hash != b.r.trace_hash || a.r.trace_hash != c.r.trace_hash || a.r.status != b.r.status) { diff++; printf("seed %llu differs: %llx %llx replay %llx status %d %d %d\n", (unsigned long long)run_seed(base, i), (unsigned long long)a.r.trace_hash, (unsigned long long)b.r.trace_hash, (unsigned long long)c.r.trace_hash, a.r.status, b.r.status, c.r.status); }
        }
        printf("%s: %llu of %llu seeds differ\n", prop->id, (unsigned long long)diff, (unsigned long long)n);
        return diff ? 3 : 0;
    }
    if (cmd == "list") { for (const property* p = properties; p->id; p++) printf("%s\n", p->id); return 0; }
    fprintf(stderr, "usage: check|replay|run|determinism|list\n");
    return 3;
}
