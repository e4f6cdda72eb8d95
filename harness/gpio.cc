// Peripherals: GPIO chips and lines, PWM (emulated and over SMBus), SMBus transfers, ultrasonic distance,
// grayscale and motion sensors and the motion tracker, on a simulated board: the devices answer
// ioctl() calls, fail at random, and keep a record of what was done to them and when.
#include "core.h"
#include <cmath>
#include <cstring>
#include <memory>
#include <thread>
#include "gpio.h"
#include "diaglog.h"
#include <errno.h>
using namespace sim;

typedef diag_log L;
static const int64_t US = 1000, MS = 1000000, SEC = 1000000000;

// ---------------------------------------------------------------- the board
struct edge { int64_t t; int level; };
struct line_t { bool output = false; std::string consumer; int fd = -1; int level = 0; std::vector<edge> edges; std::function<int(int64_t)> signal; };
struct transfer { int thread; int addr; int rw, cmd, size; int value; std::string block; bool ok; };
struct board_t {
    uint32_t lines = 8;
    std::map<int, std::map<uint32_t, line_t>> chip;                    // chip number -> line
    std::map<int, std::pair<int, uint32_t>> line_of;                   // line descriptor -> chip, position
    std::map<int, int> slave;                                          // bus descriptor -> address of the target
    std::function<int(int addr, i2c_smbus_ioctl_data*)> bus;           // what the targets do: 0 or -errno
    std::vector<transfer> log;
    std::map<int, int> want_addr;                                      // thread -> address its transfers are for (-1: none)
    std::map<int, int> failed, done;                                   // thread -> ioctls that failed / went well
    uint32_t fail = 0;                                                 // permille of failing ioctls
    std::function<void(int chip, uint32_t pos, int level)> on_level;
};
static board_t* board;
static int chip_no(const char* path) {          // "/dev/gpiochip1", also as "/dev/././gpiochip1"
    if (strncmp(path, "/dev/", 5)) return -1;
    const char* p = path + 5; while (!strncmp(p, "./", 2) || *p == '/') p += *p == '/' ? 1 : 2;
    return (!strncmp(p, "gpiochip0", 10) || !strncmp(p, "gpiochip1", 10)) ? p[8] - '0' : -1;
}
static bool is_bus(const char* p) { const char* e = strrchr(p, '/'); return e && !strcmp(e, "/i2c-1") && !strncmp(p, "/dev/", 5); }
static int on_ioctl(int fd, const char* path, unsigned long req, void* arg) {
    int me = self_id();
    if (chance(board->fail, "dev.fail")) { note_fault(F_IOCTL_FAIL); board->failed[me]++; static const int e[] = {EIO, EREMOTEIO, EBUSY, ETIMEDOUT, ENXIO}; return -e[choose(5, "dev.errno")]; }
    auto lf = board->line_of.find(fd);
    if (lf != board->line_of.end()) {
        line_t& l = board->chip[lf->second.first][lf->second.second];
        gpio_v2_line_values* v = (gpio_v2_line_values*)arg;
        if (req == GPIO_V2_LINE_GET_VALUES_IOCTL) {
            if (v->mask != 1) return -EINVAL;
            int level = l.output ? l.level : l.signal ? l.signal(now()) : l.level;
            v->bits = (v->bits & ~1ull) | (unsigned)level; board->done[me]++;
            return 0;
        }
        if (req == GPIO_V2_LINE_SET_VALUES_IOCTL) {
            if (v->mask != 1) return -EINVAL;
            if (!l.output) return -EPERM;
            l.level = (int)(v->bits & 1); l.edges.push_back({now(), l.level}); board->done[me]++;
            if (board->on_level) board->on_level(lf->second.first, lf->second.second, l.level);
            return 0;
        }
        return -ENOTTY;
    }
    int c = chip_no(path);
    if (c >= 0) {
        if (req == GPIO_GET_CHIPINFO_IOCTL) { gpiochip_info* i = (gpiochip_info*)arg; memset(i, 0, sizeof *i); snprintf(i->name, sizeof i->name, "gpiochip%d", c); snprintf(i->label, sizeof i->label, "board%d", c); i->lines = board->lines; return 0; }
        if (req == GPIO_V2_GET_LINEINFO_IOCTL) {
            gpio_v2_line_info* i = (gpio_v2_line_info*)arg; uint32_t pos = i->offset;
            if (pos >= board->lines) return -EINVAL;
            memset(i, 0, sizeof *i); i->offset = pos; snprintf(i->name, sizeof i->name, "line%u", pos);
            line_t& l = board->chip[c][pos]; if (l.fd >= 0) snprintf(i->consumer, sizeof i->consumer, "%s", l.consumer.c_str()); i->flags = l.fd >= 0 ? GPIO_V2_LINE_FLAG_USED | (l.output ? GPIO_V2_LINE_FLAG_OUTPUT : GPIO_V2_LINE_FLAG_INPUT) : (uint64_t)GPIO_V2_LINE_FLAG_INPUT;
            return 0;
        }
        if (req == GPIO_V2_GET_LINE_IOCTL) {
            gpio_v2_line_request* r = (gpio_v2_line_request*)arg;
            if (r->num_lines != 1 || r->offsets[0] >= board->lines) return -EINVAL;
            bool in = r->config.flags & GPIO_V2_LINE_FLAG_INPUT, out = r->config.flags & GPIO_V2_LINE_FLAG_OUTPUT;
            if (in == out) return -EINVAL;
            if (memchr(r->consumer, 0, sizeof r->consumer) == nullptr) return -EINVAL;
            line_t& l = board->chip[c][r->offsets[0]];
            if (l.fd >= 0) return -EBUSY;
            l.fd = dev::new_fd("/dev/gpio-line"); l.output = out; l.consumer = r->consumer; r->fd = l.fd;
            board->line_of[l.fd] = {c, r->offsets[0]};
            return 0;
        }
        return -ENOTTY;
    }
    if (req == I2C_FUNCS) { *(unsigned long*)arg = 0x0eff0001ul; return 0; }
    if (req == I2C_SLAVE_FORCE || req == I2C_SLAVE) { board->slave[fd] = (int)(long)arg; board->done[me]++; return 0; }
    if (req == I2C_SMBUS) {
        i2c_smbus_ioctl_data* d = (i2c_smbus_ioctl_data*)arg;
        auto s = board->slave.emplace(fd, 0).first;              // like i2c-dev: a fresh descriptor is set to target 0
        auto w = board->want_addr.find(me);
        if (w != board->want_addr.end() && w->second != s->second) violation("wrong-target", "a transfer for target %02x went to target %02x", w->second, s->second);
        int r = board->bus ? board->bus(s->second, d) : 0;
        transfer t{me, s->second, d->read_write, d->command, (int)d->size, d->data ? d->size == I2C_SMBUS_BYTE_DATA || d->size == I2C_SMBUS_BYTE ? d->data->byte : d->size == I2C_SMBUS_WORD_DATA ? d->data->word : 0 : 0, "", r == 0};
        if (d->data && d->size == I2C_SMBUS_BLOCK_DATA) t.block.assign((char*)&d->data->block[1], std::min<size_t>(d->data->block[0], 32));
        board->log.push_back(t);
        if (r == 0) board->done[me]++; else board->failed[me]++;
        return r;
    }
    return -ENOTTY;
}
struct board_guard {
    board_t b;
    board_guard() {
        board = &b;
        dev::on_open = [](const char* p) { return chip_no(p) >= 0 || is_bus(p) ? 0 : -ENOENT; };
        dev::on_ioctl = on_ioctl;
        dev::on_close = [](int fd, const char*) { auto i = board->line_of.find(fd); if (i != board->line_of.end()) { board->chip[i->second.first][i->second.second].fd = -1; board->line_of.erase(i); } board->slave.erase(fd); };
    }
    line_t& line(int c, uint32_t p) { return b.chip[c][p]; }
};
template <typename F> static bool throws_std(F f, const char* what) {
    try { f(); return false; } catch (const std::exception&) { return true; } catch (...) { violation("exception", "%s threw something that is not a std::exception", what); }
}
static void scheduling() { if (choose(2, "cfg.preempt")) set_preempt_mean(pick(50, 2000, "cfg.preempt.mean")); set_yield_switch(pick(100, 900, "cfg.switch")); }

// ---------------------------------------------------------------- G01: chips and lines
struct heap_string { char* p; explicit heap_string(const std::string& s) : p(new char[s.size() + 1]) { memcpy(p, s.c_str(), s.size() + 1); } ~heap_string() { delete[] p; } };
static void p_lines() {
    board_guard bg; log_holder lg(400); set_step_limit(40000000ull);
    bool faults = chance(500, "cfg.faults");
    if (faults) { bg.b.fail = pick(0, 200, "f.ioctl"); set_fault_rate(F_OPEN_FAIL, pick(0, 150, "f.open")); }
    faults_enabled = false; uint32_t rate = bg.b.fail; bg.b.fail = 0;
    auto letters = [](size_t n) { std::string s; while (n--) s += (char)('a' + choose(26, "ln.char")); return s; };
    auto path_of = [](int c, size_t n) { std::string p = "/dev/", e = "gpiochip" + std::to_string(c); while (p.size() + e.size() + 2 <= n) p += "./"; if (p.size() + e.size() < n) p += "/"; return p + e; };
    std::string label[2] = {chance(500, "cfg.label") ? "first" : letters(choose((uint32_t)abc::gpio_max_consumer, "cfg.label.n")), letters(abc::gpio_max_consumer - 1 - choose(2, "cfg.label.m"))};
    std::string path[2] = {"/dev/gpiochip0", path_of(1, chance(500, "cfg.path") ? 14 : pick(14, abc::gpio_max_path - 1, "cfg.path.n"))};
    std::unique_ptr<abc::gpio_chip<L>> chip[2] = {std::unique_ptr<abc::gpio_chip<L>>(new abc::gpio_chip<L>(0, label[0].c_str(), lg.get())), std::unique_ptr<abc::gpio_chip<L>>(new abc::gpio_chip<L>(path[1].c_str(), label[1].c_str(), lg.get()))};
    if (chance(200, "cfg.chip.move")) for (auto& c : chip) { std::unique_ptr<abc::gpio_chip<L>> n(choose(2, "cfg.chip.how") ? new abc::gpio_chip<L>(*c) : new abc::gpio_chip<L>(std::move(*c))); c = std::move(n); }
    for (int c = 0; c < 2; c++) if (path[c] != chip[c]->path() || label[c] != chip[c]->consumer()) violation("chip", "a chip opened as %s for '%s' is %s for '%s'", path[c].c_str(), label[c].c_str(), chip[c]->path(), chip[c]->consumer());
    if (dev::open_fds()) violation("descriptor-leak", "%d descriptors are open after opening chips", dev::open_fds());
    faults_enabled = true; bg.b.fail = rate;
    struct held { std::unique_ptr<abc::gpio_input_line<L>> in; std::unique_ptr<abc::gpio_output_line<L>> out; int c; uint32_t pos; };
    std::vector<held> lines;
    auto trouble = [&] { uint64_t n = faults_injected; for (auto& f : bg.b.failed) n += (uint64_t)f.second; return n; };
    for (unsigned n = pick(1, 40, "ln.n"); n > 0; n--) {
        uint64_t before = trouble();
        int c = (int)choose(2, "ln.chip"); uint32_t pos = choose(10, "ln.pos");
        switch (choose(10, "ln.op")) {
        case 0: {                                               // something that is not a chip
            static const char* bad[] = {"/dev/gpiochip7", "/dev/gpiochip-with-a-name-that-is-longer-than-any", nullptr, "/dev/gpiochip0"};
            int k = (int)choose(8, "ln.bad");
            if (k >= 5) {                                       // as long as it may be, and longer
                bool label_ = choose(2, "ln.bad.what"); size_t max = label_ ? abc::gpio_max_consumer : abc::gpio_max_path, n = max - 2 + choose(4, "ln.bad.n");
                std::string p = label_ ? std::string("/dev/gpiochip1") : path_of(1, n), l = label_ ? letters(n) : letters(3);
                heap_string hp(p), hl(l);
                bool threw = throws_std([&] { abc::gpio_chip<L> x(hp.p, hl.p, lg.get()); if (p != x.path() || l != x.consumer()) violation("chip", "a chip opened as %s for '%s' is %s for '%s'", p.c_str(), l.c_str(), x.path(), x.consumer()); }, "gpio_chip()");
                if (threw != (n >= max || trouble() != before)) violation("chip-length", "opening a chip as %s for '%s' %s", p.c_str(), l.c_str(), threw ? "failed" : "succeeded");
                coverage("chip-length"); break;
            }
            bool threw = throws_std([&] {
                if (k == 3) abc::gpio_chip<L>(bad[3], "a consumer with a name that is longer than a consumer can have", lg.get());
                else if (k == 4) abc::gpio_chip<L>(0, nullptr, lg.get());
                else abc::gpio_chip<L>(bad[k], "test", lg.get()); }, "gpio_chip()");
            if (!threw) violation("bad-chip", "opening a chip with bad arguments succeeded");
            coverage("bad-chip");
            break;
        }
        case 1: {
            abc::gpio_chip_info i = chip[c]->chip_info();
            if (trouble() == before) { if (!i.is_valid || i.lines != bg.b.lines || std::string(i.name) != "gpiochip" + std::to_string(c) || std::string(i.label) != "board" + std::to_string(c)) violation("chip-info", "the info of chip %d is valid=%d name=%s lines=%u", c, i.is_valid, i.name, i.lines); }
            else if (i.is_valid) violation("chip-info-valid", "the info of a chip is valid although it could not be read");
            break;
        }
        case 2: {
            abc::gpio_line_info i = chip[c]->line_info(pos);
            bool ok = pos < bg.b.lines && trouble() == before;
            if (i.is_valid != ok) violation("line-info", "the info of line %u is valid=%d", pos, i.is_valid);
            if (ok && (i.offset != pos || std::string(i.name) != "line" + std::to_string(pos))) violation("line-info", "the info of line %u is that of line %u", pos, i.offset);
            if (ok) { auto& l = bg.line(c, pos); bool out = (i.flags & abc::gpio_line_flag::output) != 0; if (i.consumer != (l.fd >= 0 ? label[c] : std::string())) violation("consumer", "line %u is used by '%s', expected '%s'", pos, i.consumer, l.fd >= 0 ? label[c].c_str() : ""); if (out != (l.fd >= 0 && l.output)) violation("line-info", "the info of line %u has the wrong direction", pos); }
            break;
        }
        case 3: case 4: {
            bool out = choose(2, "ln.dir"), free_ = pos < bg.b.lines && bg.line(c, pos).fd < 0;
            held h; h.c = c; h.pos = pos;
            bool threw = throws_std([&] { if (out) h.out.reset(new abc::gpio_output_line<L>(chip[c].get(), pos, lg.get())); else h.in.reset(new abc::gpio_input_line<L>(chip[c].get(), pos, lg.get())); }, "gpio_line()");
            bool ok = free_ && trouble() == before;
            if (threw == ok) violation("line", "requesting line %u, which is %s, %s", pos, free_ ? "free" : "not free", threw ? "failed" : "succeeded");
            if (!threw) { if (bg.line(c, pos).output != out) violation("direction", "line %u was requested in the wrong direction", pos); lines.push_back(std::move(h)); coverage("line"); } else coverage("no-line");
            break;
        }
        default: {
            if (lines.empty()) break;
            size_t k = choose((uint32_t)lines.size(), "ln.which"); held& h = lines[k]; line_t& l = bg.line(h.c, h.pos);
            switch (choose(5, "ln.use")) {
            case 0: lines.erase(lines.begin() + (long)k); break;
            case 1: {                                            // a line that is moved goes on working
                if (h.out) { std::unique_ptr<abc::gpio_output_line<L>> m(new abc::gpio_output_line<L>(std::move(*h.out))); h.out = std::move(m); }
                else { std::unique_ptr<abc::gpio_input_line<L>> m(new abc::gpio_input_line<L>(std::move(*h.in))); h.in = std::move(m); }
                coverage("moved");
                if (l.fd < 0) violation("moved-line", "a line is released when it is moved");
                break;
            }
            case 2: {
                if (!h.out) break;
                uint32_t level = choose(4, "ln.level"); int was = l.level; size_t edges = l.edges.size();
                int64_t t0 = now(); bool timed = choose(3, "ln.timed") == 0; int64_t dur = timed ? (int64_t)pick(1, 3000, "ln.dur") * US : 0;
                uint32_t got = timed ? h.out->put_level(level, std::chrono::microseconds(dur / US)) : h.out->put_level(level);
                bool ok = level <= 1 && trouble() == before;
                if (got != (ok ? level : (uint32_t)abc::gpio_level::invalid)) violation("put-level", "putting level %u returned %u", level, got);
                if (ok && (l.level != (int)level || l.edges.size() != edges + 1)) violation("put-level", "putting level %u left the line at %d after %zu changes", level, l.level, l.edges.size() - edges);
                if (!ok && l.level != was) violation("put-level", "a failing put changed the level");
                if (ok && now() - t0 < dur) violation("too-soon", "putting a level for %lld us took %lld us", (long long)(dur / US), (long long)((now() - t0) / US));
                break;
            }
            case 3: {
                if (!h.in) break;
                int level = (int)choose(2, "ln.in"); l.signal = nullptr; l.level = level;
                uint32_t got = h.in->get_level();
                if (got != (trouble() == before ? (uint32_t)level : (uint32_t)abc::gpio_level::invalid)) violation("get-level", "a line at level %d reads %u", level, got);
                break;
            }
            default: {
                if (!h.in) break;
                int unit = choose(40, "ln.long") == 0 ? 3 : (int)choose(3, "ln.unit");
                int64_t one = (const int64_t[]){1, US, MS, SEC}[unit], timeout = unit == 3 ? SEC : (int64_t)pick(0, 3000, "ln.timeout") * US / one * one;
                int64_t when = now() + (unit == 3 ? (int64_t)pick(0, 1500, "ln.when") * MS : (int64_t)pick(0, 6000, "ln.when") * US); int level = (int)choose(2, "ln.in");
                if (choose(5, "ln.never") == 0) when = now() + 10 * SEC;
                l.signal = [=](int64_t t) { return t >= when ? level : 1 - level; };
                int64_t t0 = now();
                uint32_t got;
                switch (unit) {
                case 0: got = h.in->expect_level((uint32_t)level, std::chrono::nanoseconds(timeout)); break;
                case 1: got = h.in->expect_level((uint32_t)level, std::chrono::microseconds(timeout / US)); break;
                case 2: got = h.in->expect_level((uint32_t)level, std::chrono::milliseconds(timeout / MS)); break;
                default: got = h.in->expect_level((uint32_t)level, std::chrono::seconds(timeout / SEC)); coverage("long-wait");
                }
                int64_t t1 = now();
                if (got != (uint32_t)level && got != abc::gpio_level::invalid) violation("expect-level", "waiting for level %d returned %u", level, got);
                if (trouble() == before) {
                    if (when <= t0 + timeout && got != (uint32_t)level) violation("expect-missed", "the level changed %lld us into a wait of %lld us, and the wait timed out", (long long)((when - t0) / US), (long long)(timeout / US));
                    if (when > t1 && got == (uint32_t)level) violation("expect-level", "a level that the line did not have was seen");
                }
                if (t1 > t0 + timeout + 500 * US) violation("expect-late", "a wait of %lld us took %lld us", (long long)(timeout / US), (long long)((t1 - t0) / US));
                coverage(got == (uint32_t)level ? "expected" : "timed-out");
                l.signal = nullptr;
            }
            }
        }
        }
        if (dev::open_fds() != (int)lines.size()) violation("descriptor-leak", "%d descriptors are open for %zu lines", dev::open_fds(), lines.size());
        for (auto& h : lines) if (bg.line(h.c, h.pos).fd < 0) violation("line-lost", "a line that is in use was released");
    }
    lines.clear();
    if (dev::open_fds()) violation("descriptor-leak", "%d descriptors are open in the end", dev::open_fds());
    state_hash(bg.b.log.size() + 7919 * (uint64_t)bg.b.done[self_id()]);
}

// ---------------------------------------------------------------- G02: PWM emulator
static void p_emulator() {
    board_guard bg; log_holder lg(300); set_step_limit(200000000ull); scheduling();
    abc::gpio_chip<L> chip(0, "pwm", lg.get());
    bool io = chance(250, "cfg.io"), late = chance(250, "cfg.late");
    if (late) set_fault_rate(F_LATE_WAKE, 20);
    if (chance(200, "cfg.spurious")) set_fault_rate(F_SPURIOUS_WAKE, 50);
    for (unsigned round = pick(1, 3, "pwm.rounds"); round > 0; round--) {
        static const uint16_t fs_[] = {50, 100, 25, 1000, 333, 10, 2, 500};
        uint16_t freq = fs_[choose(8, "pwm.freq")]; int64_t period = 1000000 / freq * US;
        bool ranged = choose(2, "pwm.ranged");
        int64_t lo = 0, hi = period / US; int bad = 0;
        if (ranged) { lo = pick(0, (uint32_t)(period / US / 2), "pwm.lo"); hi = pick((uint32_t)lo, (uint32_t)(period / US), "pwm.hi"); if (choose(5, "pwm.bad") == 0) { bad = 1 + (int)choose(2, "pwm.badk"); if (bad == 1) { lo = hi + 1; } else hi = period / US + 1 + (int64_t)choose(1000, "pwm.over"); } }
        int nope = chance(150, "pwm.nope") ? 1 + (int)choose(3, "pwm.nopek") : 0;
        std::unique_ptr<abc::gpio_output_line<L>> other;
        if (nope == 1) other.reset(new abc::gpio_output_line<L>(&chip, 3, nullptr));
        if (nope == 2) set_fault_rate(F_THREAD_FAIL, 1000);
        int before_threads = live_threads();
        std::unique_ptr<abc::gpio_pwm_emulator<L>> pwm;
        bool threw = throws_std([&] {
            uint32_t pos = nope == 3 ? 99 : 3;
            if (ranged) { if (choose(2, "pwm.unit")) pwm.reset(new abc::gpio_pwm_emulator<L>(&chip, pos, std::chrono::microseconds(lo), std::chrono::microseconds(hi), freq, lg.get())); else pwm.reset(new abc::gpio_pwm_emulator<L>(&chip, pos, std::chrono::nanoseconds(lo * US), std::chrono::nanoseconds(hi * US), freq, lg.get())); }
            else pwm.reset(new abc::gpio_pwm_emulator<L>(&chip, pos, freq, lg.get())); }, "gpio_pwm_emulator()");
        set_fault_rate(F_THREAD_FAIL, 0);
        if (threw != (bad || nope)) violation("constructor", "an emulator with pulses from %lld to %lld us at %u Hz was %s", (long long)lo, (long long)hi, freq, threw ? "refused" : "accepted");
        if (threw) {
            coverage(bad ? "bad-pulse" : "no-line-or-thread");
            other.reset();
            for (int k = 0; k < 50 && live_threads() > before_threads; k++) sim::sleep_ns(100 * MS);
            if (live_threads() > before_threads) violation("thread-leak", "a thread of an emulator that could not be made is left");
            if (dev::open_fds()) violation("descriptor-leak", "%d descriptors are open after an emulator could not be made", dev::open_fds());
            continue;
        }
        line_t& l = bg.line(0, 3); l.edges.clear();
        int64_t settle = 210 * MS + 2 * period + (late ? 100 * MS : 0);
        if (io) bg.b.fail = pick(1, 300, "f.ioctl");
        for (unsigned k = choose(6, "pwm.sets"); k > 0; k--) {
            uint16_t dc = (uint16_t)(choose(3, "pwm.edge") ? pick(1, 99, "pwm.dc") : (const uint16_t[]){0, 100, 101, 65535}[choose(4, "pwm.dce")]);
            uint16_t set = dc > 100 ? 100 : dc;
            switch (choose(5, "pwm.how")) {
            case 0: { int64_t d = (int64_t)pick(1, 400, "pwm.for") * MS, t0 = now(); pwm->set_duty_cycle(dc, std::chrono::milliseconds(d / MS)); if (now() - t0 < d) violation("too-soon", "a duty cycle for %lld ms took %lld ms", (long long)(d / MS), (long long)((now() - t0) / MS)); set = 0; break; }
            case 1: {                                             // two threads set it; the last one wins
                uint16_t a = dc, b = (uint16_t)pick(0, 100, "pwm.dcb");
                std::thread x([&] { pwm->set_duty_cycle(a); }), y([&] { pwm->set_duty_cycle(b); }); x.join(); y.join();
                pwm->set_duty_cycle(dc); break;
            }
            case 2: pwm->set_duty_cycle((uint16_t)pick(0, 100, "pwm.dcb")); sim::sleep_ns((int64_t)choose(30, "pwm.brief") * MS); pwm->set_duty_cycle(dc); break;
            default: pwm->set_duty_cycle(dc);
            }
            if (choose(4, "pwm.quick") == 0) { sim::sleep_ns((int64_t)choose(50, "pwm.nap") * MS); continue; }
            sim::sleep_ns(settle);
            if (io) continue;
            if (l.edges.empty()) violation("no-signal", "nothing was put on the line");
            size_t from = l.edges.size() - 1;
            int64_t t0 = now(), window = 3 * period + 220 * MS;
            sim::sleep_ns(window);
            int64_t high = period * 0 + (lo + (int64_t)set * (hi - lo) / 100) * US;
            int64_t tol = 150 * US;
            if (set == 0 || set == 100) { for (size_t i = from; i < l.edges.size(); i++) if (l.edges[i].level != (set ? 1 : 0)) violation("level", "with a duty cycle of %u%% the line went to level %d", set, l.edges[i].level); }
            else if (!late) {
                int pulses = 0;
                for (size_t i = from; i + 2 < l.edges.size(); i++) {
                    if (l.edges[i].level != 1) continue;
                    if (l.edges[i + 1].level != 0 || l.edges[i + 2].level != 1) violation("pulse", "the line went to levels 1, %d, %d", l.edges[i + 1].level, l.edges[i + 2].level);
                    int64_t h = l.edges[i + 1].t - l.edges[i].t, p = l.edges[i + 2].t - l.edges[i].t;
                    if (h < high - tol || h > high + tol) violation("duty-cycle", "at %u%% of %lld to %lld us the line was high for %lld us, not %lld", set, (long long)lo, (long long)hi, (long long)(h / US), (long long)(high / US));
                    if (p < period - tol || p > period + tol) violation("frequency", "at %u Hz a period took %lld us", freq, (long long)(p / US));
                    pulses++;
                }
                if (pulses < 2) violation("stalled", "%d pulses in %lld ms at %u Hz", pulses, (long long)((now() - t0) / MS), freq);
                coverage("pulses");
            }
        }
        if (choose(2, "pwm.wait")) sim::sleep_ns((int64_t)choose(1000, "pwm.before") * MS);
        int64_t t0 = now();
        bg.b.fail = choose(2, "pwm.failend") ? bg.b.fail : 0;
        bool sure = bg.b.fail == 0;
        pwm.reset();
        if (now() - t0 > settle) violation("slow-end", "destroying an emulator took %lld ms at %u Hz", (long long)((now() - t0) / MS), freq);
        if (sure && (l.edges.empty() || l.edges.back().level)) violation("left-high", "the line was left at level %d", l.edges.empty() ? -1 : l.edges.back().level);
        size_t n = l.edges.size(); bg.b.fail = 0;
        sim::sleep_ns(2 * period + 300 * MS);
        if (l.edges.size() != n) violation("after-end", "the line changed after the emulator was gone");
        if (live_threads() > before_threads) violation("thread-leak", "a thread of the emulator is left");
        if (dev::open_fds()) violation("descriptor-leak", "%d descriptors are open after the emulator is gone", dev::open_fds());
        state_hash(n * 31 + (uint64_t)period);
    }
}

// ---------------------------------------------------------------- G03: SMBus transfers
static uint16_t swapped(uint16_t w) { return (uint16_t)(w << 8 | w >> 8); }
static void p_transfers() {
    board_guard bg; log_holder lg(300); set_step_limit(100000000ull); scheduling();
    bool faults = chance(600, "cfg.faults");
    // the targets: every register holds a word and a block; reads without a register deliver a sequence
    std::map<int, std::map<int, uint16_t>> words; std::map<int, std::map<int, std::string>> blocks; std::map<int, uint8_t> next; std::map<int, std::string> seen;
    bg.b.bus = [&](int addr, i2c_smbus_ioctl_data* d) -> int {
        bool rd = d->read_write == I2C_SMBUS_READ;
        switch (d->size) {
        case I2C_SMBUS_BYTE: if (rd) { uint8_t v = next[addr] = (uint8_t)(next[addr] * 5 + 17); d->data->byte = v; seen[self_id()] += (char)v; } else words[addr][d->command] = 0xffff; return 0;
        case I2C_SMBUS_BYTE_DATA: if (rd) d->data->byte = (uint8_t)words[addr][d->command]; else words[addr][d->command] = d->data->byte; return 0;
        case I2C_SMBUS_WORD_DATA: if (rd) d->data->word = words[addr][d->command]; else words[addr][d->command] = d->data->word; return 0;
        case I2C_SMBUS_BLOCK_DATA:
            if (rd) { std::string& b = blocks[addr][d->command]; d->data->block[0] = (uint8_t)b.size(); memcpy(&d->data->block[1], b.data(), b.size()); return 0; }
            if (d->data->block[0] < 1 || d->data->block[0] > 32) return -EINVAL;
            blocks[addr][d->command].assign((char*)&d->data->block[1], d->data->block[0]); return 0;
        default: violation("protocol", "a transfer of kind %d", (int)d->size);
        }
    };
    if (faults && choose(5, "tr.ctor") == 0) {
        bg.b.fail = 500; set_fault_rate(F_OPEN_FAIL, 300);
        uint64_t f = faults_injected;
        bool threw = throws_std([&] { abc::gpio_smbus<L> b(1, lg.get()); }, "gpio_smbus()");
        if (threw != (faults_injected != f)) violation("constructor", "opening the bus %s", threw ? "failed" : "succeeded although it had failed");
        if (dev::open_fds()) violation("descriptor-leak", "%d descriptors are open", dev::open_fds());
        bg.b.fail = 0; set_fault_rate(F_OPEN_FAIL, 0);
        if (!throws_std([&] { abc::gpio_smbus<L> b("/dev/i2c-9", lg.get()); }, "gpio_smbus()")) violation("constructor", "opening a bus that does not exist succeeded");
        if (!throws_std([&] { abc::gpio_smbus<L> b((const char*)nullptr, lg.get()); }, "gpio_smbus()")) violation("constructor", "opening no bus succeeded");
        if (dev::open_fds()) violation("descriptor-leak", "%d descriptors are open", dev::open_fds());
        coverage("constructor");
    }
    if (chance(150, "tr.length")) {                            // a path as long as it may be, and longer
        size_t n = abc::gpio_max_path - 2 + choose(4, "tr.length.n"); std::string p = "/dev/"; while (p.size() + 5 + 2 <= n) p += "./"; if (p.size() + 5 < n) p += "/"; p += "i2c-1";
        heap_string hp(p);
        bool threw = throws_std([&] { abc::gpio_smbus<L> b(hp.p, lg.get()); if (p != b.path()) violation("bus", "the bus opened as %s has path %s", p.c_str(), b.path()); }, "gpio_smbus()");
        if (threw != (n >= abc::gpio_max_path)) violation("constructor", "opening the bus by a path of %zu chars %s", n, threw ? "failed" : "succeeded");
        if (dev::open_fds()) violation("descriptor-leak", "%d descriptors are open", dev::open_fds());
        coverage("bus-path-length");
    }
    std::unique_ptr<abc::gpio_smbus<L>> bus(choose(2, "tr.path") ? new abc::gpio_smbus<L>("/dev/i2c-1", lg.get()) : new abc::gpio_smbus<L>(1, lg.get()));
    if (std::string(bus->path()) != "/dev/i2c-1" || bus->functionality() != 0x0eff0001ul) violation("bus", "the bus has path %s and functionality %lx", bus->path(), bus->functionality());
    if (faults) bg.b.fail = pick(1, 300, "f.ioctl");
    unsigned T = pick(1, 4, "tr.threads");
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < T; t++) ts.emplace_back([&, t] {
        int me = self_id();
        struct tgt { abc::gpio_smbus_target<L> t; bool swap; }; std::vector<tgt> targets;
        static const uint8_t addrs[] = {0x14, 0x68, 0x70, 0x01, 0x00, 0x7f};
        for (unsigned k = pick(1, 3, "tr.targets"); k > 0; k--) { bool s = choose(2, "tr.swap"); targets.push_back({abc::gpio_smbus_target<L>(addrs[choose(6, "tr.addr")], 72000000, s, lg.get()), s}); }
        std::map<std::pair<int, int>, uint16_t> w; std::map<std::pair<int, int>, std::string> b;          // what this thread knows about its registers; -1: unknown
        std::map<std::pair<int, int>, bool> known, bknown;
        for (unsigned n = pick(1, 40, "tr.n"); n > 0; n--) {
            tgt& g = targets[choose((uint32_t)targets.size(), "tr.which")]; int addr = g.t.address(); int reg = (int)(t * 16 + choose(8, "tr.reg")); auto key = std::make_pair(addr, reg);
            size_t log0 = bg.b.log.size(); int failed0 = bg.b.failed[me]; seen[me].clear();
            bg.b.want_addr[me] = addr;
            bool ok = false, possible = true; unsigned transfers = 1; int rw = 0, kind = 0, cmd = reg, value = 0; std::string data; const char* name = "";
            unsigned op = choose(9, "tr.op");
            uint16_t word = (uint16_t)choose(65536, "tr.value"), gw = 0; uint8_t byte = (uint8_t)word, gb = 0;
            switch (op) {
            case 0: name = "put_nodata"; ok = bus->put_nodata(g.t, (uint8_t)reg); kind = I2C_SMBUS_BYTE; if (ok) { w[key] = 0xffff; } break;
            case 1: name = "put_byte"; ok = bus->put_byte(g.t, (uint8_t)reg, byte); kind = I2C_SMBUS_BYTE_DATA; value = byte; if (ok) { w[key] = byte; } break;
            case 2: name = "put_word"; ok = bus->put_word(g.t, (uint8_t)reg, word); kind = I2C_SMBUS_WORD_DATA; value = g.swap ? swapped(word) : word; if (ok) { w[key] = (uint16_t)value; } break;
            case 3: {
                name = "put_block"; size_t size = choose(4, "tr.bigk") ? pick(1, 32, "tr.size") : (const size_t[]){0, 33, 64, 255, 256, 300, 5000}[choose(7, "tr.big")];
                std::unique_ptr<char[]> exact(new char[size ? size : 1]); for (size_t i = 0; i < size; i++) exact[i] = (char)(word + i * 7); data.assign(exact.get(), size);
                ok = bus->put_block(g.t, (uint8_t)reg, exact.get(), size); kind = I2C_SMBUS_BLOCK_DATA; possible = size >= 1 && size <= 32; if (ok) { b[key] = data; }
                break;
            }
            case 4: name = "get_noreg"; ok = bus->get_noreg(g.t, gb); rw = I2C_SMBUS_READ; kind = I2C_SMBUS_BYTE; cmd = 0; if (ok && (seen[me].size() != 1 || (uint8_t)seen[me][0] != gb)) violation("data", "a byte came back as %02x", gb); break;
            case 5: name = "get_noreg_2"; ok = bus->get_noreg_2(g.t, gw); rw = I2C_SMBUS_READ; kind = I2C_SMBUS_BYTE; cmd = 0; transfers = 2;
                if (ok) { if (seen[me].size() != 2) violation("data", "two bytes took %zu reads", seen[me].size()); uint8_t a = (uint8_t)seen[me][0], z = (uint8_t)seen[me][1]; uint16_t want = g.swap ? (uint16_t)(a << 8 | z) : (uint16_t)(z << 8 | a); if (gw != want) violation("data", "bytes %02x and %02x came back as %04x", a, z, gw); } break;
            case 6: name = "get_byte"; ok = bus->get_byte(g.t, (uint8_t)reg, gb); rw = I2C_SMBUS_READ; kind = I2C_SMBUS_BYTE_DATA; if (ok && w.count(key) && gb != (uint8_t)w[key]) violation("data", "register %d of target %02x reads %02x, expected %02x", reg, addr, gb, (uint8_t)w[key]); break;
            case 7: name = "get_word"; ok = bus->get_word(g.t, (uint8_t)reg, gw); rw = I2C_SMBUS_READ; kind = I2C_SMBUS_WORD_DATA; if (ok && w.count(key)) { uint16_t want = g.swap ? swapped(w[key]) : w[key]; if (gw != want) violation("data", "register %d of target %02x reads %04x, expected %04x", reg, addr, gw, want); } break;
            default: {
                name = "get_block"; size_t room = choose(41, "tr.room"), size = room; std::unique_ptr<char[]> exact(new char[room ? room : 1]);
                size_t have = blocks[addr][reg].size();
                ok = bus->get_block(g.t, (uint8_t)reg, exact.get(), size); rw = I2C_SMBUS_READ; kind = I2C_SMBUS_BLOCK_DATA; possible = have <= room;
                if (ok && (size != have || std::string(exact.get(), size) != blocks[addr][reg])) violation("data", "a block of %zu bytes came back as %zu bytes", have, size);
                if (!ok && size > room) violation("data", "a failed read grew the size to %zu", size);
                transfers = 99; break;
            }
            }
            bg.b.want_addr.erase(me);
            bool failed = bg.b.failed[me] != failed0;
            if (ok && failed) violation("unreported", "%s succeeded although the device reported an error", name);
            if (ok && !possible) violation("impossible", "%s of a block that does not fit succeeded", name);
            if (!ok && !failed && possible) violation("spurious-error", "%s failed although nothing was wrong", name);
            std::vector<transfer> mine; for (size_t i = log0; i < bg.b.log.size(); i++) if (bg.b.log[i].thread == me) mine.push_back(bg.b.log[i]);
            if (ok && transfers != 99 && mine.size() != transfers) violation("transfers", "%s took %zu transfers", name, mine.size());
            for (auto& x : mine) {
                if (x.addr != addr || x.cmd != cmd || x.size != kind || x.rw != rw) violation("transfer", "%s on register %d of target %02x became transfer %d of kind %d to register %d of target %02x", name, reg, addr, x.rw, x.size, x.cmd, x.addr);
                if (op >= 1 && op <= 2 && x.value != value) violation("transfer", "%s of %04x sent %04x", name, op == 1 ? byte : word, x.value);
                if (op == 3 && (!possible ? data.size() != 0 : x.block != data)) violation("transfer", "%s of %zu bytes sent %zu", name, data.size(), x.block.size());
            }
            if (!ok && !rw && failed) { w.erase(key); b.erase(key); }
            coverage(ok ? "done" : failed ? "device-error" : "refused");
            ev("%u %s %02x %d %d", t, name, addr, reg, ok);
        }
    });
    for (auto& t : ts) t.join();
    state_hash(bg.b.log.size());
    bus.reset();
    if (dev::open_fds()) violation("descriptor-leak", "%d descriptors are open after the bus is gone", dev::open_fds());
}

// ---------------------------------------------------------------- G04: PWM, motors and servos over SMBus
static void p_smbus_pwm() {
    board_guard bg; log_holder lg(300); set_step_limit(40000000ull);
    std::map<int, int> regs; bool swap = choose(2, "sp.swap"); const int ADDR = 0x14;
    bg.b.bus = [&](int addr, i2c_smbus_ioctl_data* d) -> int {
        if (addr != ADDR || d->read_write != I2C_SMBUS_WRITE || d->size != I2C_SMBUS_WORD_DATA) violation("transfer", "a transfer that is not a word to the controller");
        regs[d->command] = swap ? swapped(d->data->word) : d->data->word; return 0;
    };
    abc::gpio_smbus<L> bus(1, lg.get());
    abc::gpio_chip<L> chip(0, "motor", lg.get());
    for (unsigned round = pick(1, 4, "sp.rounds"); round > 0; round--) {
        uint64_t clock = choose(2, "sp.clk") ? 72000000ull : choose(2, "sp.odd") ? (uint64_t)pick(1000000, 200000000, "sp.hz") : (uint64_t)pick(1, 200, "sp.mhz") * 1000000ull;
        uint16_t freq = (uint16_t)(choose(2, "sp.fk") ? 50 : choose(2, "sp.fl") ? pick(1, 1000, "sp.f") : pick(1, 60000, "sp.fbig"));
        abc::gpio_smbus_target<L> hat((uint8_t)ADDR, clock, swap, lg.get());
        int rp = 0x20 + (int)choose(16, "sp.reg"), ra = 0x44 + (int)choose(4, "sp.timer"), rs = 0x40 + (int)choose(4, "sp.timer2");
        regs.clear();
        int kind = (int)choose(4, "sp.kind");                     // plain PWM, PWM with a range, motor, servo
        int64_t period_us = 1000000 / freq, lo = 0, hi = 0;
        if (kind == 1 || kind == 3) { lo = pick(0, (uint32_t)(period_us / 2), "sp.lo"); hi = pick((uint32_t)lo, (uint32_t)period_us, "sp.hi"); if (hi == 0) hi = 1; if (hi > period_us) continue; }
        std::unique_ptr<abc::gpio_smbus_pwm<L>> pwm; std::unique_ptr<abc::gpio_smbus_motor<L>> motor; std::unique_ptr<abc::gpio_smbus_servo<std::chrono::milliseconds, L>> servo;
        std::chrono::milliseconds hold(pick(1, 500, "sp.hold"));
        if (choose(10, "sp.null") == 0) {
            int fds = dev::open_fds();
            if (!throws_std([&] { if (kind == 2) abc::gpio_smbus_motor<L>(&chip, 4, nullptr, hat, freq, (uint8_t)rp, (uint8_t)ra, (uint8_t)rs, lg.get()); else abc::gpio_smbus_pwm<L>(nullptr, hat, freq, (uint8_t)rp, (uint8_t)ra, (uint8_t)rs, lg.get()); }, "gpio_smbus_pwm()")) violation("constructor", "PWM without a bus was accepted");
            if (dev::open_fds() != fds) violation("descriptor-leak", "a failed constructor leaves %d descriptors, there were %d", dev::open_fds(), fds);
            continue;
        }
        switch (kind) {
        case 0: pwm.reset(new abc::gpio_smbus_pwm<L>(&bus, hat, freq, (uint8_t)rp, (uint8_t)ra, (uint8_t)rs, lg.get())); break;
        case 1: pwm.reset(new abc::gpio_smbus_pwm<L>(&bus, hat, std::chrono::microseconds(lo), std::chrono::microseconds(hi), freq, (uint8_t)rp, (uint8_t)ra, (uint8_t)rs, lg.get())); break;
        case 2: motor.reset(new abc::gpio_smbus_motor<L>(&chip, 4, &bus, hat, freq, (uint8_t)rp, (uint8_t)ra, (uint8_t)rs, lg.get())); break;
        default: servo.reset(new abc::gpio_smbus_servo<std::chrono::milliseconds, L>(&bus, hat, std::chrono::microseconds(lo), std::chrono::microseconds(hi), hold, freq, (uint8_t)rp, (uint8_t)ra, (uint8_t)rs, lg.get())); break;
        }
        if (!regs.count(ra) || !regs.count(rs)) violation("setup", "the timer was not programmed");
        uint64_t arr = (uint64_t)regs[ra] + 1, psc = (uint64_t)regs[rs] + 1, period = clock / freq;
        if (arr * psc > period || period - arr * psc > arr) violation("frequency", "at %llu Hz and a clock of %llu Hz the timer counts %llu x %llu, the period is %llu", (unsigned long long)freq, (unsigned long long)clock, (unsigned long long)arr, (unsigned long long)psc, (unsigned long long)period);
        if (arr < 8) violation("resolution", "at %u Hz and a clock of %llu Hz the timer counts to %llu only", freq, (unsigned long long)clock, (unsigned long long)arr);
        bool fwd = true;
        for (unsigned k = pick(1, 8, "sp.sets"); k > 0; k--) {
            uint16_t dc = (uint16_t)(choose(3, "sp.edge") ? pick(0, 100, "sp.dc") : (const uint16_t[]){0, 100, 101, 65535}[choose(4, "sp.dce")]), set = dc > 100 ? 100 : dc;
            if (chance(100, "sp.move")) {                        // what is moved goes on working
                if (pwm) { std::unique_ptr<abc::gpio_smbus_pwm<L>> to(new abc::gpio_smbus_pwm<L>(std::move(*pwm))); pwm = std::move(to); }
                else if (motor) { std::unique_ptr<abc::gpio_smbus_motor<L>> to(new abc::gpio_smbus_motor<L>(std::move(*motor))); motor = std::move(to); if (bg.line(0, 4).fd < 0) violation("moved", "a motor that is moved releases its line"); }
                else { std::unique_ptr<abc::gpio_smbus_servo<std::chrono::milliseconds, L>> to(new abc::gpio_smbus_servo<std::chrono::milliseconds, L>(std::move(*servo))); servo = std::move(to); }
                coverage("moved");
            }
            if (motor && choose(3, "sp.fwd") == 0) { fwd = choose(2, "sp.dir"); motor->set_forward(fwd); if (motor->is_forward() != fwd || bg.line(0, 4).level != (fwd ? 0 : 1)) violation("direction", "a motor set %s has its line at %d", fwd ? "forward" : "backward", bg.line(0, 4).level); }
            int during = -1; int64_t t0 = now();
            if (servo || (pwm && choose(4, "sp.timed") == 0)) {
                bool looked = false;
                std::thread look([&] { sim::sleep_ns(hold.count() * MS / 2); during = regs.count(rp) ? regs[rp] : -1; looked = true; });
                if (servo) servo->set_duty_cycle(dc); else pwm->set_duty_cycle(dc, hold);
                int64_t took = now() - t0; look.join();
                if (took < hold.count() * MS) violation("too-soon", "a duty cycle for %lld ms took %lld ms", (long long)hold.count(), (long long)(took / MS));
                if (regs[rp] != 0) violation("after", "after the duration the pulse is %d", regs[rp]);
                coverage("timed");
            } else { if (pwm) pwm->set_duty_cycle(dc); else motor->set_duty_cycle(dc); during = regs.count(rp) ? regs[rp] : -1; }
            if (during < 0) violation("setup", "no pulse width was programmed");
            double ticks = (double)during, want, tol;
            if (set == 0) want = 0, tol = 0; else if (set == 100) want = (double)arr, tol = 0;
            else if (kind == 0 || kind == 2) want = (double)arr * set / 100, tol = 1;
            else { want = (double)clock * ((double)lo + (double)set * (double)(hi - lo) / 100) / 1e6 / (double)psc; tol = 3; }
            if (std::abs(ticks - want) > tol) violation("pulse-width", "at %u%% of %lld to %lld us, %u Hz, clock %llu Hz the pulse is %g of %llu ticks, expected %g", set, (long long)lo, (long long)hi, freq, (unsigned long long)clock, ticks, (unsigned long long)arr, want);
            coverage(kind == 0 ? "pwm" : kind == 1 ? "ranged" : kind == 2 ? "motor" : "servo");
        }
        // an error of the bus does not stay: the next setting works
        if (!servo && chance(300, "sp.err")) {
            bg.b.fail = 1000; if (pwm) pwm->set_duty_cycle(30); else motor->set_duty_cycle(30);
            bg.b.fail = 0; if (pwm) pwm->set_duty_cycle(100); else motor->set_duty_cycle(100);
            if (regs[rp] != (int)arr) violation("after-error", "after an error of the bus the pulse is %d of %llu ticks", regs[rp], (unsigned long long)arr);
            coverage("bus-error");
        }
        state_hash(arr * 65536 + psc);
    }
}

// ---------------------------------------------------------------- G05: ultrasonic distance
template <typename Scale> static void ultrasonic() {
    board_guard bg; log_holder lg(200); set_step_limit(400000000ull);
    abc::gpio_chip<L> chip(0, "sonic", lg.get());
    if (chance(200, "us.ctor")) {                                    // the second line is taken
        abc::gpio_input_line<L> taken(&chip, 6, nullptr);
        if (!throws_std([&] { abc::gpio_ultrasonic<Scale, L> u(&chip, 5, 6, lg.get()); }, "gpio_ultrasonic()")) violation("constructor", "a sensor without its echo line was accepted");
        if (dev::open_fds() != 1) violation("descriptor-leak", "a failed constructor leaves %d descriptors", dev::open_fds() - 1);
    }
    abc::gpio_ultrasonic<Scale, L> first(&chip, 5, 6, lg.get());
    abc::gpio_ultrasonic<Scale, L> sensor(std::move(first));
    bool io = chance(200, "cfg.io");
    double unit = (double)Scale::num / Scale::den;                   // meters
    int64_t up = -1, down = -1; double echo_m = 0; int64_t delay = 0; int mode = 0; bool was_high = false;
    bg.b.on_level = [&](int, uint32_t pos, int level) {
        if (pos != 5) return;
        if (level) was_high = true;
        else if (was_high) { was_high = false; if (mode == 1) { up = down = -1; } else { up = now() + delay; down = up + (int64_t)(echo_m * 2 / 343 * 1e9); } }
    };
    bg.line(0, 6).signal = [&](int64_t t) { return mode == 2 ? 1 : up >= 0 && t >= up && t < down ? 1 : 0; };
    for (unsigned k = pick(1, 5, "us.n"); k > 0; k--) {
        double max_m = pick(1, 150, "us.max") / 100.0; size_t max = (size_t)(max_m / unit); if (max == 0) continue;
        echo_m = pick(1, 200, "us.echo") / 100.0; delay = (int64_t)pick(50, 700, "us.delay") * US; mode = choose(5, "us.mode") == 0 ? 1 + (int)choose(2, "us.modek") : 0; up = down = -1;
        if (io) bg.b.fail = pick(1, 100, "f.ioctl");
        int64_t t0 = now(); uint64_t before = faults_injected;
        size_t d = sensor.measure_distance(max);
        int64_t took = now() - t0, budget = (int64_t)((double)max * unit * 2 / 343 * 1e9);
        bg.b.fail = 0;
        if (took > budget + 3 * MS) violation("too-long", "measuring up to %zu took %lld us, the sound takes %lld us", max, (long long)(took / US), (long long)(budget / US));
        double tol = std::max(1.0, 0.02 / unit);                     // 2 cm
        if ((double)d > (double)max + tol) violation("beyond", "%zu was measured, the limit was %zu", d, max);
        if (before == faults_injected) {
            int64_t need = delay + (int64_t)(echo_m * 2 / 343 * 1e9), slack = 60 * US;
            if (mode == 0 && need + slack < budget && std::abs((double)d - echo_m / unit) > tol) violation("distance", "an obstacle at %g was measured at %zu (limit %zu)", echo_m / unit, d, max);
            if ((mode || need > budget + slack) && d != max) violation("distance", "without an obstacle up to %zu the distance is %zu", max, d);
            coverage(mode ? "no-echo" : need > budget ? "too-far" : "measured");
        } else coverage("device-error");
        if (down > now()) sim::sleep_ns(down - now());
        sim::sleep_ns(5 * MS);
        ev("max %zu -> %zu", max, d); state_hash(max * 1000 + d);
    }
    bg.b.on_level = nullptr;
}
static void p_ultrasonic() {
    switch (choose(6, "cfg.scale")) {
        case 0: ultrasonic<std::centi>(); break; case 1: ultrasonic<std::milli>(); break; case 2: ultrasonic<std::ratio<1, 10>>(); break;
        case 3: ultrasonic<std::ratio<1>>(); break; case 4: ultrasonic<std::micro>(); break; default: ultrasonic<std::ratio<254, 10000>>();
    }
    if (dev::open_fds()) violation("descriptor-leak", "%d descriptors are open", dev::open_fds());
}

// ---------------------------------------------------------------- the motion sensor and the grayscale sensor
struct sensors {
    int16_t raw[7] = {0}; int noise = 0; std::map<int, int> config; bool failed_reg[256] = {false}; int last_gray = -1; std::string gray_bytes; std::map<int, uint16_t> gray;
    int reads = 0;
    static int channel(int reg) { static const int r[] = {0x3b, 0x3d, 0x3f, 0x43, 0x45, 0x47, 0x41}; for (int i = 0; i < 7; i++) if (r[i] == reg) return i; return -1; }
    int answer(int addr, i2c_smbus_ioctl_data* d, int motion_addr, int gray_addr, bool gray_swap) {
        if (addr == motion_addr) {
            if (d->read_write == I2C_SMBUS_WRITE) { if (d->size != I2C_SMBUS_BYTE_DATA) violation("transfer", "configuring the motion sensor with a transfer of kind %d", (int)d->size); config[d->command] = d->data->byte; return 0; }
            int c = channel(d->command); if (c < 0 || d->size != I2C_SMBUS_WORD_DATA) violation("transfer", "reading register %02x of the motion sensor with a transfer of kind %d", (int)d->command, (int)d->size);
            int v = raw[c]; if (noise && c < 6) v += (reads++ & 1) ? noise : -noise;
            d->data->word = swapped((uint16_t)(int16_t)v); return 0;         // high byte first
        }
        if (addr == gray_addr) {
            if (d->read_write == I2C_SMBUS_WRITE) { last_gray = d->command; uint16_t v = gray.count(last_gray) ? gray[last_gray] : 0xdead; gray_bytes = gray_swap ? std::string{(char)(v >> 8), (char)v} : std::string{(char)v, (char)(v >> 8)}; return 0; }
            if (d->size != I2C_SMBUS_BYTE || gray_bytes.empty()) return -EIO;
            d->data->byte = (uint8_t)gray_bytes[0]; gray_bytes.erase(0, 1); return 0;
        }
        return -ENXIO;
    }
};
static const int max_of[] = {16, 16, 16, 2000, 2000, 2000};
static void p_sensors() {
    board_guard bg; log_holder lg(300); set_step_limit(100000000ull); scheduling();
    sensors s; bool gswap = choose(2, "se.gswap");
    bg.b.bus = [&](int addr, i2c_smbus_ioctl_data* d) { return s.answer(addr, d, 0x68, 0x14, gswap); };
    abc::gpio_smbus<L> bus(1, lg.get());
    if (chance(100, "se.null") && (!throws_std([&] { abc::gpio_smbus_motion<L> m(nullptr, lg.get()); }, "gpio_smbus_motion()") || !throws_std([&] { abc::gpio_smbus_target<L> g(0x14, 1, gswap); abc::gpio_smbus_grayscale<L> m(nullptr, g, 0, 1, 2, lg.get()); }, "gpio_smbus_grayscale()"))) violation("constructor", "a sensor without a bus was accepted");
    std::unique_ptr<abc::gpio_smbus_motion<L>> motion(new abc::gpio_smbus_motion<L>(&bus, lg.get()));
    if (s.config[0x6b] != 0 || s.config[0x1b] != 3 << 3 || s.config[0x1c] != 3 << 3) violation("setup", "the motion sensor is configured with %02x, %02x, %02x", s.config[0x6b], s.config[0x1b], s.config[0x1c]);
    abc::gpio_smbus_target<L> gt(0x14, 72000000, gswap, lg.get());
    abc::gpio_smbus_grayscale<L> gray0(&bus, gt, 0x10, 0x11, 0x12, lg.get());
    abc::gpio_smbus_grayscale<L> gray(std::move(gray0));
    for (int r = 0x10; r < 0x13; r++) s.gray[r] = (uint16_t)choose(65536, "se.gray0");
    auto randomize = [&] { for (auto& v : s.raw) switch (choose(4, "se.rk")) { case 0: v = (int16_t)((int)choose(200, "se.small") - 100); break; case 1: v = (int16_t)((int)choose(65536, "se.any") - 32768); break; case 2: v = (const int16_t[]){0, 32767, -32768, 2048}[choose(4, "se.edge")]; break; default: v = (int16_t)((int)choose(8000, "se.mid") - 4000); } };
    int16_t cal[7] = {0};
    // another user of the bus
    bool stop = false; std::thread other;
    if (chance(400, "se.other")) other = std::thread([&] { while (!stop) { uint16_t a = 0, b = 0, c = 0; gray.get_values(a, b, c); if (a != s.gray[0x10] || b != s.gray[0x11] || c != s.gray[0x12]) violation("grayscale", "the grayscale sensor reads %04x %04x %04x, expected %04x %04x %04x", a, b, c, s.gray[0x10], s.gray[0x11], s.gray[0x12]); coverage("both-sensors"); sim::sleep_ns(3 * MS); } });
    for (unsigned n = pick(1, 10, "se.n"); n > 0; n--) {
        uint16_t mask = (uint16_t)(choose(3, "se.maskk") ? choose(0x80, "se.mask") : 0x7f);
        randomize(); s.noise = 0;
        if (chance(100, "se.move")) { std::unique_ptr<abc::gpio_smbus_motion<L>> to(new abc::gpio_smbus_motion<L>(std::move(*motion))); motion = std::move(to); coverage("sensor-moved"); }
        switch (choose(5, "se.op")) {
        case 0: {
            for (auto& v : s.raw) if (v > 32000) v = 32000; else if (v < -32000) v = -32000;
            s.noise = choose(2, "se.noisy") ? (int)choose(50, "se.noise") : 0;
            int pairs = 0; for (int c = 0; c < 6; c++) pairs += mask >> c & 1;
            if (pairs % 2 == 0) s.noise = 0;                       // the noise alternates by reads: keep it centred
            motion->calibrate(mask);
            const abc::gpio_smbus_motion_measurements& m = motion->calibration();
            int16_t got[] = {m.accel_x, m.accel_y, m.accel_z, m.gyro_x, m.gyro_y, m.gyro_z};
            for (int c = 0; c < 6; c++) { int want = mask >> c & 1 ? s.raw[c] : 0; if (std::abs(got[c] - want) > 1) violation("calibration", "channel %d measures %d, it is calibrated to %d", c, want, got[c]); cal[c] = got[c]; }
            coverage("calibrated");
            break;
        }
        case 1: {
            uint16_t l = 1, c = 2, r = 3; if (other.joinable()) break;
            gray.get_values(l, c, r);
            if (l != s.gray[0x10] || c != s.gray[0x11] || r != s.gray[0x12]) violation("grayscale", "the grayscale sensor reads %04x %04x %04x, expected %04x %04x %04x", l, c, r, s.gray[0x10], s.gray[0x11], s.gray[0x12]);
            for (int k = 0x10; k < 0x13; k++) s.gray[k] = (uint16_t)choose(65536, "se.gray");
            break;
        }
        case 2: {                                                   // a channel that cannot be read is zero, not an old or arbitrary value
            if (other.joinable()) break;
            bg.b.fail = pick(100, 900, "f.ioctl");
            std::vector<int> okay; auto bus0 = bg.b.bus;
            bg.b.bus = [&](int addr, i2c_smbus_ioctl_data* d) { int r = bus0(addr, d); if (!r) okay.push_back(sensors::channel(d->command)); return r; };
            abc::gpio_smbus_motion_measurements m; memset((void*)&m, 0x5a, sizeof m);
            motion->get_measurements(mask, m);
            bg.b.bus = bus0; bg.b.fail = 0;
            int16_t got[] = {m.accel_x, m.accel_y, m.accel_z, m.gyro_x, m.gyro_y, m.gyro_z, m.temperature};
            for (int c = 0; c < 7; c++) { bool read = false; for (int o : okay) read |= o == c; int want = read ? s.raw[c] : 0; if (got[c] != want) violation("failed-read", "channel %d, which %s be read, measures %d, not %d", c, read ? "could" : "could not", got[c], want); }
            coverage("device-error");
            break;
        }
        default: {
            abc::gpio_smbus_motion_values v; motion->get_values(mask, v);
            double got[] = {v.accel_x, v.accel_y, v.accel_z, v.gyro_x, v.gyro_y, v.gyro_z, v.temperature};
            for (int c = 0; c < 7; c++) {
                double want = !(mask >> c & 1) ? 0 : c == 6 ? s.raw[c] / 340.0 + 36.53 : (double)(s.raw[c] - cal[c]) * max_of[c] / 32767;
                if (std::abs(got[c] - want) > 1e-6 * (1 + std::abs(want))) violation("value", "channel %d at %d, calibrated to %d, is %g, expected %g", c, s.raw[c], cal[c], got[c], want);
            }
            coverage("values");
        }
        }
        state_hash((uint64_t)(uint16_t)s.raw[0] << 16 | (uint16_t)s.raw[3]);
    }
    stop = true; if (other.joinable()) other.join();
}

// ---------------------------------------------------------------- G07: motion tracker
static void p_tracker() {
    board_guard bg; log_holder lg(200); set_step_limit(200000000ull); scheduling();
    sensors s;
    bg.b.bus = [&](int addr, i2c_smbus_ioctl_data* d) { return s.answer(addr, d, 0x68, -2, false); };
    if (chance(150, "cfg.spurious")) set_fault_rate(F_SPURIOUS_WAKE, 100);
    abc::gpio_smbus<L> bus(1, lg.get());
    abc::gpio_smbus_motion<L> motion(&bus, lg.get());
    int threads0 = live_threads();
    if (chance(100, "tk.null")) { if (!throws_std([&] { abc::gpio_smbus_motion_tracker<std::centi, L> t(nullptr, lg.get()); }, "gpio_smbus_motion_tracker()")) violation("constructor", "a tracker without a sensor was accepted"); if (live_threads() != threads0) violation("thread-leak", "a thread of a tracker that could not be made is left"); coverage("no-sensor"); }
    if (chance(100, "tk.nothread")) { set_fault_rate(F_THREAD_FAIL, 1000); if (!throws_std([&] { abc::gpio_smbus_motion_tracker<std::centi, L> t(&motion, lg.get()); }, "gpio_smbus_motion_tracker()")) violation("constructor", "a tracker without a thread was made"); set_fault_rate(F_THREAD_FAIL, 0); coverage("no-thread"); }
    for (unsigned round = pick(1, 3, "tk.rounds"); round > 0; round--) {
        std::unique_ptr<abc::gpio_smbus_motion_tracker<std::centi, L>> t(new abc::gpio_smbus_motion_tracker<std::centi, L>(&motion, lg.get()));
        bool fresh = choose(2, "tk.fresh") == 0; if (fresh) sim::sleep_ns((int64_t)choose(400, "tk.first") * MS);
        bool clean = true;               // where the tracker is, is known
        double depth = 0, width = 0, dir = 0;
        for (unsigned k = choose(4, "tk.n"); k > 0; k--) {
            if (t->is_running()) violation("running", "a tracker that is stopped is running");
            s.raw[0] = (int16_t)((int)choose(2000, "tk.a") - 1000); s.raw[5] = (int16_t)(choose(2, "tk.turn") ? (int)choose(3000, "tk.g") - 1500 : 0);
            if (clean && choose(3, "tk.set") == 0) { sim::sleep_ns(450 * MS); depth = (int)choose(2000, "tk.d") - 1000; width = (int)choose(2000, "tk.w") - 1000; dir = (int)choose(360, "tk.dir") - 180; t->set_depth(depth); t->set_width(width); t->set_direction(dir); }
            if (t->depth() != depth && clean) violation("moved", "a tracker that is stopped went from %g to %g", depth, t->depth());
            int64_t t0 = now();
            t->start(); if (!t->is_running()) violation("running", "a tracker that was started is not running");
            int64_t run = (int64_t)(choose(3, "tk.long") ? pick(300, 1500, "tk.run") : choose(30, "tk.short")) * MS;
            bool faulty = chance(150, "cfg.io"); if (faulty) { bg.b.fail = 200; }
            bool pushed = false;
            if (run > 600 * MS && choose(3, "tk.adjust") == 0) {          // an adjustment while it runs is not lost
                sim::sleep_ns(run / 2 + (int64_t)choose(5000000, "tk.at"));
                double to = 100000 + choose(1000, "tk.to"); int what = (int)choose(2, "tk.what");
                if (what) t->set_width(to); else t->set_depth(to);
                sim::sleep_ns(10 * MS);
                double is = what ? t->width() : t->depth();
                if (std::abs(is - to) > 1000) violation("lost-adjustment", "%s was set to %g while the tracker was running; 10 ms later it is %g", what ? "the width" : "the depth", to, is);
                pushed = true; coverage("adjusted");
            }
            if (t0 + run > now()) sim::sleep_ns(t0 + run - now());
            int64_t t1 = now(); double sp = t->speed(), di = t->direction(); int64_t t2 = now();
            if (choose(5, "tk.nostop") == 0 && k == 1) break;             // destroyed while running
            t->stop(); bg.b.fail = 0;
            if (t->is_running()) violation("running", "a tracker that was stopped is running");
            if (choose(4, "tk.hasty") == 0) { clean = false; sim::sleep_ns((int64_t)choose(250, "tk.gap") * MS); if (t->is_running()) violation("running", "a tracker that was stopped is running"); continue; }
            sim::sleep_ns(300 * MS);
            int64_t gap = 260 * MS;                                       // starting may take as long as coming to rest
            double a = (double)s.raw[0] * 16 / 32767 * 9.80665 * 100, w = (double)s.raw[5] * 2000 / 32767;
            // from when to when the tracker has measured is known up to the time it takes to start
            double T1 = (double)(t2 - t0) / 1e9 + 0.003, T0 = std::max(0.0, (double)(t1 - t0 - gap) / 1e9 - 0.01);
            if (clean && !faulty && !pushed) {
                auto within = [](double v, double p, double q, double tol) { return v >= std::min(p, q) - tol && v <= std::max(p, q) + tol; };
                if (!within(sp, a * T0, a * T1, 0.02 * std::abs(a) + 0.5)) violation("speed", "after %.3f s at %g cm/s2 the speed is %g", T1, a, sp);
                if (!within(di - dir, w * T0, w * T1, 0.02 * std::abs(w) + 0.01)) violation("direction", "after %.3f s at %g degrees/s the direction went from %g to %g", T1, w, dir, di);
                // the way: integrate for the time that the speed says
                if (std::abs(a) > 50) {
                    double T = sp / a, x = 0, y = 0, dt = 0.0005; for (double q = 0; q < T; q += dt) { double v = a * q, th = (dir + w * q) * 3.14159265 / 180; x += v * cos(th) * dt; y += v * sin(th) * dt; }
                    double len = std::abs(a) * T * T / 2, tol = 0.03 * len + 0.05 * std::abs(sp) + 1;
                    if (std::abs(t->depth() - depth - x) > tol || std::abs(t->width() - width - y) > tol) violation("way", "after %.3f s at %g cm/s2 and %g degrees/s the tracker moved by %g, %g; expected %g, %g", T, a, w, t->depth() - depth, t->width() - width, x, y);
                    coverage("tracked");
                }
            }
            if (t->speed() != 0) violation("inertia", "a tracker that has been stopped for 300 ms has speed %g", t->speed());
            if (std::isnan(t->depth()) || std::isnan(t->width()) || std::isnan(t->direction())) violation("nan", "the tracker is nowhere");
            if (!faulty) clean = true;
            depth = t->depth(); width = t->width(); dir = t->direction(); clean = !faulty || true;
            state_hash((uint64_t)(int64_t)(depth * 10) ^ (uint64_t)(uint16_t)s.raw[5] << 32);
        }
        bg.b.fail = 0;
        if (choose(2, "tk.idle") == 0) sim::sleep_ns((int64_t)choose(500, "tk.end") * MS);
        int64_t t0 = now();
        t.reset();
        if (now() - t0 > 260 * MS) violation("slow-end", "destroying a tracker took %lld ms", (long long)((now() - t0) / MS));
        if (live_threads() != threads0) violation("thread-leak", "a thread of the tracker is left");
        coverage("destroyed");
    }
}

namespace sim {
#define REAL "GPIO chips, lines, PWM emulator, SMBus, SMBus PWM, motors, servos, ultrasonic, grayscale and motion sensors, motion tracker and log of the repository"
#define STUB "the board: GPIO and I2C devices behind open() and ioctl() (modelled), threads and clock (simulated)"
const property properties[] = {
    {"G01", p_lines, 20000, 400000, "distinct histories of opening chips and lines, putting, getting and waiting for levels, moves and device errors", REAL, STUB, 60},
    {"G02", p_emulator, 3000, 60000, "distinct interleavings of setting duty cycles, the emulating thread and its end", REAL, STUB, 60},
    {"G03", p_transfers, 10000, 200000, "distinct interleavings of SMBus transfers by several threads to several targets with device errors", REAL, STUB, 60},
    {"G04", p_smbus_pwm, 20000, 400000, "distinct configurations and histories of PWM controllers, motors and servos", REAL, STUB, 60},
    {"G05", p_ultrasonic, 1000, 20000, "distinct histories of measuring with echoes, without, too late, and with device errors", REAL, STUB, 60},
    {"G06", p_sensors, 8000, 160000, "distinct histories of calibrating and reading sensors, alone or with another user of the bus", REAL, STUB, 60},
    {"G07", p_tracker, 1500, 30000, "distinct interleavings of starting, stopping, adjusting and destroying the tracker with its thread", REAL, STUB, 60},
    {nullptr}
};
const char* harness_name = "gpio";
}
