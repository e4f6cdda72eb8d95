// In-memory file system below /sim/, device files, and descriptor dispatch.
#include "desc.h"
#include "raw.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <sys/ioctl.h>

namespace sim {
template <typename F> static F next(const char* name) { return (F)dlsym(RTLD_NEXT, name); }

static std::unordered_map<int, desc>* g_fds;
std::unordered_map<int, desc>& fds() { if (!g_fds) g_fds = new std::unordered_map<int, desc>(); return *g_fds; }
desc* find_fd(int fd) { if (!g_fds) return nullptr; auto it = g_fds->find(fd); return it == g_fds->end() ? nullptr : &it->second; }
// Closed descriptors keep their memory: another thread may still be inside a call on them.
static std::vector<std::unordered_map<int, desc>::node_type>* grave;
void drop_fd(int fd) {
    if (!grave) grave = new std::vector<std::unordered_map<int, desc>::node_type>();
    auto n = fds().extract(fd);
    if (n) { grave->push_back(std::move(n)); }
}
static int null_fd = -1;
int alloc_fd() {
    if (null_fd < 0) { int t = (int)raw(SYS_open, (long)"/dev/null", O_RDWR); null_fd = (int)raw(SYS_fcntl, t, F_DUPFD, 900); raw(SYS_close, t); }
    int fd = (int)raw(SYS_fcntl, null_fd, F_DUPFD, 100);
    if (fd < 0) harness_error("out of real descriptors");
    return fd;
}

namespace fs {
bool strict = false;
std::vector<std::string> outside, opened;
int64_t capacity = -1;
int mmap_fail_at = 0;
uint64_t syscalls = 0;
const char* fault_scope = nullptr;
typedef std::map<std::string, std::shared_ptr<inode>> files_t;
static files_t* g_files;
static std::set<std::string>* g_dirs;
static files_t& files() { if (!g_files) g_files = new files_t(); return *g_files; }
static std::set<std::string>& dirs() { if (!g_dirs) { g_dirs = new std::set<std::string>(); g_dirs->insert("/sim"); } return *g_dirs; }
static int memfd_seq = 300;

static std::shared_ptr<inode> make(const std::string& path) {
    auto in = std::make_shared<inode>();
    in->path = path;
    int t = (int)raw(SYS_memfd_create, (long)"sim", 0);
    if (t < 0) harness_error("memfd_create failed");
    in->memfd = (int)raw(SYS_fcntl, t, F_DUPFD, 600);
    raw(SYS_close, t);
    files()[path] = in;
    return in;
}
static int64_t size_of(inode* in) { struct stat st; memset(&st, 0, sizeof st); raw(SYS_fstat, in->memfd, (long)&st); return st.st_size; }

// 0: not ours; 1: ours (out = normalised path); -1: a component is missing
static int norm(const char* p, std::string& out) {
    std::string s = p;
    if (s.empty()) return 0;
    if (s[0] != '/') s = "/sim/cwd/" + s;
    bool ours_literal = s.compare(0, 5, "/sim/") == 0 || s == "/sim";
    std::vector<std::string> parts;
    size_t i = 0;
    while (i < s.size()) {
        while (i < s.size() && s[i] == '/') i++;
        size_t j = i;
        while (j < s.size() && s[j] != '/') j++;
        if (j > i) {
            std::string c = s.substr(i, j - i);
            if (c == ".") {}
            else if (c == "..") {
                if (!parts.empty()) {
                    std::string cur; for (auto& x : parts) cur += "/" + x;
                    if (ours_literal && cur.compare(0, 5, "/sim/") == 0 && !dirs().count(cur)) { out = cur; return -1; }
                    parts.pop_back();
                }
            } else parts.push_back(c);
        }
        i = j;
    }
    out.clear();
    for (auto& x : parts) out += "/" + x;
    if (out.empty()) out = "/";
    if (out == "/sim" || out.compare(0, 5, "/sim/") == 0) return 1;
    return ours_literal ? 2 : 0;   // 2: a path that leaves /sim
}
static bool faulty(const std::string& path) { return !fault_scope || path.compare(0, strlen(fault_scope), fault_scope) == 0; }

void put(const char* path, const std::string& content) {
    auto it = files().find(path);
    std::shared_ptr<inode> in = it == files().end() ? make(path) : it->second;
    raw(SYS_ftruncate, in->memfd, 0);
    size_t o = 0;
    while (o < content.size()) { long n = raw(SYS_pwrite64, in->memfd, (long)(content.data() + o), content.size() - o, o); if (n <= 0) harness_error("put"); o += n; }
}
static std::string content_of(inode* in) {
    std::string s; s.resize(size_of(in));
    size_t o = 0;
    while (o < s.size()) { long n = raw(SYS_pread64, in->memfd, (long)(&s[o]), s.size() - o, o); if (n <= 0) break; o += n; }
    return s;
}
int64_t size(const char* path) { auto it = files().find(path); return it == files().end() ? -1 : size_of(it->second.get()); }
bool get(const char* path, std::string& c) {
    auto it = files().find(path);
    if (it == files().end()) return false;
    c = content_of(it->second.get());
    return true;
}
void mkdir(const char* path) { dirs().insert(path); }
bool exists(const char* path) { return files().count(path) != 0; }
void remove(const char* path) { files().erase(path); }
std::vector<std::string> list(const char* prefix) {
    std::vector<std::string> v;
    for (auto& f : files()) if (f.first.compare(0, strlen(prefix), prefix) == 0) v.push_back(f.first);
    return v;
}
int open_count(const char* path) { int n = 0; for (auto& d : fds()) if (d.second.kind == desc::FILE_ && d.second.path == path) n++; return n; }
int open_fds() { int n = 0; for (auto& d : fds()) if (d.second.kind == desc::FILE_ || d.second.kind == desc::DIR_) n++; return n; }
int64_t used() { int64_t n = 0; for (auto& f : files()) n += size_of(f.second.get()); return n; }

// ---- mappings
struct mapping { size_t len; std::string path; int64_t off; };
static const uintptr_t ARENA = 0x200000000000ull;
static const uintptr_t ARENA_SIZE = 1ull << 40;
static uintptr_t arena_next = ARENA;
static std::map<uintptr_t, mapping>* g_maps;
static std::map<uintptr_t, mapping>& maps() { if (!g_maps) g_maps = new std::map<uintptr_t, mapping>(); return *g_maps; }
static int hwm = 0;
int map_count() { return (int)maps().size(); }
int map_count_file(const char* path) { int n = 0; for (auto& m : maps()) if (m.second.path == path) n++; return n; }
int max_map_count() { return hwm; }
void reset_max_map_count() { hwm = (int)maps().size(); }
bool in_arena(const void* p) { return (uintptr_t)p >= ARENA && (uintptr_t)p < ARENA + ARENA_SIZE; }
const char* describe(const void* p) {
    if (!g_maps) return "";
    auto it = maps().upper_bound((uintptr_t)p);
    if (it != maps().begin()) { --it; if ((uintptr_t)p < it->first + it->second.len) return "(inside a live mapping, beyond the end of its file or without the right)"; }
    return "(memory of a page that is no longer mapped)";
}
void drop_process_state() {
    for (auto& m : maps()) raw(SYS_munmap, (long)m.first, m.second.len);   // addresses are never reused: late accesses fault
    maps().clear();
    std::vector<int> v;
    for (auto& d : fds()) if (d.second.kind == desc::FILE_ || d.second.kind == desc::DIR_) v.push_back(d.first);
    for (int fd : v) { drop_fd(fd); raw(SYS_close, fd); }
}
void note_map(uintptr_t a, size_t len, const std::string& p, int64_t off) { maps()[a] = {len, p, off}; if ((int)maps().size() > hwm) hwm = (int)maps().size(); }

// ---- operations; return >= 0 or -errno
static int do_open(const char* p, int flags, bool* ours, std::string& np) {
    int k = norm(p, np);
    *ours = true;
    if (k == 0 && !strict) { *ours = false; return 0; }
    if (k == 0 || k == 2) {
        outside.push_back(np);
        evh("open.outside", hash64(np.data(), np.size()));
        return -ENOENT;
    }
    enter_syscall("open");
    syscalls++;
    if (k < 0) return -ENOENT;
    opened.push_back(np);
    evh("open", hash64(np.data(), np.size()), flags);
    if (faulty(np) && fault(F_OPEN_FAIL)) { static const int es[] = {EMFILE, EACCES, ENFILE, EIO}; return -es[choose(4, "open.errno")]; }
    if (dirs().count(np)) {
        if ((flags & O_ACCMODE) != O_RDONLY) return -EISDIR;
        int fd = alloc_fd();
        desc d; d.kind = desc::DIR_; d.path = np; fds()[fd] = d;
        return fd;
    }
    std::string tail = p; if (!tail.empty() && tail.back() == '/') { return files().count(np) ? -ENOTDIR : -ENOENT; }
    auto it = files().find(np);
    std::shared_ptr<inode> in;
    if (it == files().end()) {
        if (!(flags & O_CREAT)) return -ENOENT;
        std::string parent = np.substr(0, np.rfind('/'));
        if (!dirs().count(parent)) return -ENOENT;
        if (faulty(np) && capacity >= 0 && used() >= capacity && false) return -ENOSPC;
        in = make(np);
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
        in = it->second;
        if (flags & O_TRUNC) raw(SYS_ftruncate, in->memfd, 0);
    }
    int fd = (int)raw(SYS_fcntl, in->memfd, F_DUPFD, 100);
    if (fd < 0) harness_error("dup failed");
    desc d; d.kind = desc::FILE_; d.in = in; d.path = np; d.flags = flags; d.off = 0;
    fds()[fd] = d;
    return fd;
}
static ssize_t do_write(desc* d, const void* b, size_t n, int64_t at, bool positional) {
    enter_syscall("write");
    syscalls++;
    if (d->kind != desc::FILE_) return -EBADF;
    if ((d->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
    if (n == 0) return 0;
    if (faulty(d->path)) {
        if (fault(F_EINTR)) return -EINTR;
        if (fault(F_WRITE_FAIL)) return -EIO;
        if (fault(F_DISK_FULL)) return -ENOSPC;
        if (n > 1 && fault(F_SHORT_WRITE)) n = 1 + choose((uint32_t)std::min<size_t>(n - 1, 1u << 30), "short.write");
    }
    int64_t size = size_of(d->in.get());
    if (!positional) at = (d->flags & O_APPEND) ? size : d->off;
    if (capacity >= 0 && at + (int64_t)n > size && faulty(d->path)) {
        int64_t room = capacity - used();
        int64_t grow = at + (int64_t)n - size;
        if (grow > room) {
            note_fault(F_DISK_FULL);
            if (room <= 0 || (int64_t)n - (grow - room) <= 0) return -ENOSPC;
            n -= grow - room;
        }
    }
    long r = raw(SYS_pwrite64, d->in->memfd, (long)b, n, at);
    if (r < 0) return -errno;
    if (!positional) d->off = at + r;
    evh("write", hash64(d->path.data(), d->path.size()), at, hash64(b, r));
    return r;
}
static ssize_t do_read(desc* d, void* b, size_t n, int64_t at, bool positional) {
    enter_syscall("read");
    syscalls++;
    if (d->kind == desc::DIR_) return -EISDIR;
    if (d->kind != desc::FILE_) return -EBADF;
    if (faulty(d->path)) {
        if (fault(F_EINTR)) return -EINTR;
        if (fault(F_READ_FAIL)) return -EIO;
        if (n > 1 && fault(F_SHORT_READ)) n = 1 + choose((uint32_t)std::min<size_t>(n - 1, 1u << 30), "short.read");
    }
    if (!positional) at = d->off;
    long r = raw(SYS_pread64, d->in->memfd, (long)b, n, at);
    if (r < 0) return -errno;
    if (!positional) d->off = at + r;
    return r;
}
static int do_stat(const char* p, struct stat* st, bool* ours) {
    std::string np;
    int k = norm(p, np);
    *ours = true;
    if (k == 0 && !strict) { *ours = false; return 0; }
    if (k == 0 || k == 2) { outside.push_back(np); return -ENOENT; }
    enter_syscall("stat");
    syscalls++;
    if (k < 0) return -ENOENT;
    opened.push_back(np);
    if (faulty(np) && fault(F_STAT_FAIL)) { static const int es[] = {EACCES, ENOMEM, EIO}; return -es[choose(3, "stat.errno")]; }
    memset(st, 0, sizeof *st);
    if (dirs().count(np)) { st->st_mode = S_IFDIR | 0755; st->st_size = 4096; st->st_nlink = 2; return 0; }
    auto it = files().find(np);
    if (it == files().end()) return -ENOENT;
    std::string tail = p; if (tail.back() == '/') return -ENOTDIR;
    st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_size = size_of(it->second.get()); st->st_blksize = 4096;
    return 0;
}
} // namespace fs

namespace dev {
std::function<int(const char*)> on_open;
std::function<int(int, const char*, unsigned long, void*)> on_ioctl;
std::function<void(int, const char*)> on_close;
int new_fd(const char* path) { int fd = alloc_fd(); desc d; d.kind = desc::DEV; d.path = path; fds()[fd] = d; return fd; }
int open_fds() { int n = 0; for (auto& d : fds()) if (d.second.kind == desc::DEV) n++; return n; }
}
static bool is_dev(const char* p) { return !strncmp(p, "/dev/./", 7) || !strncmp(p, "/dev//", 6) || !strncmp(p, "/dev/gpiochip", 13) || !strncmp(p, "/dev/i2c", 8); }
static long ret(long r) { if (r < 0) { errno = (int)-r; return -1; } return r; }
static int open_any(const char* p, int flags, int mode) {
    if (on()) {
        if (is_dev(p)) {
            enter_syscall("dev.open");
            evh("dev.open", hash64(p, strlen(p)));
            if (fault(F_OPEN_FAIL)) { errno = choose(2, "open.errno") ? EACCES : EMFILE; return -1; }
            int e = dev::on_open ? dev::on_open(p) : -ENOENT;
            if (e < 0) { errno = -e; return -1; }
            return dev::new_fd(p);
        }
        bool ours; std::string np;
        int r = fs::do_open(p, flags, &ours, np);
        if (ours) return (int)ret(r);
    }
    return (int)raw(SYS_open, (long)p, flags, mode);
}
} // namespace sim
using namespace sim;

extern "C" {
int open(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return open_any(p, flags, m); }
int open64(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return open_any(p, flags, m); }
int __open_2(const char* p, int flags) { return open_any(p, flags, 0); }
int __open64_2(const char* p, int flags) { return open_any(p, flags, 0); }
int openat(int dfd, const char* p, int flags, ...) {
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);
    if (on() && (dfd == AT_FDCWD || p[0] == '/')) return open_any(p, flags, m);
    return (int)raw(SYS_openat, dfd, (long)p, flags, m);
}
int creat(const char* p, mode_t m) { return open_any(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
    desc* d = find_fd(fd);
    if (!d || !active) return (int)raw(SYS_close, fd);
    if (on()) enter_syscall("close");
    d = find_fd(fd);
    if (!d) { errno = EBADF; return -1; }
    desc copy = *d;
    evh("close", fd);
    drop_fd(fd);
    raw(SYS_close, fd);
    if (copy.kind == desc::SOCK) net_close(copy.s.get(), fd);
    else if (copy.kind == desc::DEV && dev::on_close) dev::on_close(fd, copy.path.c_str());
    return 0;
}
ssize_t read(int fd, void* b, size_t n) {
    desc* d = on() ? find_fd(fd) : nullptr;
    if (!d) return raw(SYS_read, fd, (long)b, n);
    if (d->kind == desc::SOCK) { auto s = d->s; return ret(net_recv(s.get(), b, n, 0, nullptr, nullptr)); }
    return ret(fs::do_read(d, b, n, 0, false));
}
ssize_t write(int fd, const void* b, size_t n) {
    desc* d = on() ? find_fd(fd) : nullptr;
    if (!d) return raw(SYS_write, fd, (long)b, n);
    if (d->kind == desc::SOCK) { auto s = d->s; return ret(net_send(s.get(), b, n, 0, nullptr, 0)); }
    return ret(fs::do_write(d, b, n, 0, false));
}
ssize_t pread(int fd, void* b, size_t n, off_t o) { desc* d = on() ? find_fd(fd) : nullptr; return d ? ret(fs::do_read(d, b, n, o, true)) : raw(SYS_pread64, fd, (long)b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { desc* d = on() ? find_fd(fd) : nullptr; return d ? ret(fs::do_write(d, b, n, o, true)) : raw(SYS_pwrite64, fd, (long)b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec* v, int c) {
    desc* d = on() ? find_fd(fd) : nullptr;
    if (!d) return raw(SYS_readv, fd, (long)v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    desc* d = on() ? find_fd(fd) : nullptr;
    if (!d) return raw(SYS_writev, fd, (long)v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
off_t lseek(int fd, off_t o, int w) {
    desc* d = on() ? find_fd(fd) : nullptr;
    if (!d) return raw(SYS_lseek, fd, o, w);
    enter_syscall("lseek");
    fs::syscalls++;
    if (d->kind != desc::FILE_) { errno = ESPIPE; return -1; }
    if (fs::faulty(d->path) && fault(F_SEEK_FAIL)) { errno = EIO; return -1; }
    int64_t n = w == SEEK_SET ? o : w == SEEK_CUR ? d->off + o : fs::size_of(d->in.get()) + o;
    if (n < 0) { errno = EINVAL; return -1; }
    d->off = n;
    return n;
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int ftruncate(int fd, off_t n) {
    desc* d = on() ? find_fd(fd) : nullptr;
    if (!d) return (int)raw(SYS_ftruncate, fd, n);
    enter_syscall("ftruncate");
    fs::syscalls++;
    if (d->kind != desc::FILE_) { errno = EINVAL; return -1; }
    int64_t grow = n - fs::size_of(d->in.get());
    if (fs::faulty(d->path) && grow > 0 && fault(F_WRITE_FAIL)) { errno = EIO; return -1; }
    if (fs::faulty(d->path) && grow > 0 && fault(F_DISK_FULL)) { errno = ENOSPC; return -1; }
    if (fs::capacity >= 0 && grow > 0 && fs::used() + grow > fs::capacity) { note_fault(F_DISK_FULL); errno = ENOSPC; return -1; }
    evh("ftruncate", n);
    return (int)raw(SYS_ftruncate, d->in->memfd, n);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int posix_fallocate(int fd, off_t o, off_t n) {
    desc* d = on() ? find_fd(fd) : nullptr;
    if (!d) { long r = raw6(SYS_fallocate, fd, 0, o, n); return r < 0 ? (int)-r : 0; }
    if (o + n <= fs::size_of(d->in.get())) return 0;
    return ftruncate(fd, o + n) < 0 ? errno : 0;
}
int posix_fallocate64(int fd, off64_t o, off64_t n) { return posix_fallocate(fd, o, n); }
int fsync(int fd) {
    desc* d = on() ? find_fd(fd) : nullptr;
    if (!d) return (int)raw(SYS_fsync, fd);
    enter_syscall("fsync");
    if (fs::faulty(d->path) && fault(F_MSYNC_FAIL)) { errno = EIO; return -1; }
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int fstat(int fd, struct stat* st) {
    desc* d = on() ? find_fd(fd) : nullptr;
    if (!d) return (int)raw(SYS_fstat, fd, (long)st);
    memset(st, 0, sizeof *st);
    st->st_nlink = 1; st->st_blksize = 4096;
    if (d->kind == desc::FILE_) { st->st_mode = S_IFREG | 0644; st->st_size = fs::size_of(d->in.get()); }
    else if (d->kind == desc::DIR_) { st->st_mode = S_IFDIR | 0755; st->st_size = 4096; }
    else if (d->kind == desc::SOCK) st->st_mode = S_IFSOCK | 0777;
    else st->st_mode = S_IFCHR | 0666;
    return 0;
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int stat(const char* p, struct stat* st) {
    if (on()) { bool ours; int r = fs::do_stat(p, st, &ours); if (ours) return (int)ret(r); }
    return (int)raw(SYS_stat, (long)p, (long)st);
}
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st) { return stat(p, st); }
int lstat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int access(const char* p, int m) {
    if (on()) { struct stat st; bool ours; int r = fs::do_stat(p, &st, &ours); if (ours) return (int)ret(r); }
    return (int)raw(SYS_access, (long)p, m);
}
char* realpath(const char* p, char* out) {
    if (on()) {
        struct stat st; bool ours; int r = fs::do_stat(p, &st, &ours);
        if (ours) {
            if (r < 0) { errno = -r; return nullptr; }
            std::string np; fs::norm(p, np);
            if (!out) out = (char*)malloc(4096);
            strcpy(out, np.c_str());
            return out;
        }
    }
    typedef char* (*F)(const char*, char*); static F real = next<F>("realpath"); return real(p, out);
}
char* __realpath_chk(const char* p, char* out, size_t) { return realpath(p, out); }
int unlink(const char* p) {
    if (on()) {
        std::string np; int k = fs::norm(p, np);
        if (k == 1) { enter_syscall("unlink"); if (!fs::files().erase(np)) { errno = ENOENT; return -1; } evh("unlink", hash64(np.data(), np.size())); return 0; }
        if (fs::strict || k == 2) { fs::outside.push_back(np); errno = ENOENT; return -1; }
    }
    return (int)raw(SYS_unlink, (long)p);
}
int remove(const char* p) { return unlink(p); }
int mkdir(const char* p, mode_t m) {
    if (on()) {
        std::string np; int k = fs::norm(p, np);
        if (k == 1) { enter_syscall("mkdir"); fs::dirs().insert(np); return 0; }
        if (fs::strict) { fs::outside.push_back(np); errno = EACCES; return -1; }
    }
    return (int)raw(SYS_mkdir, (long)p, m);
}
void* mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
    desc* d = (on() && fd >= 0) ? find_fd(fd) : nullptr;
    if (!d || d->kind != desc::FILE_) return (void*)raw(SYS_mmap, (long)a, len, prot, flags, fd, off);
    enter_syscall("mmap");
    fs::syscalls++;
    if (fs::faulty(d->path) && (fault(F_MMAP_FAIL) || (fs::mmap_fail_at > 0 && --fs::mmap_fail_at == 0 && (note_fault(F_MMAP_FAIL), true)))) { errno = choose(2, "mmap.errno") ? EAGAIN : ENOMEM; return MAP_FAILED; }
    size_t l = (len + 4095) & ~(size_t)4095;
    void* at = (void*)fs::arena_next;
    fs::arena_next += l + 4096;
    void* r = (void*)raw(SYS_mmap, (long)at, l, prot, (flags & ~MAP_FIXED) | MAP_FIXED, d->in->memfd, off);
    if (r == MAP_FAILED) return r;
    fs::note_map((uintptr_t)r, l, d->path, off);
    evh("mmap", off, len);
    return r;
}
void* mmap64(void* a, size_t len, int prot, int flags, int fd, off64_t off) { return mmap(a, len, prot, flags, fd, off); }
int munmap(void* a, size_t len) {
    if (!active || !fs::in_arena(a)) return (int)raw(SYS_munmap, (long)a, len);
    enter_syscall("munmap");
    fs::syscalls++;
    auto it = fs::maps().find((uintptr_t)a);
    size_t l = (len + 4095) & ~(size_t)4095;
    if (it == fs::maps().end()) { violation("munmap-unmapped", "munmap of a page that is not mapped"); }
    if (it->second.len != l) harness_error("partial munmap");
    fs::maps().erase(it);
    raw(SYS_munmap, (long)a, l);
    evh("munmap", len);
    return 0;
}
int msync(void* a, size_t len, int flags) {
    if (!active || !fs::in_arena(a)) return (int)raw(SYS_msync, (long)a, len, flags);
    enter_syscall("msync");
    fs::syscalls++;
    if (fault(F_MSYNC_FAIL)) { errno = EIO; return -1; }
    return 0;
}
FILE* fopen(const char* p, const char* mode) {
    if (on()) {
        int flags = mode[0] == 'r' ? (strchr(mode, '+') ? O_RDWR : O_RDONLY) : mode[0] == 'w' ? ((strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC) : ((strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND);
        bool ours; std::string np;
        int r = fs::do_open(p, flags, &ours, np);
        if (ours) {
            if (r < 0) { errno = -r; return nullptr; }
            raw(SYS_lseek, r, 0, SEEK_SET);
            FILE* f = fdopen(r, mode[0] == 'a' ? "r+" : "r+");
            if (!f) harness_error("fdopen failed");
            return f;
        }
    }
    typedef FILE* (*F)(const char*, const char*); static F real = next<F>("fopen"); return real(p, mode);
}
FILE* fopen64(const char* p, const char* mode) { return fopen(p, mode); }
int fclose(FILE* f) {
    typedef int (*F)(FILE*); static F real = next<F>("fclose");
    if (active && f) {
        int fd = fileno(f);
        if (find_fd(fd)) { if (on()) enter_syscall("close"); drop_fd(fd); evh("close", fd); }
    }
    return real(f);
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void* arg = va_arg(ap, void*); va_end(ap);
    desc* d = on() ? find_fd(fd) : nullptr;
    if (!d) return (int)raw(SYS_ioctl, fd, req, (long)arg);
    if (d->kind == desc::DEV) {
        enter_syscall("ioctl");
        if (fault(F_IOCTL_FAIL)) { static const int es[] = {EIO, EREMOTEIO, EBUSY, ETIMEDOUT}; errno = es[choose(4, "ioctl.errno")]; return -1; }
        std::string path = d->path;
        int r = dev::on_ioctl ? dev::on_ioctl(fd, path.c_str(), req, arg) : -ENOTTY;
        return (int)ret(r);
    }
    if (d->kind == desc::FILE_ && req == FIONREAD) { *(int*)arg = (int)std::max<int64_t>(0, fs::size_of(d->in.get()) - d->off); return 0; }
    errno = ENOTTY;
    return -1;
}
int poll(struct pollfd* p, nfds_t n, int to) {
    bool mine = false;
    if (on()) for (nfds_t i = 0; i < n; i++) if (find_fd(p[i].fd)) mine = true;
    if (!mine) return (int)raw(SYS_poll, (long)p, n, to);
    return net_poll(p, n, to);
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    desc* d = on() ? find_fd(fd) : nullptr;
    if (d) {
        if (cmd == F_GETFL) return d->flags;
        if (cmd == F_SETFL) { d->flags = (d->flags & O_ACCMODE) | (int)(arg & ~O_ACCMODE); return 0; }
        if (cmd == F_GETFD || cmd == F_SETFD) return 0;
        if (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK) return 0;
        harness_error("fcntl %d", cmd);
    }
    return (int)raw(SYS_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
int flock(int fd, int op) { if (on() && find_fd(fd)) return 0; return (int)raw(SYS_flock, fd, op); }
int dup(int fd) { if (on() && find_fd(fd)) harness_error("dup of a simulated descriptor"); return (int)raw(SYS_dup, fd); }
} // extern "C"
