#include "kernel.hpp"

#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <poll.h>
#include <new>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {

static bool live = false;            // K exists (constant-initialised: allocations come first)
Kernel& K = *new Kernel;
Stats& stats = *new Stats;
[[maybe_unused]] static bool live_set = (live = true);
thread_local int pause_depth = 0;
u64 block_budget = 0;
u64 blocks_run = 0;
void (*preempt_hook)() = nullptr;
void (*alloc_hook)(const void*, std::size_t) = nullptr;
void (*mem_hook)(const void*, std::size_t, bool) = nullptr;

Pause::Pause() { ++pause_depth; }
Pause::~Pause() { --pause_depth; }

void raw_write(int fd, const char* p, std::size_t n) {
    while (n > 0) {
        long r = syscall(SYS_write, fd, p, n);
        if (r <= 0) break;
        p += r;
        n -= (std::size_t) r;
    }
}

void die_hang(const char* what) {
    char buf[256];
    int n = std::snprintf(buf, sizeof buf, "\nHANG %s\n", what);
    raw_write(2, buf, (std::size_t) n);
    syscall(SYS_exit_group, 77);
    __builtin_unreachable();
}

void Kernel::reset() {
    names.clear();
    for (auto& f : fds) f.reset();
    for (auto& s : sink) s = Sink{};
    in_avail.clear();
    in_pos = 0;
    on_blocked = nullptr;
    on_stdin_read = nullptr;
    on_sink = nullptr;
    queue.clear();
    qpos = 0;
    crash_at = 0;
    torn = -1;
    alloc_fail_at = 0;
    op_syscalls = op_allocs = 0;
    in_op = false;
    on_syscall = nullptr;
    hard = soft = alloc_failed = false;
    run_syscalls = run_events = 0;
    bad_fd.clear();
    lead = 0;
    opened = closed = 0;
    crash_armed = crashed = false;
    trace = shape = 0x1234;
    log.clear();
    next_id = 1;
    blocks_run = 0;
}

void Kernel::begin_op(const Step& s) {
    queue.clear();
    qpos = 0;
    crash_at = 0;
    torn = -1;
    alloc_fail_at = 0;
    op_syscalls = op_allocs = 0;
    hard = soft = alloc_failed = false;
    for (const Fault& f : s.f) {
        if (f.kind == 'X') crash_at = f.n;
        else if (f.kind == 'T') torn = f.n;
        else if (f.kind == 'K') alloc_fail_at = f.n;
        else queue.push_back(f);
    }
    u64 h = 0;
    for (char c : s.op) h = mix(h, (u64) c);
    shape = mix(shape, h);
    trace = mix(trace, h);
    for (i64 v : s.a) trace = mix(trace, (u64) v);
    if (log_on) log.push_back("op " + to_text(s));
    ++stats.ops;
    ++stats.opcount[s.op];
    in_op = true;
}

void Kernel::end_op() {
    in_op = false;
    queue.clear();
    qpos = 0;
    crash_at = 0;
    torn = -1;
    alloc_fail_at = 0;
}

InodeP Kernel::create(const std::string& path, const Bytes& content) {
    auto n = std::make_shared<Inode>();
    n->data = content;
    n->id = next_id++;
    names[path] = n;
    return n;
}
InodeP Kernel::lookup(const std::string& path) {
    auto it = names.find(path);
    return it == names.end() ? nullptr : it->second;
}
std::size_t Kernel::open_count() const {
    std::size_t n = 0;
    for (auto& f : fds) n += f.has_value();
    return n;
}
void Kernel::note(const char* fmt, ...) {
    if (!log_on) return;
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    log.push_back(buf);
}

namespace {

bool simulated_path(const char* p) { return p && std::strncmp(p, "/simfs/", 7) == 0; }

std::optional<OpenFile>* slot(int fd) {
    if (fd < FD_BASE || fd >= FD_MAX) return nullptr;
    return &K.fds[fd - FD_BASE];
}
OpenFile* of(int fd) {
    auto* s = slot(fd);
    return s && s->has_value() ? &**s : nullptr;
}

// Is this call part of the simulation (library code running in a window)?
bool ours() { return live && K.active && pause_depth == 0; }

// count a system call, maybe die
void enter_syscall(const char* name) {
    ++K.op_syscalls;
    ++K.run_syscalls;
    ++stats.syscalls;
    if (K.run_syscalls > 3000000) die_hang("more than 3000000 system calls in one run");
    if (K.on_syscall && K.in_op) K.on_syscall(K.op_syscalls);
    if (K.crash_at && K.op_syscalls == K.crash_at && K.crash_armed) {
        ++K.run_events;
        ++stats.faults["crash_at_syscall"];
        K.note("   crash before %s", name);
        K.crashed = true;
        K.end_op();
        --pause_depth;
        siglongjmp(K.crash_jmp, 1);
    }
}
void bad(const char* what, int fd) {
    if (fd == -1) return;
    char b[64];
    std::snprintf(b, sizeof b, "%s(%d)", what, fd);
    K.bad_fd.push_back(b);
    K.note("   %s on a descriptor that is not open", b);
}
void traced(const char* name, int fd, u64 want, i64 res, const u8* p = nullptr) {
    u64 h = 0;
    for (const char* c = name; *c; ++c) h = mix(h, (u64) *c);
    K.mixv(h);
    K.mixv((u64) fd);
    K.mixv(want);
    K.mixv((u64) res);
    if (p && res > 0) for (i64 i = 0; i < res; ++i) K.mixv(p[i]);
    int cls = res < 0 ? 3 : (u64) res == want ? 0 : res == 0 ? 1 : 2;
    int lg = 0;
    for (u64 w = want; w; w >>= 1) ++lg;
    K.shape = mix(K.shape, h * 16 + (u64) cls * 4 + (u64) (fd <= 2) );
    K.shape = mix(K.shape, (u64) lg);
    K.note("   %s fd=%d want=%llu -> %lld", name, fd, (unsigned long long) want, (long long) res);
}

bool next_fault(Fault& f) {
    while (K.qpos < K.queue.size() && K.queue[K.qpos].kind == 'C') ++K.qpos;
    if (K.qpos >= K.queue.size()) return false;
    f = K.queue[K.qpos];
    if (f.kind == 'Z') {                 // from here on every transfer of this operation fails
        f.kind = "ENA"[f.n % 3];
        f.n = 0;
        ++stats.faults["persistent_error"];
        return true;
    }
    ++K.qpos;
    return f.kind != 'P';
}

// Applies a queued fault to a transfer of n bytes. Returns -1 with errno set,
// or the number of bytes to transfer.
i64 faulty(std::size_t n, bool is_write) {
    Fault f;
    if (!next_fault(f)) return (i64) n;
    switch (f.kind) {
        case 'S':
            if (f.n >= 1 && (u64) f.n < n) {
                ++K.run_events;
                ++stats.faults[is_write ? "short_write" : "short_read"];
                K.soft = true;
                return f.n;
            }
            return (i64) n;
        case 'I':
            ++K.run_events;
            ++stats.faults[is_write ? "eintr_write" : "eintr_read"];
            K.soft = true;
            errno = EINTR;
            return -1;
        case 'E':
            ++K.run_events;
            ++stats.faults[is_write ? "eio_write" : "eio_read"];
            K.hard = true;
            errno = EIO;
            return -1;
        case 'N':
            if (!is_write) return (i64) n;
            ++K.run_events;
            ++stats.faults["enospc_write"];
            K.hard = true;
            errno = ENOSPC;
            return -1;
        case 'A':
            ++K.run_events;
            ++stats.faults[is_write ? "eagain_write" : "eagain_read"];
            K.hard = true;
            errno = EAGAIN;
            return -1;
        default:
            return (i64) n;
    }
}

void store(OpenFile& f, const u8* p, std::size_t n) {
    Bytes& d = f.inode->data;
    if (f.flags & O_APPEND) f.off = K.lead + (i64) d.size();
    if (n == 0) return;
    i64 at = f.off - K.lead;
    f.off += (i64) n;
    if (at < 0) {
        bad("write before the data of", FD_MAX);
        return;
    }
    if ((u64) at + n > d.size()) d.resize((u64) at + n, 0);
    std::memcpy(d.data() + at, p, n);
}

void deliver(int fd, const u8* p, std::size_t n) {
    int i = fd - 1;
    if (K.shared) {
        std::size_t room = SHARED_SINK - K.shared->n[i];
        if (n > room) n = room;
        std::memcpy(K.shared->d[i] + K.shared->n[i], p, n);
        K.shared->n[i] += n;
    } else {
        K.sink[i].data.insert(K.sink[i].data.end(), p, p + n);
        ++K.sink[i].calls;
        if (K.on_sink) K.on_sink(fd, p, n);
    }
}

i64 do_write(int fd, const void* vp, std::size_t n, i64 at = -1) {
    if (mem_hook) mem_hook(vp, n, false);
    Pause pz;
    enter_syscall("write");
    const u8* p = static_cast<const u8*>(vp);
    OpenFile* f = of(fd);
    bool sink = fd == 1 || fd == 2;
    if (!f && !sink) {
        bad("write", fd);
        errno = EBADF;
        traced("write", fd, n, -1);
        return -1;
    }
    if (f && (f->flags & O_ACCMODE) == O_RDONLY) {
        errno = EBADF;
        traced("write", fd, n, -1);
        return -1;
    }
    if (K.torn >= 0 && K.crash_armed) {
        std::size_t m = (u64) K.torn < n ? (std::size_t) K.torn : n;
        if (f) {
            i64 keep = f->off;
            if (at >= 0) f->off = at;
            store(*f, p, m);
            if (at >= 0) f->off = keep;
        } else deliver(fd, p, m);
        ++K.run_events;
        ++stats.faults["crash_torn_write"];
        K.note("   crash after %zu of %zu bytes written", m, n);
        K.crashed = true;
        K.end_op();
        --pause_depth;
        siglongjmp(K.crash_jmp, 1);
    }
    i64 r = faulty(n, true);
    if (r > 0) {
        if (f) {
            i64 keep = f->off;
            if (at >= 0) f->off = at;
            store(*f, p, (std::size_t) r);
            if (at >= 0) f->off = keep;
        } else deliver(fd, p, (std::size_t) r);
    }
    int e = errno;
    traced("write", fd, n, r, p);
    errno = e;
    return r;
}

i64 do_read(int fd, void* vp, std::size_t n, i64 at = -1) {
    if (mem_hook) mem_hook(vp, n, true);
    Pause pz;
    enter_syscall("read");
    u8* p = static_cast<u8*>(vp);
    if (fd == 0) {
        if (K.on_stdin_read) K.on_stdin_read();
        i64 want = (i64) n;
        if (n > 0) {
            want = faulty(n, false);
            if (want < 0) {
                int e = errno;
                traced("read", fd, n, -1);
                errno = e;
                return -1;
            }
            int spin = 0;
            while (K.in_pos >= K.in_avail.size()) {
                int r = K.on_blocked ? K.on_blocked() : 0;
                if (r <= 0) {
                    traced("read", fd, n, 0);
                    return 0;
                }
                if (++spin > 10000) die_hang("standard input never delivers");
            }
        }
        std::size_t avail = K.in_avail.size() - K.in_pos;
        std::size_t m = (u64) want < avail ? (std::size_t) want : avail;
        if (m) std::memcpy(p, K.in_avail.data() + K.in_pos, m);
        K.in_pos += m;
        traced("read", fd, n, (i64) m, p);
        return (i64) m;
    }
    OpenFile* f = of(fd);
    if (!f) {
        bad("read", fd);
        errno = EBADF;
        traced("read", fd, n, -1);
        return -1;
    }
    if ((f->flags & O_ACCMODE) == O_WRONLY) {
        errno = EBADF;
        traced("read", fd, n, -1);
        return -1;
    }
    i64 r = faulty(n, false);
    if (r < 0) {
        int e = errno;
        traced("read", fd, n, -1);
        errno = e;
        return -1;
    }
    i64 off = (at >= 0 ? at : f->off) - K.lead;
    i64 size = (i64) f->inode->data.size();
    i64 m = off >= size ? 0 : (r < size - off ? r : size - off);
    if (m > 0 && off < 0) {
        if (m > -off) m = -off;
        std::memset(p, 0, (std::size_t) m);
    } else if (m > 0) std::memcpy(p, f->inode->data.data() + off, (std::size_t) m);
    if (at < 0) f->off += m;
    traced("read", fd, n, m, p);
    return m;
}

int do_open(const char* path, int flags, unsigned mode) {
    Pause pz;
    enter_syscall("open");
    Fault q;
    if (next_fault(q)) {
        int e = q.kind == 'M' ? EMFILE : q.kind == 'D' ? EACCES : q.kind == 'N' ? ENOSPC : q.kind == 'E' ? EIO : 0;
        if (e) {
            ++K.run_events;
            ++stats.faults["open_fail"];
            K.hard = true;
            traced("open", -1, (u64) flags, -1);
            errno = e;
            return -1;
        }
    }
    InodeP n = K.lookup(path);
    if (n && (flags & O_CREAT) && (flags & O_EXCL)) {
        traced("open", -1, (u64) flags, -1);
        errno = EEXIST;
        return -1;
    }
    if (!n) {
        if (!(flags & O_CREAT)) {
            traced("open", -1, (u64) flags, -1);
            errno = ENOENT;
            return -1;
        }
        n = K.create(path, {});
        n->mode = mode & 0755;
    } else {
        unsigned acc = (flags & O_ACCMODE) == O_RDONLY ? 4 : (flags & O_ACCMODE) == O_WRONLY ? 2 : 6;
        if (((n->mode >> 6) & acc) != acc) {
            traced("open", -1, (u64) flags, -1);
            errno = EACCES;
            return -1;
        }
    }
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) n->data.clear();
    for (int i = 0; i < FD_MAX - FD_BASE; ++i) {
        if (!K.fds[i]) {
            K.fds[i] = OpenFile{n, 0, flags, path};
            ++K.opened;
            traced("open", FD_BASE + i, (u64) flags, FD_BASE + i);
            return FD_BASE + i;
        }
    }
    errno = EMFILE;
    return -1;
}

int do_close(int fd) {
    Pause pz;
    enter_syscall("close");
    auto* s = slot(fd);
    if (!s || !s->has_value()) {
        bad("close", fd);
        traced("close", fd, 0, -1);
        errno = EBADF;
        return -1;
    }
    s->reset();
    ++K.closed;
    // an interrupted close reports an error, but the descriptor is gone
    for (Fault& q : K.queue)
        if (q.kind == 'C') {
            q.kind = 'P';
            ++K.run_events;
            ++stats.faults["eintr_close"];
            traced("close", fd, 0, -1);
            errno = EINTR;
            return -1;
        }
    traced("close", fd, 0, 0);
    return 0;
}

i64 do_lseek(int fd, i64 off, int whence) {
    Pause pz;
    enter_syscall("lseek");
    OpenFile* f = of(fd);
    if (!f) {
        bad("lseek", fd);
        traced("lseek", fd, (u64) off, -1);
        errno = EBADF;
        return -1;
    }
    i64 base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? f->off : K.lead + (i64) f->inode->data.size();
    if (base + off < 0 || (whence != SEEK_SET && whence != SEEK_CUR && whence != SEEK_END)) {
        traced("lseek", fd, (u64) off, -1);
        errno = EINVAL;
        return -1;
    }
    f->off = base + off;
    traced("lseek", fd, (u64) off, f->off);
    return f->off;
}

void fill_stat(struct stat* st, const InodeP& n) {
    std::memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | n->mode;
    st->st_size = (off_t) (K.lead + (i64) n->data.size());
    st->st_nlink = n->linked ? 1 : 0;
    st->st_ino = n->id;
    st->st_dev = 77;
    st->st_blksize = 4096;
}
int do_stat(const char* path, struct stat* st) {
    Pause pz;
    enter_syscall("stat");
    InodeP n = K.lookup(path);
    traced("stat", 0, 0, n ? 0 : -1);
    if (!n) {
        errno = ENOENT;
        return -1;
    }
    fill_stat(st, n);
    return 0;
}
int do_fstat(int fd, struct stat* st) {
    Pause pz;
    enter_syscall("fstat");
    OpenFile* f = of(fd);
    if (!f) {
        bad("fstat", fd);
        errno = EBADF;
        return -1;
    }
    traced("fstat", fd, 0, 0);
    fill_stat(st, f->inode);
    return 0;
}
bool sim_fd(int fd) { return fd >= FD_BASE && fd < FD_MAX; }

} // namespace
} // namespace sim

using namespace sim;

// ---------------------------------------------------------------------------
// The seam: libc entry points. Outside an operation window, and for paths and
// descriptors that are not simulated, they go straight to the real kernel. A
// window never opens a real file for writing.
// ---------------------------------------------------------------------------
extern "C" {

int open(const char* path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    if (ours() && simulated_path(path)) return do_open(path, flags, mode);
    if (ours() && (flags & (O_ACCMODE | O_CREAT | O_TRUNC))) {
        errno = EACCES;
        return -1;
    }
    return (int) syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open64(const char* path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    return open(path, flags, mode);
}
int openat(int dir, const char* path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    if (ours() && simulated_path(path)) return do_open(path, flags, mode);
    if (ours() && (flags & (O_ACCMODE | O_CREAT | O_TRUNC))) {
        errno = EACCES;
        return -1;
    }
    return (int) syscall(SYS_openat, dir, path, flags, mode);
}
int creat(const char* path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int close(int fd) {
    if (ours()) return do_close(fd);
    return (int) syscall(SYS_close, fd);
}
ssize_t read(int fd, void* p, size_t n) {
    if (ours()) return (ssize_t) do_read(fd, p, n);
    return syscall(SYS_read, fd, p, n);
}
ssize_t write(int fd, const void* p, size_t n) {
    if (ours()) return (ssize_t) do_write(fd, p, n);
    return syscall(SYS_write, fd, p, n);
}
ssize_t pread(int fd, void* p, size_t n, off_t off) {
    if (ours()) return (ssize_t) do_read(fd, p, n, off);
    return syscall(SYS_pread64, fd, p, n, off);
}
ssize_t pwrite(int fd, const void* p, size_t n, off_t off) {
    if (ours()) return (ssize_t) do_write(fd, p, n, off);
    return syscall(SYS_pwrite64, fd, p, n, off);
}
ssize_t pread64(int fd, void* p, size_t n, off64_t off) { return pread(fd, p, n, off); }
ssize_t pwrite64(int fd, const void* p, size_t n, off64_t off) { return pwrite(fd, p, n, off); }
ssize_t readv(int fd, const struct iovec* v, int c) {
    if (ours()) {
        ssize_t t = 0;
        for (int i = 0; i < c; ++i) {
            ssize_t r = (ssize_t) do_read(fd, v[i].iov_base, v[i].iov_len);
            if (r < 0) return t ? t : r;
            t += r;
            if ((size_t) r < v[i].iov_len) break;
        }
        return t;
    }
    return syscall(SYS_readv, fd, v, c);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (ours()) {
        ssize_t t = 0;
        for (int i = 0; i < c; ++i) {
            ssize_t r = (ssize_t) do_write(fd, v[i].iov_base, v[i].iov_len);
            if (r < 0) return t ? t : r;
            t += r;
            if ((size_t) r < v[i].iov_len) break;
        }
        return t;
    }
    return syscall(SYS_writev, fd, v, c);
}
off_t lseek(int fd, off_t off, int whence) {
    if (ours()) return do_lseek(fd, off, whence);
    return syscall(SYS_lseek, fd, off, whence);
}
off64_t lseek64(int fd, off64_t off, int whence) { return lseek(fd, off, whence); }
int fsync(int fd) {
    if (ours() && sim_fd(fd)) return 0;
    return (int) syscall(SYS_fsync, fd);
}
int fdatasync(int fd) {
    if (ours() && sim_fd(fd)) return 0;
    return (int) syscall(SYS_fdatasync, fd);
}
int ftruncate(int fd, off_t n) {
    if (ours()) {
        Pause pz;
        enter_syscall("ftruncate");
        OpenFile* f = of(fd);
        if (!f || (f->flags & O_ACCMODE) == O_RDONLY || n < 0 || n - K.lead > (off_t) 1 << 30) {
            if (!f) bad("ftruncate", fd);
            errno = f ? EINVAL : EBADF;
            return -1;
        }
        f->inode->data.resize((size_t) (n < K.lead ? 0 : n - K.lead), 0);
        traced("ftruncate", fd, (u64) n, n);
        return 0;
    }
    return (int) syscall(SYS_ftruncate, fd, n);
}
int truncate(const char* p, off_t n) {
    if (ours()) {
        Pause pz;
        enter_syscall("truncate");
        InodeP i = simulated_path(p) ? K.lookup(p) : nullptr;
        if (!i || n < 0 || n - K.lead > (off_t) 1 << 30) {
            errno = i ? EINVAL : ENOENT;
            return -1;
        }
        i->data.resize((size_t) (n < K.lead ? 0 : n - K.lead), 0);
        traced("truncate", -1, (u64) n, n);
        return 0;
    }
    return (int) syscall(SYS_truncate, p, n);
}
int truncate64(const char* p, off64_t n) { return truncate(p, n); }
int fallocate(int fd, int mode, off_t off, off_t n) {
    if (ours()) {
        Pause pz;
        enter_syscall("fallocate");
        OpenFile* f = of(fd);
        if (!f || (f->flags & O_ACCMODE) == O_RDONLY || mode > 1 || off + n - K.lead > (off_t) 1 << 30) {
            if (!f) bad("fallocate", fd);
            errno = !f ? EBADF : mode > 1 ? EOPNOTSUPP : EINVAL;
            return -1;
        }
        i64 end = off + n - K.lead;
        if (mode == 0 && end > (i64) f->inode->data.size()) f->inode->data.resize((size_t) end, 0);
        traced("fallocate", fd, (u64) off, n);
        return 0;
    }
    return (int) syscall(SYS_fallocate, fd, mode, off, n);
}
int fallocate64(int fd, int mode, off64_t off, off64_t n) { return fallocate(fd, mode, off, n); }
int posix_fallocate(int fd, off_t off, off_t n) { return fallocate(fd, 0, off, n) ? errno : 0; }
int posix_fallocate64(int fd, off64_t off, off64_t n) { return posix_fallocate(fd, off, n); }
int posix_fadvise(int fd, off_t off, off_t n, int a) {
    if (ours()) return of(fd) ? 0 : EBADF;
    return (int) syscall(SYS_fadvise64, fd, off, n, a) ? errno : 0;
}
int dup(int fd) {
    if (!ours() || !sim_fd(fd)) return (int) syscall(SYS_dup, fd);
    Pause pz;
    enter_syscall("dup");
    OpenFile* f = of(fd);
    for (int i = 0; f && i < FD_MAX - FD_BASE; ++i)
        if (!K.fds[i]) {
            K.fds[i] = *f;               // the offset is not shared: good enough for a copy that is only closed
            ++K.opened;
            traced("dup", fd, 0, FD_BASE + i);
            return FD_BASE + i;
        }
    if (!f) bad("dup", fd);
    errno = f ? EMFILE : EBADF;
    return -1;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    if (!ours() || (!sim_fd(fd) && fd > 2)) return (int) syscall(SYS_fcntl, fd, cmd, a);
    if (sim_fd(fd) && !of(fd)) {
        Pause pz;
        bad("fcntl", fd);
        errno = EBADF;
        return -1;
    }
    switch (cmd) {
        case F_DUPFD: case F_DUPFD_CLOEXEC: return sim_fd(fd) ? dup(fd) : -1;
        case F_GETFL: return sim_fd(fd) ? of(fd)->flags & ~(O_CREAT | O_EXCL | O_TRUNC) : O_RDWR;
        case F_SETFL: if (sim_fd(fd)) of(fd)->flags = (of(fd)->flags & ~O_APPEND) | ((int) a & O_APPEND); return 0;
        default: return 0;
    }
}
int isatty(int fd) {
    if (ours()) {
        errno = ENOTTY;
        return 0;
    }
    char b[64];
    return syscall(SYS_ioctl, fd, 0x5401 /* TCGETS */, b) == 0;
}
int poll(struct pollfd* p, nfds_t n, int timeout) {
    if (!ours()) return (int) syscall(SYS_poll, p, n, timeout);
    Pause pz;
    enter_syscall("poll");
    for (int spin = 0;; ++spin) {
        int ready = 0;
        bool waits = false;
        for (nfds_t i = 0; i < n; ++i) {
            p[i].revents = 0;
            if (p[i].fd < 0) continue;
            if (p[i].fd == 0 && (p[i].events & POLLIN) && K.in_pos >= K.in_avail.size()) waits = true;
            else p[i].revents = p[i].events & (POLLIN | POLLOUT);
            if (p[i].revents) ++ready;
        }
        if (ready || timeout == 0 || !waits) return ready;
        if (timeout > 0) { stats.sim_time_us += (u64) timeout * 1000; return 0; }
        if (spin > 10000) die_hang("standard input never delivers");
        if (!K.on_blocked || K.on_blocked() <= 0) {
            for (nfds_t i = 0; i < n; ++i) if (p[i].fd == 0) p[i].revents = POLLIN | POLLHUP;
            return 1;
        }
    }
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int stat(const char* p, struct stat* st) {
    if (ours() && simulated_path(p)) return do_stat(p, st);
    return (int) syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int lstat(const char* p, struct stat* st) {
    if (ours() && simulated_path(p)) return do_stat(p, st);
    return (int) syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
}
int fstat(int fd, struct stat* st) {
    if (ours() && (sim_fd(fd) || fd == -1)) return do_fstat(fd, st);
    return (int) syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
}
int fstatat(int dir, const char* p, struct stat* st, int fl) {
    if (ours() && simulated_path(p)) return do_stat(p, st);
    if (ours() && sim_fd(dir)) return do_fstat(dir, st);
    return (int) syscall(SYS_newfstatat, dir, p, st, fl);
}
int stat64(const char* p, struct stat64* st) { return stat(p, reinterpret_cast<struct stat*>(st)); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, reinterpret_cast<struct stat*>(st)); }
int fstat64(int fd, struct stat64* st) { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int fstatat64(int d, const char* p, struct stat64* st, int fl) {
    return fstatat(d, p, reinterpret_cast<struct stat*>(st), fl);
}
int statx(int dir, const char* p, int fl, unsigned mask, struct statx* sx) {
    if (ours() && (simulated_path(p) || sim_fd(dir))) {
        struct stat st;
        int r = simulated_path(p) ? do_stat(p, &st) : do_fstat(dir, &st);
        if (r) return r;
        std::memset(sx, 0, sizeof *sx);
        sx->stx_mask = STATX_BASIC_STATS;
        sx->stx_mode = (unsigned short) st.st_mode;
        sx->stx_size = (u64) st.st_size;
        sx->stx_nlink = (unsigned) st.st_nlink;
        sx->stx_ino = st.st_ino;
        return 0;
    }
    return (int) syscall(SYS_statx, dir, p, fl, mask, sx);
}
int access(const char* p, int m) {
    if (ours() && simulated_path(p)) {
        struct stat st;
        if (do_stat(p, &st)) return -1;
        if (((st.st_mode >> 6) & (unsigned) m & 7) == ((unsigned) m & 7)) return 0;
        errno = EACCES;
        return -1;
    }
    return (int) syscall(SYS_access, p, m);
}
int faccessat(int d, const char* p, int m, int fl) {
    if (ours() && simulated_path(p)) return access(p, m);
    return (int) syscall(SYS_faccessat, d, p, m, fl);
}
int unlink(const char* p) {
    if (ours()) {
        if (!simulated_path(p)) {
            errno = EACCES;
            return -1;
        }
        auto it = K.names.find(p);
        if (it == K.names.end()) {
            errno = ENOENT;
            return -1;
        }
        it->second->linked = false;
        K.names.erase(it);
        return 0;
    }
    return (int) syscall(SYS_unlink, p);
}
int rename(const char* a, const char* b) {
    if (ours()) {
        auto it = simulated_path(a) && simulated_path(b) ? K.names.find(a) : K.names.end();
        if (it == K.names.end()) {
            errno = ENOENT;
            return -1;
        }
        InodeP n = it->second;
        K.names.erase(it);
        K.names[b] = n;
        return 0;
    }
    return (int) syscall(SYS_rename, a, b);
}

// ---------------------------------------------------------------------------
// Basic-block callback: step budget and preemption point.
// ---------------------------------------------------------------------------
void __sanitizer_cov_trace_pc(void) {
    ++blocks_run;
    if (block_budget && blocks_run > block_budget) die_hang("basic-block budget of one run exceeded");
    if (preempt_hook && pause_depth == 0) preempt_hook();
}

} // extern "C"

// ---------------------------------------------------------------------------
// The allocator seam.
// ---------------------------------------------------------------------------
static void* sim_alloc(std::size_t n, std::size_t al) {
    if (live && K.active && K.in_op && pause_depth == 0) {
        ++K.op_allocs;
        ++stats.allocs;
        if (K.alloc_fail_at && K.op_allocs == K.alloc_fail_at) {
            Pause pz;
            ++K.run_events;
            ++stats.faults["alloc_fail"];
            K.alloc_failed = true;
            K.note("   allocation %lld of %zu bytes fails", (long long) K.op_allocs, n);
            return nullptr;
        }
    }
    if (n == 0) n = 1;
    if (al > alignof(std::max_align_t)) {
        void* p = nullptr;
        if (posix_memalign(&p, al, n)) return nullptr;
        if (alloc_hook) alloc_hook(p, n);
        return p;
    }
    void* p = std::malloc(n);
    if (alloc_hook && p) alloc_hook(p, n);
    return p;
}
void* operator new(std::size_t n) {
    void* p = sim_alloc(n, 0);
    if (!p) throw std::bad_alloc{};
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, std::align_val_t a) {
    void* p = sim_alloc(n, (std::size_t) a);
    if (!p) throw std::bad_alloc{};
    return p;
}
void* operator new[](std::size_t n, std::align_val_t a) { return operator new(n, a); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, 0); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, 0); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
