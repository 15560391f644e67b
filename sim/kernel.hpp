// The simulated kernel: files, standard streams, faults, allocation, crash.
#pragma once
#include <csetjmp>
#include <functional>
#include <memory>
#include <optional>
#include "sim.hpp"

namespace sim {

struct Inode {
    Bytes data;
    bool linked = true;
    u64 id = 0;
    unsigned mode = 0644;     // as stored
    unsigned grant = 6;       // what other processes left the owner (4 read, 2 write)
};
using InodeP = std::shared_ptr<Inode>;

struct OpenFile {
    InodeP inode;
    i64 off = 0;
    int flags = 0;
    std::string path;
};

constexpr int FD_BASE = 100, FD_MAX = 164;
constexpr std::size_t SHARED_SINK = 1 << 20;

struct Sink {             // where descriptors 1 and 2 go
    Bytes data;
    u64 calls = 0;
};

// per-operation fault state (one per thread in multi-threaded scenarios)
struct OpState {
    std::vector<Fault> queue;
    std::size_t qpos = 0;
    i64 crash_at = 0;         // syscall index (1-based), 0 = never
    i64 torn = -1;
    i64 alloc_fail_at = 0;
    i64 op_syscalls = 0, op_allocs = 0;
    bool in_op = false;
    bool hard = false, soft = false, alloc_failed = false;
};

struct Kernel : OpState {
    bool active = false;
    std::map<std::string, InodeP> names;
    std::optional<OpenFile> fds[FD_MAX - FD_BASE];
    Sink sink[2];
    struct Shared { std::size_t n[2]; u8 d[2][SHARED_SINK]; };
    Shared* shared = nullptr;             // used instead of sink[] after fork

    // standard input: bytes delivered and not yet read
    Bytes in_avail;
    std::size_t in_pos = 0;
    // called when the program reads standard input and nothing is available:
    // +1 more bytes were delivered, 0 end of input, -1 nothing can ever arrive
    std::function<int()> on_blocked;
    std::function<void()> on_stdin_read;   // at each read of fd 0, before data
    std::function<void(int, const u8*, std::size_t)> on_sink;
    std::function<void(i64)> on_syscall;   // before each system call of an operation

    u64 run_syscalls = 0;
    u64 run_events = 0;       // faults, crashes, deliveries, switches in this run

    // descriptor discipline
    std::vector<std::string> bad_fd;      // operations on descriptors not open
    i64 lead = 0;             // every file starts with a hole of this size, which is not stored
    u64 opened = 0, closed = 0;

    bool crash_armed = false;
    sigjmp_buf crash_jmp;
    bool crashed = false;

    u64 trace = 0;            // exact trace of the run
    u64 shape = 0;            // coarse trace: kinds and outcome classes
    bool log_on = false;
    std::vector<std::string> log;

    u64 next_id = 1;

    void reset();
    void begin_op(const Step& s);
    void end_op();
    InodeP create(const std::string& path, const Bytes& content);
    InodeP lookup(const std::string& path);
    std::size_t open_count() const;
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void mixv(u64 v) { trace = mix(trace, v); }
};
extern Kernel& K;

struct Pause {                // simulator code inside an operation window
    Pause();
    ~Pause();
};
extern thread_local int pause_depth;

// step budget and preemption, driven by basic-block callbacks
extern u64 block_budget;
extern u64 blocks_run;
extern void (*preempt_hook)();
extern void (*alloc_hook)(const void*, std::size_t);              // memory handed out
extern void (*mem_hook)(const void*, std::size_t, bool);    // memory a system call reads or writes

[[noreturn]] void die_hang(const char* what);
void raw_write(int fd, const char* p, std::size_t n);

struct Op {                   // RAII operation window around library calls
    explicit Op(const Step& s) { K.begin_op(s); }
    ~Op() { K.end_op(); }
};

} // namespace sim
