// File scenarios: C01 C03 C04 C05 C08 C13 C14 C16 (file part).
#include <cmp/io/file.hpp>
#include <cmp/io/exceptions.hpp>
#include <cmp/io/data_output_stream.hpp>
#include <cmp/io/text_output_stream.hpp>
#include <cmp/io/data_io_stream.hpp>
#include <cmp/io/text_io_stream.hpp>

#include <optional>
#include "filemodel.hpp"

namespace sim {
namespace {

const char* PATHS[6] = {
    "/simfs/a", "/simfs/some-longer-file-name.dat", "/simfs/c", "/simfs/d\xc3\xa4t\xc3\xa4", "/simfs/e", "/simfs/f"};
constexpr int NPATH = 6;
constexpr int NSLOT = 4;

struct Slot {
    std::unique_ptr<cmp::file> obj;
    bool open = false;
    int mode = 0;                 // 0 ro 1 wo 2 rw
    i64 cap = 0;
    InodeP inode;                 // device-side inode it refers to
    FileModel m;
    bool external = false;        // C16: other parties change the inode
    std::vector<std::set<u8>> seen;   // bytes ever present per offset (C16)
};

struct World {
    Slot s[NSLOT];
    bool strict_ext = false;
};

cmp::access_mode am(int m) {
    return m == 0 ? cmp::read_only : m == 1 ? cmp::write_only : cmp::read_and_write;
}
cmp::if_not_there nt(int m) { return m ? cmp::if_not_there::create : cmp::if_not_there::fail; }

void note_seen(Slot& x) {
    const Bytes& d = x.inode->data;
    if (x.seen.size() < d.size()) x.seen.resize(d.size());
    for (std::size_t i = 0; i < d.size(); ++i) x.seen[i].insert(d[i]);
}

void check_device(World& w, int si) {
    Slot& x = w.s[si];
    if (!x.open || x.external) return;
    const Bytes& d = x.inode->data;
    if (!x.m.absorb(d)) {
        fail("device-content", "file behind object %d is not a prefix application of its accepted writes: %s",
             si, diff(d, x.m.logical()).c_str());
    }
}

// everything that must hold between operations, for all objects
void check_world(World& w) {
    if (!K.bad_fd.empty())
        fail("foreign-descriptor", "operation on a descriptor that is not open: %s", K.bad_fd.front().c_str());
    std::map<Inode*, int> want, have;
    for (int i = 0; i < NSLOT; ++i) if (w.s[i].open) ++want[w.s[i].inode.get()];
    for (auto& f : K.fds) if (f) ++have[f->inode.get()];
    if (want != have) {
        std::size_t nw = 0, nh = K.open_count();
        for (auto& [k, v] : want) nw += (std::size_t) v;
        fail("descriptor-conservation", "%zu descriptors are open but the live objects own %zu (or they refer to other files)",
             nh, nw);
    }
    for (int i = 0; i < NSLOT; ++i) {
        Slot& x = w.s[i];
        if (x.obj && x.obj->is_open() != x.open)
            fail("is-open", "object %d reports is_open=%d, expected %d", i, (int) x.obj->is_open(), (int) x.open);
        check_device(w, i);
    }
}

void close_model(World& w, int si, bool clean) {
    // the object gave up its file: all accepted bytes are on the device,
    // unless the device refused them
    Slot& x = w.s[si];
    if (!x.open) return;
    if (!x.external) {
        if (!x.m.absorb(x.inode->data))
            fail("device-content", "after close, file of object %d is not a prefix application of its accepted writes: %s",
                 si, diff(x.inode->data, x.m.logical()).c_str());
        if (clean && x.inode->data != x.m.logical())
            fail("close-lost-output", "after close, file of object %d misses accepted bytes: %s", si,
                 diff(x.inode->data, x.m.logical()).c_str());
    }
    x.open = false;
    x.inode = nullptr;
    x.m = FileModel{};
    x.external = false;
    x.seen.clear();
}

int lead_how = 0;

void opened(Slot& x, InodeP n, int mode) {
    x.open = true;
    x.mode = mode;
    x.inode = n;
    x.m = FileModel{};
    x.m.base = n->data;
    x.external = false;
    x.seen.clear();
    note_seen(x);
    if (K.lead && x.obj) {           // the model counts from the end of the hole
        i64 at, got;
        Step q{"seek", {}, {}};
        auto others = std::exchange(K.on_syscall, nullptr);
        {
            Op o(q);
            at = x.obj->get_position();
            if (lead_how & 2) {          // there and back
                x.obj->go_forward(K.lead + 3);
                x.obj->go_back(K.lead + 2);
                x.obj->set_position(-1, cmp::position_reference::current);
            }
            if (lead_how & 1) x.obj->go_forward(K.lead);
            else x.obj->set_position(K.lead, cmp::position_reference::begin);
            got = x.obj->get_position();
        }
        K.on_syscall = others;
        if (at != 0) fail("position", "position %lld right after opening", (long long) at);
        if (got != K.lead) fail("position", "seek to %lld ended at %lld", (long long) K.lead, (long long) got);
    }
}

bool granted(const InodeP& n, int mode) {
    unsigned acc = mode == 0 ? 4 : mode == 1 ? 2 : 6;
    return (n->grant & acc) == acc;
}

// what an open call must do
void check_open(World& w, Slot& x, const char* path, int mode, int ifnot, bool result, InodeP before,
                const Bytes& content_before, bool hard) {
    (void) w;
    InodeP after = K.lookup(path);
    bool expect = before ? granted(before, mode) : ifnot == 1;
    if (!hard && result != expect)
        fail("open-result", "open(%s, mode %d, %s) returned %d, expected %d", path, mode, ifnot ? "create" : "fail",
             (int) result, (int) expect);
    if (hard && !expect && result) fail("open-result", "open of a missing file succeeded");
    if (before) {
        if (after != before) fail("open-alters", "opening %s replaced the file", path);
        if (after->data != content_before) fail("open-alters", "opening %s altered its content", path);
    } else if (ifnot == 0 && after) {
        fail("open-creates", "open(%s) created a file although it was asked to fail", path);
    } else if (ifnot == 1 && result && !after) {
        fail("open-result", "open reported success but there is no file");
    }
    if (result) {
        if (after && !after->data.empty() && !before) fail("open-creates", "created file is not empty");
        opened(x, after, mode);
        if (x.obj && x.obj->get_access_mode() != am(mode))
            fail("access-mode", "access mode reported differs from the one requested");
    }
}

struct FileScenario : Scenario {
    std::string prop;
    explicit FileScenario(std::string p) : prop{std::move(p)} {}

    // ---------------------------------------------------------------- execute
    void execute(const Plan& p) override {
        auto wp = std::make_unique<World>();
        World& w = *wp;
        K.crash_armed = true;
        volatile std::size_t at = 0;
        if (sigsetjmp(K.crash_jmp, 0) == 0) {
            for (std::size_t i = 0; i < p.steps.size(); ++i) {
                at = i;
                step(w, p.steps[i]);
                check_world(w);
            }
            K.crash_armed = false;
            finish(w);
        } else {
            K.crash_armed = false;
            after_crash(w, p.steps[at]);
            // the process is gone: its objects are abandoned, not destroyed
            for (auto& x : w.s) (void) x.obj.release();
        }
    }

    void finish(World& w) {
        // final destruction of everything, fault-free
        for (int i = 0; i < NSLOT; ++i) {
            if (!w.s[i].obj) continue;
            Step d{"del", {i}, {}};
            step(w, d);
            check_world(w);
        }
        if (K.open_count() != 0) fail("descriptor-leak", "%zu descriptors still open at the end", K.open_count());
    }

    void after_crash(World& w, const Step& s) {
        K.mixv(0xDEAD);
        for (int i = 0; i < NSLOT; ++i) {
            Slot& x = w.s[i];
            if (!x.open || x.external) continue;
            if (s.op == "write" && s.arg(0) == i) {
                Bytes data = pattern((u64) s.arg(2), (std::size_t) s.arg(1));
                x.m.accept(data, data.size());      // any prefix of it may be there
            }
            if ((s.op == "puts" || s.op == "wstream") && s.arg(0) == i) {
                Bytes data = pattern((u64) s.arg(2), (std::size_t) s.arg(1));
                x.m.accept(data, data.size());
            }
            Bytes d = x.inode->data;
            if (!x.m.absorb(d))
                fail("crash-prefix", "after a crash in '%s' the file of object %d is not a prefix application of its accepted writes: %s",
                     to_text(s).c_str(), i, diff(d, x.m.logical()).c_str());
        }
        // restart: a fresh object reads back exactly what survived
        K.crashed = false;
        K.lead = 0;                   // the survivors are looked at without the hole
        for (auto& f : K.fds) f.reset();
        for (int pi = 0; pi < NPATH; ++pi) {
            InodeP n = K.lookup(PATHS[pi]);
            if (!n) continue;
            Bytes want = n->data;
            Step rs{"recover", {pi}, {}};
            Op op(rs);
            cmp::file f{PATHS[pi], cmp::read_only, cmp::if_not_there::fail, 16};
            if (!f.is_open()) fail("crash-reopen", "cannot reopen %s after the crash", PATHS[pi]);
            Bytes got;
            u8 buf[13];
            for (int k = 0; k < 100000; ++k) {
                std::size_t r = f.read(reinterpret_cast<std::byte*>(buf), sizeof buf);
                if (r > sizeof buf) fail("read-count", "read returned more than requested");
                got.insert(got.end(), buf, buf + r);
                if (r == 0) break;
            }
            if (got != want) fail("crash-reopen", "reopened file reads differently: %s", diff(got, want).c_str());
            if (!f.is_at_end()) fail("at-end", "not at end after reading everything");
        }
    }

    // clean: the operation met no device error
    cmp::text_output_stream<cmp::file>* kept = nullptr;

    void barrier(World& w, int si, const char* what) {
        Slot& x = w.s[si];
        if (!x.open || x.external || K.hard) return;
        if (x.inode->data != x.m.logical())
            fail("barrier", "after %s without device error the file misses accepted bytes: %s", what,
                 diff(x.inode->data, x.m.logical()).c_str());
    }

    // two objects on one file are outside these properties
    static bool shared(World& w, int si, const InodeP& n) {
        for (int i = 0; i < NSLOT; ++i) if (i != si && w.s[i].open && w.s[i].inode == n) return true;
        return false;
    }

    // Other processes may also act between the system calls of one operation:
    // "mid_x k args" arms "ext_x args" to happen before the k-th system call of
    // the next operation (or right after it, if it makes fewer).
    struct Armed { i64 k; Step ext; };
    std::vector<Armed> armed;
    std::vector<i64> sizes;           // the file's sizes during the operation
    bool mid = false;                 // something happened inside the operation
    std::string watch;                // path being opened: its states while opening
    std::vector<std::pair<InodeP, Bytes>> states;

    void fire(World& w, i64 upto) {
        for (std::size_t i = 0; i < armed.size();) {
            if (armed[i].k > upto) { ++i; continue; }
            Step e = armed[i].ext;
            armed.erase(armed.begin() + (i64) i);
            external(w, e);
            for (auto& x : w.s) if (x.open && x.external) sizes.push_back((i64) x.inode->data.size());
            if (upto != INT64_MAX) { mid = true; probe("changed_inside_an_operation"); }
            if (!watch.empty() && upto != INT64_MAX) {
                InodeP n = K.lookup(watch);
                for (auto& [m, d] : states) if (m) d = m->data;
                states.push_back({n, n ? n->data : Bytes{}});
            }
        }
    }

    void step(World& w, const Step& s) {
        if (s.op.rfind("mid_", 0) == 0) {
            Step e{"ext_" + s.op.substr(4), {s.a.begin() + (s.a.empty() ? 0 : 1), s.a.end()}, {}};
            armed.push_back({s.arg(0), e});
            return;
        }
        if (armed.empty() || s.op.rfind("ext", 0) == 0 || s.op == "mkfile") { mid = false; step1(w, s); return; }
        mid = false;
        sizes.clear();
        K.on_syscall = [&](i64 k) { fire(w, k); };
        step1(w, s);
        K.on_syscall = nullptr;
        watch.clear();
        if (prop == "C13") armed.clear();     // it was about the race only
        fire(w, INT64_MAX);
        mid = false;
    }

    void watching(const char* path) {
        watch = path;
        states.clear();
        InodeP n = K.lookup(path);
        states.push_back({n, n ? n->data : Bytes{}});
    }

    // an open during which other processes created, removed, replaced or changed the file
    void check_raced_open(World& w, int si, const char* path, int mode, int ifnot, bool result, bool hard) {
        Slot& x = w.s[si];
        probe("open_raced");
        InodeP last = states.back().first, now = K.lookup(path), got;
        bool some = false, none = false, created = false;
        for (auto& [n, d] : states) {
            (n ? some : none) = true;
            if (n && n->data != d) fail("open-alters", "opening %s altered its content", path);
        }
        bool known = false;
        for (auto& [n, d] : states) if (n == now) known = true;
        if (now != last) {
            if (ifnot == 0) fail("open-creates", "open(%s) created or replaced a file although it was asked to fail", path);
            if (last || known) fail("open-alters", "opening %s replaced the file", path);
            if (!now->data.empty()) fail("open-creates", "created file is not empty");
            created = true;
        }
        std::map<Inode*, int> others;
        for (int i = 0; i < NSLOT; ++i) if (i != si && w.s[i].open) ++others[w.s[i].inode.get()];
        for (auto& f : K.fds) if (f && --others[f->inode.get()] < 0) got = f->inode;
        if (result != (got != nullptr)) fail("open-result", "open returned %d but the descriptors say otherwise", (int) result);
        if (!hard) {
            bool denied = false;
            for (auto& [n, d] : states) if (n && !granted(n, mode)) denied = true;
            if (!result && !denied && (ifnot == 1 || !none)) fail("open-result", "open(%s) failed although nothing prevented it", path);
            if (result && ifnot == 0 && !some) fail("open-result", "open of a missing file succeeded");
        }
        if (result) {
            bool fine = created && got == now;
            for (auto& [n, d] : states) if (n && n == got) fine = true;
            // created by us, then removed by someone else
            if (!fine && ifnot == 1 && none && got->data.empty()) fine = true;
            if (!fine) fail("open-result", "the object has a file open that never had the name %s", path);
            opened(x, got, mode);
        }
    }

    void step1(World& w, const Step& s) {
        const std::string& op = s.op;
        int si = (int) s.arg(0);
        if (op == "lead") {               // a huge hole before the data of every file
            static const i64 at[] = {0, (1ll << 31) - 20, 1ll << 31, (1ll << 32) - 20, 1ll << 32, (1ll << 33) + 5, 1ll << 40, (1ll << 53) + 1};
            for (auto& x : w.s) if (x.obj) return;
            K.lead = at[(u64) s.arg(0) % 8];
            lead_how = (int) s.arg(1);
            if (K.lead) probe("positions_beyond_31_bits");
            return;
        }
        if (op == "mkfile") {             // mkfile path size pattern
            K.create(PATHS[s.arg(0)], pattern((u64) s.arg(2), (std::size_t) s.arg(1)));
            return;
        }
        if (op.rfind("ext", 0) == 0) { external(w, s); return; }
        Slot& x = w.s[si];
        if (op == "new") {                // new slot path mode ifnot cap
            if (x.obj) return;
            const char* path = PATHS[s.arg(1)];
            InodeP before = K.lookup(path);
            if (shared(w, si, before)) return;
            Bytes cb = before ? before->data : Bytes{};
            x.cap = s.arg(4);
            watching(path);
            {
                Op o(s);
                x.obj = std::make_unique<cmp::file>(path, am((int) s.arg(2)), nt((int) s.arg(3)), (std::size_t) s.arg(4));
            }
            if (mid) {
                check_raced_open(w, si, path, (int) s.arg(2), (int) s.arg(3), x.obj->is_open(), K.hard);
                return;
            }
            check_open(w, x, path, (int) s.arg(2), (int) s.arg(3), x.obj->is_open(), before, cb, K.hard);
            return;
        }
        if (op == "def") {
            if (x.obj) return;
            Op o(s);
            x.obj = std::make_unique<cmp::file>();
            x.cap = 1024;
            return;
        }
        if (!x.obj) return;
        if (op == "open") {               // open slot path mode ifnot
            const char* path = PATHS[s.arg(1)];
            InodeP before = K.lookup(path);
            if (shared(w, si, before)) return;
            bool was_open = x.open;
            bool same = was_open && x.inode == before;
            Bytes cb = before ? before->data : Bytes{};
            bool r;
            watching(path);
            if (same) armed.clear();
            {
                Op o(s);
                r = x.obj->open(path, am((int) s.arg(2)), nt((int) s.arg(3)));
            }
            bool hard = K.hard;
            if (mid) {
                if (was_open) close_model(w, si, !hard);
                check_raced_open(w, si, path, (int) s.arg(2), (int) s.arg(3), r, hard);
                return;
            }
            if (was_open) {
                // the old file was closed first; its faults (if any) precede
                close_model(w, si, !hard);
                probe("reopen_while_open");
            }
            if (same) cb = before->data;      // its own pending output went there
            check_open(w, x, path, (int) s.arg(2), (int) s.arg(3), r, before, cb, hard);
            if (!r && x.obj->is_open()) fail("open-result", "failed open leaves the object open");
            return;
        }
        if (op == "close") {
            {
                Op o(s);
                x.obj->close();
            }
            close_model(w, si, !K.hard);
            if (x.obj->is_open()) fail("is-open", "still open after close");
            return;
        }
        if (op == "del") {
            {
                Op o(s);
                x.obj.reset();
            }
            close_model(w, si, !K.hard);
            return;
        }
        if (op == "movec" || op == "mova") {   // movec src dst / mova src dst
            Slot& y = w.s[s.arg(1)];
            if (&x == &y) {                  // onto itself: nothing changes
                if (op == "movec") return;
                Op o(s);
                cmp::file& self = *x.obj;
                *x.obj = std::move(self);
                return;
            }
            if (op == "movec") {
                if (y.obj) return;
                Op o(s);
                y.obj = std::make_unique<cmp::file>(std::move(*x.obj));
            } else {
                if (!y.obj) return;
                {
                    Op o(s);
                    *y.obj = std::move(*x.obj);
                }
                close_model(w, (int) s.arg(1), !K.hard);
            }
            probe("file_moved");
            if (x.open && !x.m.pending.empty()) probe("moved_with_pending");
            y.open = x.open; y.mode = x.mode; y.cap = x.cap; y.inode = x.inode; y.m = x.m;
            y.external = x.external; y.seen = x.seen;
            x.open = false; x.inode = nullptr; x.m = FileModel{}; x.external = false; x.seen.clear();
            return;
        }
        if (op == "isopen") { return; }       // checked by check_world
        if (op == "rclosed") {                // reading a closed readable object yields nothing
            if (x.open) return;
            u8 buf[8];
            std::size_t r = 0;
            {
                Op o(s);
                try { r = x.obj->read(reinterpret_cast<std::byte*>(buf), 8); } catch (const cmp::invalid_access_mode&) {}
            }
            if (r != 0) fail("closed-read", "reading a closed object returned %zu bytes", r);
            return;
        }
        if (!x.open) return;
        if (op == "read") { do_read(w, s); return; }
        if (op == "write") { do_write(w, s); return; }
        if (op == "flush") {
            if (x.mode == 0) return;
            {
                Op o(s);
                x.obj->flush();
            }
            check_device(w, si);
            barrier(w, si, "flush");
            if (!K.hard && !x.m.pending.empty()) x.m.absorb(x.inode->data);
            return;
        }
        if (op == "seek" || op == "back" || op == "fwd") { do_seek(w, s); return; }
        if (op == "far") { do_far(w, s); return; }
        if (op == "pos") { query_pos(w, s); return; }
        if (op == "end") { query_end(w, s); return; }
        if (op == "mode") {
            if (x.obj->get_access_mode() != am(x.mode)) fail("access-mode", "access mode changed");
            return;
        }
        if (op == "wstream") {            // wstream slot n pattern : bytes through a data stream object's lifetime
            if (x.mode == 0) return;
            Bytes data = pattern((u64) s.arg(2), (std::size_t) s.arg(1));
            i64 how = s.arg(3);
            std::size_t got = 0;
            auto bytes = reinterpret_cast<const std::byte*>(data.data());
            struct Unwind {};
            {
                Op o(s);
                switch (how) {
                    case 1:             // leaving the scope by an exception
                        try {
                            cmp::data_output_stream<cmp::file> st{*x.obj, std::endian::native};
                            got = st.write(bytes, data.size());
                            throw Unwind{};
                        } catch (const Unwind&) { probe("stream_unwound"); }
                        break;
                    case 2: {           // explicit flush; the stream itself outlives the check
                        auto st = std::make_unique<cmp::text_output_stream<cmp::file>>(*x.obj, cmp::utf8, std::endian::native);
                        got = st->write(bytes, data.size());
                        st->flush();
                        kept = st.release();
                        break;
                    }
                    case 3: {
                        cmp::data_io_stream<cmp::file> st{*x.obj, std::endian::native};
                        got = st.write(bytes, data.size());
                        break;
                    }
                    case 4:
                        try {
                            cmp::text_io_stream<cmp::file> st{*x.obj, cmp::utf8, std::endian::native};
                            got = st.write(bytes, data.size());
                            throw Unwind{};
                        } catch (const Unwind&) {}
                        break;
                    case 5: {           // a copy dies first, then the original
                        cmp::text_output_stream<cmp::file> st{*x.obj, cmp::utf8, std::endian::native};
                        {
                            cmp::text_output_stream<cmp::file> copy{st};
                            got = copy.write(bytes, data.size());
                        }
                        break;
                    }
                    case 6: {           // moved: the last one standing delivers
                        cmp::data_output_stream<cmp::file> st{*x.obj, std::endian::native};
                        cmp::data_output_stream<cmp::file> to{std::move(st)};
                        got = to.write(bytes, data.size());
                        break;
                    }
                    default: {
                        cmp::data_output_stream<cmp::file> st{*x.obj, std::endian::native};
                        got = st.write(bytes, data.size());
                    }
                }
                K.mixv(got);
            }
            if (got > data.size()) fail("write-count", "stream write reports %zu of %zu", got, data.size());
            if (!K.hard && got != data.size()) fail("write-count", "stream write reports %zu of %zu", got, data.size());
            x.m.accept(data, got);
            check_device(w, si);
            barrier(w, si, how == 2 ? "flushing an output stream" : "destroying an output stream");
            if (kept) {
                Op o(Step{"wstream", {}, {}});
                delete kept;
                kept = nullptr;
            }
            check_device(w, si);
            return;
        }
    }

    void do_read(World& w, const Step& s) {
        int si = (int) s.arg(0);
        Slot& x = w.s[si];
        std::size_t n = (std::size_t) s.arg(1);
        std::unique_ptr<u8[]> buf{new u8[n ? n : 1]};
        std::memset(buf.get(), 0xCC, n ? n : 1);
        Bytes before = x.inode->data;
        std::size_t r = 0;
        std::size_t size0 = x.inode->data.size();
        bool threw = false;
        bool had_pending = !x.m.pending.empty();
        {
            Op o(s);
            try {
                r = x.obj->read(reinterpret_cast<std::byte*>(buf.get()), n);
            } catch (const cmp::invalid_access_mode&) {
                threw = true;
            }
        }
        K.mixv(r);
        if (x.mode == 1) {
            if (!threw) fail("access-mode", "read on a write-only file did not throw");
            if (x.inode->data != before && !had_pending) fail("access-mode", "refused read altered the file");
            return;
        }
        if (threw) fail("access-mode", "read on a readable file threw invalid_access_mode");
        if (r > n) fail("read-count", "read of %zu bytes returned %zu", n, r);
        if (x.external) { check_ext_read(x, buf.get(), n, r, size0); return; }
        check_device(w, si);
        Bytes c = x.m.logical();
        i64 rest = (i64) c.size() - x.m.pos;
        if (rest < 0) rest = 0;
        std::size_t full = (i64) n < rest ? n : (std::size_t) rest;
        if (r > full) fail("read-count", "read returned %zu bytes, only %zu remain before the end", r, full);
        if (r > 0 && std::memcmp(buf.get(), c.data() + x.m.pos, r) != 0)
            fail("read-data", "read of %zu at %lld returned wrong bytes: %s", n, (long long) x.m.pos,
                 diff(Bytes(buf.get(), buf.get() + r), Bytes(c.begin() + x.m.pos, c.begin() + x.m.pos + (i64) r)).c_str());
        if (!K.hard && r != full)
            fail("read-count", "read of %zu at %lld returned %zu without any device error, %zu were available", n,
                 (long long) x.m.pos, r, full);
        if (r < full) probe("read_cut_by_error");
        if (n > (u64) x.cap && x.cap > 0) probe("read_larger_than_buffer");
        x.m.pos += (i64) r;
    }

    void check_ext_read(Slot& x, const u8* p, std::size_t n, std::size_t r, std::size_t size0) {
        note_seen(x);
        const Bytes& d = x.inode->data;
        for (std::size_t i = 0; i < r; ++i) {
            u64 off = (u64) x.m.pos + i;
            if (off >= x.seen.size() || !x.seen[off].count(p[i]))
                fail("read-data", "byte 0x%02x at offset %llu was never in the file", p[i], (unsigned long long) off);
        }
        bool only_appended = true;
        for (auto& b : x.seen) if (b.size() > 1) only_appended = false;
        if (x.seen.size() > d.size()) only_appended = false;
        if (only_appended && !K.hard) {
            i64 rest = (i64) d.size() - x.m.pos;
            std::size_t full = rest <= 0 ? 0 : (i64) n < rest ? n : (std::size_t) rest;
            i64 rest0 = (i64) size0 - x.m.pos;
            std::size_t full0 = rest0 <= 0 ? 0 : (i64) n < rest0 ? n : (std::size_t) rest0;
            if (mid ? r > full || r < full0 : r != full)
                fail("read-count", "read of %zu at %lld returned %zu, %zu bytes are in the file from there", n,
                     (long long) x.m.pos, r, full);
        } else if (!K.hard && !mid && n > 0 && r == 0 && x.m.pos < (i64) d.size()) {
            fail("read-count", "read of %zu at %lld returned nothing although the file has %zu bytes", n,
                 (long long) x.m.pos, d.size());
        }
        x.m.pos += (i64) r;
    }

    void do_write(World& w, const Step& s) {
        int si = (int) s.arg(0);
        Slot& x = w.s[si];
        std::size_t n = (std::size_t) s.arg(1);
        Bytes data = pattern((u64) s.arg(2), n);
        std::unique_ptr<u8[]> buf{new u8[n ? n : 1]};
        if (n) std::memcpy(buf.get(), data.data(), n);
        Bytes before = x.inode->data;
        std::size_t r = 0;
        bool threw = false;
        {
            Op o(s);
            try {
                r = x.obj->write(reinterpret_cast<const std::byte*>(buf.get()), n);
            } catch (const cmp::invalid_access_mode&) {
                threw = true;
            }
        }
        K.mixv(r);
        if (x.mode == 0) {
            if (!threw) fail("access-mode", "write on a read-only file did not throw");
            if (x.inode->data != before) fail("access-mode", "refused write altered the file");
            return;
        }
        if (threw) fail("access-mode", "write on a writable file threw invalid_access_mode");
        if (r > n) fail("write-count", "write of %zu bytes reports %zu", n, r);
        if (!K.hard && r != n) fail("write-count", "write of %zu bytes reports %zu without any device error", n, r);
        if (r < n) probe("write_cut_by_error");
        if (n > (u64) x.cap && x.cap > 0) probe("write_larger_than_buffer");
        x.m.accept(data, r);
        check_device(w, si);
        if (x.cap == 0 && x.inode->data != x.m.logical())
            fail("unbuffered-write", "unbuffered write reported %zu bytes but the device took fewer: %s", r,
                 diff(x.inode->data, x.m.logical()).c_str());
    }

    void do_seek(World& w, const Step& s) {
        int si = (int) s.arg(0);
        Slot& x = w.s[si];
        i64 off = s.arg(1);
        int ref = s.op == "seek" ? (int) s.arg(2) : 1;
        if (s.op == "back") off = -off;
        Bytes c = x.external ? x.inode->data : x.m.logical();
        i64 target = ref == 0 ? off : ref == 1 ? x.m.pos + off : (i64) c.size() + off;
        if (K.lead && (target < 0 || !armed.empty())) return;
        if (target < 0) {             // nothing lies before the beginning
            target = 0;
            probe("seek_before_begin");
        }
        {
            Op o(s);
            if (s.op == "back") x.obj->go_back(s.arg(1));
            else if (s.op == "fwd") x.obj->go_forward(s.arg(1));
            else x.obj->set_position(ref == 0 ? K.lead + off : off, ref == 0 ? cmp::position_reference::begin
                                        : ref == 1 ? cmp::position_reference::current : cmp::position_reference::end);
        }
        bool hard = K.hard;
        if (!x.external) check_device(w, si);
        i64 got;
        {
            Step q{"pos", {si}, {}};
            Op o(q);
            got = x.obj->get_position() - K.lead;
        }
        if (!hard || x.m.pending.empty()) {
            if (mid && ref == 2) {            // the size may have been either
                for (i64 z : sizes) if (got == (z + off < 0 ? 0 : z + off)) target = got;
            }
            if (got != target)
                fail("position", "seek to %lld (reference %d) ended at %lld instead of %lld", (long long) off, ref,
                     (long long) got, (long long) target);
            if (!x.external && !hard && x.inode->data != x.m.logical())
                fail("barrier", "after a seek without device error the file misses accepted bytes: %s",
                     diff(x.inode->data, x.m.logical()).c_str());
            x.m.pos = target;
        } else {
            // the device refused pending output: the seek may be refused too
            if (got != x.m.pos)
                fail("seek-lost-output", "position moved to %lld although %zu accepted bytes are still pending",
                     (long long) got, x.m.pending.size());
            probe("seek_refused_pending");
        }
    }

    // an excursion to a place far behind (or, with a hole before the data, far before) the data
    void do_far(World& w, const Step& s) {
        static const i64 at[] = {1ll << 31, (1ll << 31) - 1, 1ll << 32, (1ll << 32) + 7, (1ll << 33) + 5, 1ll << 40, 3ll << 52, 70000};
        int si = (int) s.arg(0);
        Slot& x = w.s[si];
        if (!x.open || x.external || !armed.empty()) return;
        i64 dist = at[(u64) s.arg(1) % 8];
        u64 how = (u64) s.arg(2);
        auto run = [&](auto f) { Op o(s); f(); return !K.hard; };
        if (!run([&] { x.obj->flush(); })) { check_device(w, si); return; }
        check_device(w, si);
        const Bytes c = x.m.logical();
        const i64 size = K.lead + (i64) c.size(), home = K.lead + x.m.pos;
        auto go = [&](i64 from, i64 to, u64 by) {
            bool ok = run([&] {
                switch (by & 3) {
                    case 0: x.obj->set_position(to, cmp::position_reference::begin); break;
                    case 1: if (to < from) x.obj->go_back(from - to); else x.obj->go_forward(to - from); break;
                    case 2: x.obj->set_position(to - size, cmp::position_reference::end); break;
                    default: x.obj->set_position(to - from, cmp::position_reference::current);
                }
            });
            i64 got = -1;
            run([&] { got = x.obj->get_position(); });
            if (ok && got != to)
                fail("position", "going from %lld to %lld of %lld bytes (way %d) ended at %lld", (long long) from, (long long) to,
                     (long long) size, (int) (by & 3), (long long) got);
        };
        if (how & 16) dist = dist < K.lead ? -dist : -(K.lead / 2);
        i64 there = ((how & 3) == 0 ? (dist < 0 ? K.lead : 0) : (how & 3) == 2 ? size : home) + dist;
        if (there < 0) there = 0;
        probe("far_excursion");
        go(home, there, how);
        if (x.mode != 1) {
            const i64 n = 1 + (i64) ((how >> 5) & 7), left = size - there, want = left < 0 ? 0 : left < n ? left : n;
            Bytes b((std::size_t) n, 0xa5);
            std::size_t got = 0;
            bool end = false;
            if (!run([&] { got = x.obj->read(reinterpret_cast<std::byte*>(b.data()), (std::size_t) n); end = x.obj->is_at_end(); })) return;
            if ((i64) got != want) fail("read", "a read at %lld of %lld bytes returned %zu bytes, expected %lld", (long long) there, (long long) size, got, (long long) want);
            for (i64 i = 0; i < want; ++i) {
                i64 k = there + i - K.lead;
                if (b[(std::size_t) i] != (k < 0 ? 0 : c[(std::size_t) k])) fail("read", "a read at %lld of %lld bytes returned other bytes", (long long) there, (long long) size);
            }
            there += want;
            if (end != (there >= size)) fail("at-end", "end-of-file query says %d at position %lld of %lld bytes", (int) end, (long long) there, (long long) size);
        }
        go(there, home, how >> 2);
    }

    void query_pos(World& w, const Step& s) {
        Slot& x = w.s[s.arg(0)];
        i64 got;
        {
            Op o(s);
            got = x.obj->get_position() - K.lead;
        }
        K.mixv((u64) got);
        if (got != x.m.pos)
            fail("position", "position reported %lld, expected %lld", (long long) got, (long long) x.m.pos);
    }

    void query_end(World& w, const Step& s) {
        Slot& x = w.s[s.arg(0)];
        bool got;
        i64 size0 = (i64) (x.external ? x.inode->data.size() : x.m.logical().size());
        {
            Op o(s);
            got = x.obj->is_at_end();
        }
        K.mixv(got);
        i64 size = (i64) (x.external ? x.inode->data.size() : x.m.logical().size());
        bool want = x.m.pos >= size;
        if (mid && got == (x.m.pos >= size0)) want = got;
        if (mid) for (i64 z : sizes) if (got == (x.m.pos >= z)) want = got;
        if (got != want)
            fail("at-end", "end-of-file query says %d at position %lld of %lld bytes", (int) got, (long long) x.m.pos,
                 (long long) size);
    }

    void external(World& w, const Step& s) {
        const char* path = PATHS[s.arg(0)];
        InodeP n = K.lookup(path);
        ++K.run_events;
        ++stats.faults[s.op];
        ++stats.ops;
        K.note("external %s", to_text(s).c_str());
        u64 h = 0;
        for (char c : s.op) h = mix(h, (u64) c);
        K.mixv(h);
        K.shape = mix(K.shape, h);
        // an unlinked file can still be changed by whoever has it open
        if (!n && (s.op == "ext_append" || s.op == "ext_trunc")) {
            for (auto& x : w.s) if (x.open && x.external) n = x.inode;
        }
        if (s.op == "ext_create") {               // create path size pattern
            if (!n) K.create(path, pattern((u64) s.arg(2), (std::size_t) s.arg(1)));
            return;
        }
        if (!n) return;
        if (s.op == "ext_chmod") {                // chmod path bits
            n->grant = (unsigned) s.arg(1) & 6;
            n->mode = n->grant << 6;
            return;
        }
        for (auto& x : w.s) if (x.open && x.inode == n) x.external = true;
        if (s.op == "ext_append") {
            Bytes b = pattern((u64) s.arg(2), (std::size_t) s.arg(1));
            n->data.insert(n->data.end(), b.begin(), b.end());
        } else if (s.op == "ext_trunc") {
            if ((u64) s.arg(1) < n->data.size()) n->data.resize((u64) s.arg(1));
        } else if (s.op == "ext_rename") {
            const char* to = PATHS[s.arg(1)];
            K.names.erase(path);
            auto it = K.names.find(to);
            if (it != K.names.end()) {
                for (auto& x : w.s) if (x.open && x.inode == it->second) x.external = true;
            }
            K.names[to] = n;
        } else if (s.op == "ext_unlink") {
            n->linked = false;
            K.names.erase(path);
        } else if (s.op == "ext_replace") {       // replace path size pattern
            K.create(path, pattern((u64) s.arg(2), (std::size_t) s.arg(1)));
        }
        for (auto& x : w.s) if (x.open && x.external) note_seen(x);
    }

    // --------------------------------------------------------------- generate
    // A light-weight shadow of the model keeps the generated operations relevant.
    struct Sh { bool obj = false, open = false; int mode = 0; int path = 0; i64 cap = 0, pos = 0, size = 0; };

    std::vector<Fault> transfer_faults(Rng& r, bool hard, bool soft, bool writing, i64 cap, int density) {
        std::vector<Fault> f;
        if (!hard && !soft) return f;
        if (!r.chance((unsigned) density, 100)) return f;
        int k = (int) r.range(1, 4);
        if (soft && r.chance(1, 40)) {        // a device that is interrupted again and again
            for (i64 n = r.range(5, r.chance(1, 4) ? 150 : 24), mixed = (i64) r.below(3); n; --n)
                f.push_back(mixed == 0 || (mixed == 1 && r.chance(1, 2)) ? Fault{'I', 0} : Fault{'S', r.range(1, 3)});
            k = (int) r.range(0, 1);
        }
        for (int i = 0; i < k; ++i) {
            unsigned z = (unsigned) r.below(10);
            if (z < 2) f.push_back({'P', 0});
            else if (hard && (z < 5 || !soft)) {
                const char* kinds = writing ? "ENA" : "EA";
                if (r.chance(1, 8)) { f.push_back({'Z', writing ? (i64) r.below(3) : (i64) r.below(2) * 2}); break; }
                f.push_back({kinds[r.below(writing ? 3 : 2)], 0});
            } else if (soft) {
                if (r.chance(1, 3)) f.push_back({'I', 0});
                else f.push_back({'S', r.range(1, cap > 1 && r.chance(1, 2) ? cap : 5)});
            }
        }
        return f;
    }

    void generate(Rng& r, Plan& p) override {
        static const i64 caps[] = {0, 0, 1, 2, 3, 4, 5, 7, 8, 8, 13, 16, 16, 31, 32, 64, 100, 1024};
        u64 pid = 1;
        int nslots = 1;
        bool many = prop == "C13" || prop == "C14" || (prop == "C08" && r.chance(1, 2));
        if (many) nslots = (int) r.range(1, NSLOT);
        bool soft = true, hard = false, crash = false;
        if (prop == "C01") { soft = r.chance(2, 3); }
        if (prop == "C03" || prop == "C05") hard = r.chance(3, 4);
        if (prop == "C04") { crash = true; hard = r.chance(1, 4); }
        if (prop == "C08") { soft = r.chance(2, 3); }
        if (prop == "C13" || prop == "C14") { hard = r.chance(1, 3); soft = r.chance(1, 2); }
        if (prop == "C16") { soft = r.chance(1, 2); }
        int density = (int) r.range(10, 70);
        int len = (int) r.range(3, prop == "C04" ? 14 : 28);
        bool huge = r.chance(1, 40);
        if (!huge && r.chance(1, 100)) len *= 10;       // a long history
        // swarm: weights per operation kind
        unsigned wr = (unsigned) r.below(10), ww = (unsigned) r.below(10), wk = (unsigned) r.below(5),
                 wf = (unsigned) r.below(4), wq = 1 + (unsigned) r.below(4), wo = many ? 1 + (unsigned) r.below(6) : 0,
                 wx = prop == "C16" ? 2 + (unsigned) r.below(6) : 0, wst = prop == "C08" ? 1 + (unsigned) r.below(4) : 0;
        if (wr + ww == 0) wr = 5;
        if (r.chance(1, 12)) p.steps.push_back({"lead", {r.range(1, 7), r.range(0, 3)}, {}});
        Sh sh[NSLOT];
        i64 psize[NPATH];
        bool exists[NPATH];
        for (int i = 0; i < NPATH; ++i) {
            exists[i] = r.chance(2, 3);
            i64 sz = r.chance(1, 5) ? 0 : r.range(1, 120);
            if (huge && r.chance(1, 2)) sz = r.range(1, r.chance(1, 8) ? 70000 : 6000);
            psize[i] = exists[i] ? sz : 0;
            if (exists[i]) p.steps.push_back({"mkfile", {i, sz, (i64) pid++}, {}});
        }
        auto pick_mode = [&]() -> int {
            if (prop == "C03" || prop == "C04" || prop == "C08") return r.chance(1, 2) ? 1 : 2;
            if (prop == "C05") return r.chance(1, 2) ? 0 : 2;
            if (prop == "C16") return 0;
            int z = (int) r.below(8);
            return z < 2 ? 0 : z < 4 ? 1 : 2;
        };
        auto size_near = [&](i64 cap) -> i64 {
            switch (r.below(8)) {
                case 0: return cap;
                case 1: return cap + 1;
                case 2: return cap > 0 ? cap - 1 : 1;
                case 3: return 2 * cap + r.range(0, 3);
                case 4: return r.range(0, 3);
                case 5: return r.range(1, cap > 1 ? cap : 4);
                case 6: return r.range(1, 3 * cap + 4);
                default: return r.range(1, 12);
            }
        };
        auto clampn = [&](i64 n) {
            if (huge && r.chance(1, 40)) return r.chance(1, 2) ? r.range(20000, 80000) : (i64) (1 << r.range(15, 16)) + r.range(-1, 1);
            if (huge && r.chance(1, 4)) return r.chance(1, 2) ? r.range(300, 20000) : (i64) (1 << r.range(9, 14)) + r.range(-1, 1);
            return n > 300 ? r.range(1, 300) : n;
        };
        auto inuse = [&](int path) {
            for (auto& s : sh) if (s.obj && s.open && s.path == path) return true;
            return false;
        };
        auto free_path = [&]() {
            for (int k = 0; k < 12; ++k) {
                int q = (int) r.below(NPATH);
                if (!inuse(q)) return q;
            }
            return -1;
        };
        auto open_faults = [&]() {
            std::vector<Fault> f;
            if ((prop == "C13" || prop == "C14") && r.chance(1, 5)) f.push_back({r.chance(1, 2) ? 'M' : 'D', 0});
            return f;
        };
        auto gen_open = [&](int si) {
            Sh& s = sh[si];
            int path = free_path();
            if (s.open && r.chance(1, 4)) path = s.path;
            if (path < 0) return;
            int mode = pick_mode();
            int create = (prop == "C13") ? (int) r.below(2) : (r.chance(4, 5) ? 1 : 0);
            auto f = open_faults();
            bool okay = (exists[path] || create) && f.empty();
            if ((prop == "C13" || prop == "C14") && r.chance(1, 8)) {
                i64 bits = (i64) r.below(4) * 2;
                p.steps.push_back({"ext_chmod", {path, bits}, {}});
            }
            if (prop == "C13" && !s.open && r.chance(1, 6)) {
                i64 k = r.range(1, 4);
                switch (r.below(5)) {
                    case 0: case 1: p.steps.push_back({"mid_unlink", {k, path}, {}}); exists[path] = false; break;
                    case 2: p.steps.push_back({"mid_create", {k, path, r.range(0, 40), (i64) pid++}, {}}); exists[path] = true; break;
                    case 3: p.steps.push_back({"mid_replace", {k, path, r.range(0, 40), (i64) pid++}, {}}); break;
                    default:
                        p.steps.push_back({"mid_unlink", {k, path}, {}});
                        p.steps.push_back({"mid_create", {k + r.range(0, 2), path, r.range(0, 40), (i64) pid++}, {}});
                }
            }
            if (s.open) {
                // a reopen may also meet transfer faults on the pending output of the old file
                if (f.empty() && r.chance(1, 3)) f = transfer_faults(r, hard, soft, true, s.cap, density);
            }
            if (!s.obj) {
                i64 cap = caps[r.below(sizeof caps / sizeof *caps)];
                if (huge && r.chance(1, 3)) cap = (i64) (1 << r.range(9, 17)) + r.range(-1, 1);
                if (r.chance(1, 6)) {
                    p.steps.push_back({"def", {si}, {}});
                    s.obj = true; s.cap = 1024; s.open = false;
                    p.steps.push_back({"open", {si, path, mode, create}, f});
                } else {
                    s.cap = cap;
                    p.steps.push_back({"new", {si, path, mode, create, cap}, f});
                    s.obj = true;
                }
            } else {
                p.steps.push_back({"open", {si, path, mode, create}, f});
            }
            s.open = okay;
            if (okay) {
                exists[path] = true;
                s.mode = mode; s.path = path; s.pos = 0; s.size = psize[path];
            }
        };
        gen_open(0);
        for (int i = 0; i < len; ++i) {
            int si = (int) r.below((u64) nslots);
            Sh& s = sh[si];
            if (!s.obj || !s.open) {
                if (s.obj && r.chance(1, 6)) p.steps.push_back({"rclosed", {si}, {}});
                if (s.obj && r.chance(1, 5)) { p.steps.push_back({"del", {si}, {}}); s = Sh{}; continue; }
                gen_open(si);
                continue;
            }
            unsigned tot = wr + ww + wk + wf + wq + wo + wx + wst;
            unsigned z = (unsigned) r.below(tot);
            if (z < wr) {
                i64 n = clampn(size_near(s.cap));
                p.steps.push_back({"read", {si, n}, transfer_faults(r, hard && prop != "C03", soft, false, s.cap, density)});
                if (s.mode != 1) s.pos += (s.size - s.pos < n) ? (s.size > s.pos ? s.size - s.pos : 0) : n;
                continue;
            }
            z -= wr;
            if (z < ww) {
                i64 n = clampn(size_near(s.cap));
                p.steps.push_back({"write", {si, n, (i64) pid++}, transfer_faults(r, hard && prop != "C05", soft, true, s.cap, density)});
                if (s.mode != 0) { s.pos += n; if (s.pos > s.size) s.size = s.pos; }
                continue;
            }
            z -= ww;
            if (z < wk) {
                auto f = transfer_faults(r, hard && prop != "C05", soft, true, s.cap, density);
                if (r.chance(1, 4)) {
                    i64 n = r.range(0, s.pos < 10 ? s.pos : 10);
                    p.steps.push_back({"back", {si, n}, f});
                    s.pos -= n;
                } else if (r.chance(1, 4)) {
                    i64 n = r.range(0, 10);
                    p.steps.push_back({"fwd", {si, n}, f});
                    s.pos += n;
                } else {
                    int ref = (int) r.below(3);
                    i64 lo = (ref == 0 ? 0 : ref == 1 ? -s.pos : -s.size) - (r.chance(1, 12) ? 4 : 0);
                    i64 hi = ref == 0 ? s.size + 6 : ref == 1 ? s.size - s.pos + 6 : 6;
                    if (hi < lo) hi = lo;
                    if (ref == 1 && r.chance(1, 2)) { lo = s.pos < 6 ? -s.pos : -6; hi = 6; }
                    i64 off = r.range(lo, hi);
                    p.steps.push_back({"seek", {si, off, ref}, f});
                    s.pos = ref == 0 ? off : ref == 1 ? s.pos + off : s.size + off;
                    if (s.pos < 0) s.pos = 0;
                }
                continue;
            }
            z -= wk;
            if (r.chance(1, 60) && prop == "C01") p.steps.push_back({"far", {si, (i64) r.below(8), (i64) r.below(256)}, {}});
            if (z < wf) {
                p.steps.push_back({"flush", {si}, transfer_faults(r, hard, soft, true, s.cap, density)});
                continue;
            }
            z -= wf;
            if (z < wq) {
                const char* q[] = {"pos", "end", "mode", "pos"};
                p.steps.push_back({q[r.below(4)], {si}, {}});
                continue;
            }
            z -= wq;
            if (z < wo) {
                switch (r.below(6)) {
                    case 0: p.steps.push_back({"close", {si}, transfer_faults(r, hard, soft, true, s.cap, density)});
                            psize[s.path] = s.size; s.open = false; break;
                    case 1: p.steps.push_back({"del", {si}, transfer_faults(r, hard, soft, true, s.cap, density)});
                            psize[s.path] = s.size; s = Sh{}; break;
                    case 2: case 3: {
                        int d = (int) r.below((u64) nslots);
                        if (d == si) {
                            if (r.chance(1, 3)) p.steps.push_back({"mova", {si, si}, {}});
                            break;
                        }
                        if (sh[d].obj) {
                            p.steps.push_back({"mova", {si, d}, transfer_faults(r, hard, soft, true, s.cap, density)});
                            if (sh[d].open) psize[sh[d].path] = sh[d].size;
                        } else p.steps.push_back({"movec", {si, d}, {}});
                        sh[d] = s;
                        s.open = false;
                        break;
                    }
                    default: psize[s.path] = s.size; gen_open(si);
                }
                continue;
            }
            z -= wo;
            if (z < wx) {
                switch (r.below(8)) {
                    case 0: case 1: case 2: case 3: {
                        i64 n = r.range(1, 40);
                        p.steps.push_back({"ext_append", {s.path, n, (i64) pid++}, {}});
                        s.size += n;
                        break;
                    }
                    case 4: { i64 n = r.range(0, s.size); p.steps.push_back({"ext_trunc", {s.path, n}, {}}); s.size = n; break; }
                    case 5: { int to = (int) r.below(NPATH); p.steps.push_back({"ext_rename", {s.path, to}, {}}); s.path = to; break; }
                    case 6: p.steps.push_back({"ext_unlink", {s.path}, {}}); break;
                    default: p.steps.push_back({"ext_replace", {s.path, r.range(0, 60), (i64) pid++}, {}}); break;
                }
                if (r.chance(1, 3)) {
                    Step& e = p.steps.back();
                    e.op = "mid_" + e.op.substr(4);
                    e.a.insert(e.a.begin(), r.range(1, 6));
                }
                if (r.chance(1, 2)) p.steps.push_back({"end", {si}, {}});
                continue;
            }
            i64 n = clampn(size_near(s.cap));
            p.steps.push_back({"wstream", {si, n, (i64) pid++, (i64) r.below(8)}, transfer_faults(r, hard, soft, true, s.cap, density)});
            if (s.mode != 0) { s.pos += n; if (s.pos > s.size) s.size = s.pos; }
        }
        if (prop == "C08" || prop == "C13" || prop == "C14")
            for (Step& t : p.steps)
                if ((t.op == "close" || t.op == "del" || t.op == "mova" || t.op == "open") && r.chance(1, 8)) t.f.push_back({'C', 0});
        if (crash) {
            // die inside one of the operations that touch the device
            std::vector<std::size_t> c;
            for (std::size_t i = 0; i < p.steps.size(); ++i) {
                const std::string& o = p.steps[i].op;
                if (o == "write" || o == "flush" || o == "seek" || o == "close" || o == "read" || o == "del" || o == "back" || o == "fwd")
                    c.push_back(i);
            }
            if (!c.empty()) {
                std::size_t k = c[r.chance(1, 2) ? c.size() - 1 - r.below(c.size() < 3 ? c.size() : 3) : r.below(c.size())];
                p.steps[k].f.push_back(r.chance(1, 2) ? Fault{'X', r.range(1, 4)} : Fault{'T', r.range(0, 40)});
            }
        }
    }
};

const Part registered{
    "file", "C01 C03 C04 C05 C08 C13 C14 C16", [](const std::string& p) -> Scenario* { return new FileScenario(p); },
    "cmp::file, basic_file, seekable/input/output resources, io_buffer, output streams (compiled from /repo)",
    "kernel: files, descriptors, open/read/write/lseek/close/stat; other processes"};

} // namespace
} // namespace sim
