// Standard streams: C06 C07, and the standard-stream part of C03 C05 C08.
#include <cmp/io/uio.hpp>
#include <cmp/io/file.hpp>
#include <cmp/io/exceptions.hpp>
#include <cmp/io/data_output_stream.hpp>
#include <cmp/io/data_input_stream.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>

#include <cstdlib>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "filemodel.hpp"
#include "text.hpp"

namespace sim {
namespace {

using In = cmp::stdin_resource;
using Out = cmp::stdout_resource;

// The peer at the other end of standard input
struct Peer {
    Bytes src;                      // everything it will ever send
    std::size_t sent = 0;
    std::vector<i64> chunks;
    std::size_t ck = 0;
    void deliver(std::size_t n) {
        if (n > src.size() - sent) n = src.size() - sent;
        if (n == 0) return;
        K.in_avail.insert(K.in_avail.end(), src.begin() + (std::ptrdiff_t) sent, src.begin() + (std::ptrdiff_t) (sent + n));
        sent += n;
        ++K.run_events;
        ++stats.faults["chunk_delivered"];
        stats.sim_time_us += 1000 * (1 + n % 17);
        K.mixv(n);
        K.shape = mix(K.shape, n < 4 ? n : 4);
        K.note("   peer delivers %zu bytes (%zu of %zu)", n, sent, src.size());
    }
    bool next() {
        if (sent >= src.size()) return false;
        i64 n = chunks.empty() ? 1 : chunks[ck++ % chunks.size()];
        deliver((std::size_t) (n < 1 ? 1 : n));
        return true;
    }
};

struct World {
    bool global = false;
    std::unique_ptr<In> lin;
    std::unique_ptr<Out> lout[2];
    std::unique_ptr<cmp::stdin_stream> lis;
    std::unique_ptr<cmp::stdout_stream> los[2];
    i64 cap[2] = {0, 0};
    Bytes acc[2];                   // accepted per sink
    Peer peer;
    std::size_t taken = 0;          // bytes handed to the program
    std::size_t need = 0;           // bytes the current operation may wait for
    bool over = false;              // end of input was met
    Units units;
    int enc = 0;
    bool big = false;

    In& in() { return global ? cmp::uin_resource : *lin; }
    Out& out(int i) { return global ? (i ? cmp::uerr_resource : cmp::uout_resource) : *lout[i]; }
    cmp::stdin_stream& is() {
        if (global) return cmp::uin;
        if (!lis) lis = std::make_unique<cmp::stdin_stream>(*lin);
        return *lis;
    }
    cmp::stdout_stream& os(int i) {
        if (global) return i ? cmp::uerr : cmp::uout;
        if (!los[i]) los[i] = std::make_unique<cmp::stdout_stream>(*lout[i]);
        return *los[i];
    }
    bool ready() const { return global || lin; }
};

void check_sinks(World& w) {
    for (int i = 0; i < 2; ++i) {
        const Bytes& d = K.sink[i].data;
        if (d.size() > w.acc[i].size() || !std::equal(d.begin(), d.end(), w.acc[i].begin()))
            fail("sink-content", "descriptor %d received bytes that are not a prefix of the accepted ones: %s", i + 1,
                 diff(d, w.acc[i]).c_str());
        if (w.cap[i] == 0 && !w.global && d.size() != w.acc[i].size())
            fail("unbuffered-count", "unbuffered output reports %zu bytes written but the device took %zu", w.acc[i].size(), d.size());
    }
}
void expect_all(World& w, int i, const char* after) {
    if (K.sink[i].data != w.acc[i])
        fail("not-delivered", "after %s descriptor %d holds %zu of %zu accepted bytes: %s", after, i + 1, K.sink[i].data.size(),
             w.acc[i].size(), diff(K.sink[i].data, w.acc[i]).c_str());
}

struct StdScenario : Scenario {
    std::string prop;
    explicit StdScenario(std::string p) : prop{std::move(p)} {}

    void execute(const Plan& p) override {
        auto wp = std::make_unique<World>();
        World& w = *wp;
        for (std::size_t i = 0; i < p.steps.size(); ++i) {
            const Step& s = p.steps[i];
            if (s.op == "tied") { tied(p, i); return; }
            if (s.op == "exit") { run_exit(p, i); return; }
            step(w, s);
            check_sinks(w);
            if (w.over) break;
        }
        if (w.ready()) finish(w);
    }

    void finish(World& w) {
        Step f{"end", {}, {}};
        {
            Op o(f);
            w.out(0).flush();
            w.out(1).flush();
        }
        expect_all(w, 0, "a flush at the end");
        expect_all(w, 1, "a flush at the end");
        // take what is left of the input: everything must be handed out
        if (!w.peer.src.empty() || w.global) {
            w.need = w.peer.src.size() + 1;
            Bytes b(64);
            std::size_t got = 0;
            do {
                Op o(f);
                got = w.in().read(reinterpret_cast<std::byte*>(b.data()), b.size());
                if (got > b.size()) fail("read-count", "read returned more than requested");
                if (!w.over && w.taken + got <= w.peer.src.size()
                    && !std::equal(b.begin(), b.begin() + (std::ptrdiff_t) got, w.peer.src.begin() + (std::ptrdiff_t) w.taken))
                    fail("read-data", "the rest of the input differs");
                w.taken += got;
            } while (got > 0);
            if (w.taken != w.peer.src.size())
                fail("input-lost", "%zu bytes of input were sent but %zu were handed out", w.peer.src.size(), w.taken);
        }
        if (w.global) {
            cmp::uin.set_encoding_form(cmp::utf8);
            cmp::uin.set_endianness(std::endian::native);
        }
        Op o(f);
        w.lis.reset();
        for (int i = 0; i < 2; ++i) w.los[i].reset();
    }

    void hook_input(World& w) {
        K.on_blocked = [&w]() -> int {
            if (prop_c07) {
                if (K.sink[0].data != w.acc[0])
                    fail_later = "the program waits for input but only " + std::to_string(K.sink[0].data.size()) + " of "
                        + std::to_string(w.acc[0].size()) + " bytes of tied output were handed out";
            }
            if (w.peer.sent >= w.need && fail_wait.empty() && w.peer.sent < w.peer.src.size())
                fail_wait = "the program waits for more input although the " + std::to_string(w.need) + " bytes it needs had arrived";
            return w.peer.next() ? 1 : 0;
        };
        K.on_stdin_read = [&w]() {
            if (prop_c07 && K.sink[0].data != w.acc[0] && fail_later.empty())
                fail_later = "standard input is read while only " + std::to_string(K.sink[0].data.size()) + " of "
                    + std::to_string(w.acc[0].size()) + " bytes of tied output were handed out";
        };
    }
    static inline bool prop_c07 = false;
    static inline std::string fail_later, fail_wait;
    void check_wait() {
        if (!fail_later.empty()) fail("tied-output", "%s", fail_later.c_str());
        if (!fail_wait.empty()) fail("over-wait", "%s", fail_wait.c_str());
    }

    void step(World& w, const Step& s) {
        const std::string& op = s.op;
        if (op == "use") {              // use global capin capout caperr
            if (w.ready()) return;
            prop_c07 = prop == "C07";
            fail_later.clear();
            fail_wait.clear();
            w.global = s.arg(0) != 0;
            Op o(s);
            if (!w.global) {
                w.lin = std::make_unique<In>((std::size_t) s.arg(1));
                for (int i = 0; i < 2; ++i) {
                    w.cap[i] = s.arg((std::size_t) (2 + i));
                    w.lout[i] = std::make_unique<Out>(i + 1, (std::size_t) w.cap[i]);
                }
                w.lin->tie(*w.lout[0]);
            }
            hook_input(w);
            return;
        }
        if (!w.ready()) return;
        if (op == "src") { w.peer.src = pattern((u64) s.arg(1), (std::size_t) s.arg(0)); return; }
        if (op == "text") {             // text seed len style enc big
            w.enc = (int) s.arg(3) % 3;
            w.big = s.arg(4) != 0;
            std::u32string t = gen_text((u64) s.arg(0), (std::size_t) s.arg(1), (int) s.arg(2));
            w.peer.src = encode(t, w.enc, w.big);
            w.units = Units(t, w.enc, w.big);
            w.is().set_encoding_form(w.enc == 0 ? cmp::utf8 : w.enc == 1 ? cmp::utf16 : cmp::utf32);
            w.is().set_endianness(w.big ? std::endian::big : std::endian::little);
            return;
        }
        if (op == "chunk") { w.peer.chunks.push_back(s.arg(0)); return; }
        if (op == "deliver") { w.peer.deliver((std::size_t) s.arg(0)); return; }
        if (op == "write" || op == "swrite") {       // write sink n pattern
            int i = (int) s.arg(0) & 1;
            Bytes d = pattern((u64) s.arg(2), (std::size_t) s.arg(1));
            std::size_t got;
            {
                Op o(s);
                auto* q = reinterpret_cast<const std::byte*>(d.data());
                got = op == "write" ? w.out(i).write(q, d.size()) : w.os(i).write(q, d.size());
            }
            K.mixv(got);
            if (got > d.size() || (!K.hard && got != d.size()))
                fail("write-count", "write of %zu bytes reports %zu", d.size(), got);
            w.acc[i].insert(w.acc[i].end(), d.begin(), d.begin() + (std::ptrdiff_t) got);
            return;
        }
        if (op == "print") {            // print sink len seed
            int i = (int) s.arg(0) & 1;
            std::u32string t = gen_text((u64) s.arg(2), (std::size_t) s.arg(1), 0);
            Bytes d = encode(t, U8, false);
            std::u8string u = to8(t);
            {
                Op o(s);
                w.os(i) << u;
            }
            if (K.hard) fail("internal", "print under device errors");
            w.acc[i].insert(w.acc[i].end(), d.begin(), d.end());
            return;
        }
        if (op == "flush" || op == "sflush") {
            int i = (int) s.arg(0) & 1;
            {
                Op o(s);
                if (op == "flush") w.out(i).flush();
                else w.os(i) << cmp::flush;
            }
            if (!K.hard) expect_all(w, i, "a flush");
            return;
        }
        if (op == "kill") {             // destroy the stream object (locals only)
            int i = (int) s.arg(0) & 1;
            if (w.global) return;
            if (!w.los[i]) return;
            {
                Op o(s);
                w.los[i].reset();
            }
            if (!K.hard) expect_all(w, i, "destroying the stream");
            return;
        }
        if (op == "temp") {             // temp sink kind n pattern: a stream object's whole life
            int i = (int) s.arg(0) & 1;
            Bytes d = pattern((u64) s.arg(3), (std::size_t) s.arg(2));
            std::size_t got = 0;
            {
                Op o(s);
                auto* q = reinterpret_cast<const std::byte*>(d.data());
                if (s.arg(1)) {
                    cmp::data_output_stream<Out> st{w.out(i), std::endian::big};
                    got = st.write(q, d.size());
                } else {
                    cmp::text_output_stream<Out> st{w.out(i), cmp::utf8, std::endian::native};
                    got = st.write(q, d.size());
                }
            }
            if (got > d.size()) fail("write-count", "write of %zu bytes reports %zu", d.size(), got);
            w.acc[i].insert(w.acc[i].end(), d.begin(), d.begin() + (std::ptrdiff_t) got);
            if (!K.hard) expect_all(w, i, "the life of a stream");
            return;
        }
        if (op == "read") { raw_read(w, s); return; }
        if (op == "line" || op == "token" || op == "char" || op == "num" || op == "bool") { text_read(w, s); return; }
    }

    void after_read(World& w) {
        check_wait();
        if (prop == "C07") expect_all(w, 0, "a read of the input it is tied to");
    }

    void raw_read(World& w, const Step& s) {         // read n
        std::size_t n = (std::size_t) s.arg(0);
        if (n == 0) return;
        w.need = w.taken + n;
        Bytes b(n + 32, 0xA5);
        std::size_t got;
        {
            Op o(s);
            got = w.in().read(reinterpret_cast<std::byte*>(b.data() + 16), n);
        }
        K.mixv(got);
        bool hard = K.hard;
        std::size_t left = w.peer.src.size() - w.taken, want = n < left ? n : left;
        if (hard ? got > want : got != want)
            fail("read-count", "read of %zu bytes with %zu left returned %zu", n, left, got);
        for (std::size_t i = 0; i < got; ++i)
            if (b[16 + i] != w.peer.src[w.taken + i])
                fail("read-data", "byte %zu of the input reads as %02x, sent was %02x", w.taken + i, b[16 + i], w.peer.src[w.taken + i]);
        for (std::size_t i = 0; i < 16; ++i)
            if (b[i] != 0xA5 || b[16 + n + i] != 0xA5) fail("read-bounds", "read wrote outside the requested range");
        w.taken += got;
        after_read(w);
    }

    template <class T> void text_op(World& w, const Step& s, const std::string& what, std::size_t to, bool open,
                                    const std::u32string& want) {
        T target;
        target.push_back((typename T::value_type) 'z');
        bool past = false;
        std::u32string got;
        {
            Op o(s);
            try {
                if (what == "line") w.is().read_line(target);
                else w.is() >> target;
            } catch (const cmp::read_past_end&) { past = true; }
        }
        got = from(target);
        for (char32_t c : got) K.mixv(c);
        if (past != open)
            fail("past-end", "reading a %s %s", what.c_str(), past ? "reports the end of input although there is more" : "invents an end");
        if (got != want)
            fail("text-data", "%s read as %s, sent was %s", what.c_str(), show(got).c_str(), show(want).c_str());
        w.units.at = to;
        if (past) w.over = true;
    }

    void text_read(World& w, const Step& s) {
        if (w.units.cp.empty()) return;
        std::string what = s.op;
        std::size_t to = 0;
        bool open = false;
        std::u32string want;
        if (what == "num" || what == "bool") {
            want = w.units.token(to, open);
            if (open || (what == "num" ? !is_int(want) : want != U"1" && want != U"0")) what = "token";
        }
        if (what == "line") want = w.units.line(to, open);
        else if (what == "token") want = w.units.token(to, open);
        else if (what == "char") { open = w.units.done(); to = w.units.at + !open; }
        w.need = open ? w.peer.src.size() : w.units.end[to - 1];
        if (what == "char") {
            char32_t c = 0;
            bool past = false;
            {
                Op o(s);
                try { w.is() >> c; } catch (const cmp::read_past_end&) { past = true; }
            }
            if (past != open) fail("past-end", "reading a character %s", past ? "reports an end that is not there" : "misses the end");
            if (!past && c != w.units.cp[w.units.at])
                fail("text-data", "character read as %x, sent was %x", (unsigned) c, (unsigned) w.units.cp[w.units.at]);
            w.units.at = to;
            if (past) w.over = true;
        } else if (what == "num") {
            long long v = 0;
            { Op o(s); w.is() >> v; }
            if (v != int_value(want)) fail("text-data", "number read as %lld, sent was %s", v, show(want).c_str());
            w.units.at = to;
        } else if (what == "bool") {
            bool v = false;
            { Op o(s); w.is() >> v; }
            if (v != (want == U"1")) fail("text-data", "boolean read as %d, sent was %s", (int) v, show(want).c_str());
            w.units.at = to;
        } else {
            int t = (int) s.arg(0) % 5;
            if (t == 4 && !is_ascii(want)) t = 0;
            switch (t) {
                case 0: text_op<std::u8string>(w, s, what, to, open, want); break;
                case 1: text_op<std::u16string>(w, s, what, to, open, want); break;
                case 2: text_op<std::u32string>(w, s, what, to, open, want); break;
                case 3: text_op<std::wstring>(w, s, what, to, open, want); break;
                default: text_op<std::string>(w, s, what, to, open, want); break;
            }
        }
        w.taken = w.units.at ? w.units.end[w.units.at - 1] : 0;
        if (w.over) w.taken = w.peer.src.size();
        after_read(w);
    }

    // ---- C07: any input resource tied to any output resource -----------------
    struct Tied {
        cmp::input_resource* in = nullptr;
        cmp::output_resource* out = nullptr;
        std::function<Bytes()> device;
        std::size_t left = 0;
    };
    void tied(const Plan& p, std::size_t at) {        // tied inkind outkind capin capout size
        const Step& t = p.steps[at];
        std::size_t capi = (std::size_t) t.arg(2), capo = (std::size_t) t.arg(3);
        Bytes src = pattern(991, (std::size_t) t.arg(4));
        K.create("/simfs/in", src);
        std::unique_ptr<cmp::file> fi, fo;
        std::unique_ptr<Out> so;
        std::unique_ptr<cmp::opaque_container_input_resource<std::u8string>> ci;
        std::unique_ptr<cmp::opaque_container_io_resource<std::u8string>> cio;
        std::unique_ptr<cmp::opaque_container_output_resource<std::u8string>> co;
        Tied x;
        bool device_now = false;
        {
            Op o(t);
            std::u8string us(src.begin(), src.end());
            switch (t.arg(0)) {
                case 0: fi = std::make_unique<cmp::file>("/simfs/in", cmp::read_only, cmp::if_not_there::fail, capi); x.in = fi.get(); break;
                case 1: fi = std::make_unique<cmp::file>("/simfs/in", cmp::read_and_write, cmp::if_not_there::fail, capi); x.in = fi.get(); break;
                case 2: ci = std::make_unique<cmp::opaque_container_input_resource<std::u8string>>(us, capi); x.in = ci.get(); break;
                default: cio = std::make_unique<cmp::opaque_container_io_resource<std::u8string>>(us, capi); x.in = cio.get(); break;
            }
            switch (t.arg(1)) {
                case 0: so = std::make_unique<Out>(1, capo); x.out = so.get(); x.device = [] { return K.sink[0].data; }; break;
                case 1: case 2:
                    fo = std::make_unique<cmp::file>("/simfs/out", t.arg(1) == 1 ? cmp::write_only : cmp::read_and_write,
                                                     cmp::if_not_there::create, capo);
                    x.out = fo.get();
                    x.device = [] { auto n = K.lookup("/simfs/out"); return n ? n->data : Bytes{}; };
                    break;
                default:
                    co = std::make_unique<cmp::opaque_container_output_resource<std::u8string>>(capo);
                    x.out = co.get();
                    x.device = [&co] { auto& s = co->grab_content(); return Bytes(s.begin(), s.end()); };
            }
            x.in->tie(*x.out);
        }
        (void) device_now;
        Bytes acc;
        std::size_t pos = 0;
        for (std::size_t i = at + 1; i < p.steps.size(); ++i) {
            const Step& s = p.steps[i];
            if (s.op == "write") {
                Bytes d = pattern((u64) s.arg(2), (std::size_t) s.arg(1));
                std::size_t got;
                { Op o(s); got = x.out->write(reinterpret_cast<const std::byte*>(d.data()), d.size()); }
                if (got != d.size()) fail("write-count", "write of %zu bytes reports %zu", d.size(), got);
                acc.insert(acc.end(), d.begin(), d.end());
            } else if (s.op == "flush") {
                Op o(s);
                x.out->flush();
            } else if (s.op == "move") {              // the input moves into another object, its tie with it
                if (!fi) continue;
                Op o(s);
                std::unique_ptr<cmp::file> to;
                if (s.arg(0) == 0) to = std::make_unique<cmp::file>(std::move(*fi));
                else {
                    to = std::make_unique<cmp::file>();
                    *to = std::move(*fi);
                }
                fi = std::move(to);
                x.in = fi.get();
                probe("tied_input_moved");
            } else if (s.op == "read") {
                std::size_t n = (std::size_t) s.arg(0);
                if (n == 0) continue;
                Bytes b(n);
                std::size_t got;
                { Op o(s); got = x.in->read(reinterpret_cast<std::byte*>(b.data()), n); }
                std::size_t want = n < src.size() - pos ? n : src.size() - pos;
                if (got != want || !std::equal(b.begin(), b.begin() + (std::ptrdiff_t) got, src.begin() + (std::ptrdiff_t) pos))
                    fail("read-data", "tied input read %zu of %zu bytes, or wrong ones", got, want);
                pos += got;
                Bytes d = x.device();
                if (d != acc)
                    fail("tied-output", "after a read, the output it is tied to holds %zu of %zu accepted bytes: %s", d.size(),
                         acc.size(), diff(d, acc).c_str());
            }
        }
        Step d{"end", {}, {}};
        Op o(d);
        x.out->flush();
        if (x.device() != acc) fail("not-delivered", "after the final flush: %s", diff(x.device(), acc).c_str());
    }

    // ---- C08: normal process exit ---------------------------------------------
    void run_exit(const Plan& p, std::size_t at) {    // exit faults; following steps happen before exit
        static Kernel::Shared* sh = nullptr;
        if (!sh) {
            sh = static_cast<Kernel::Shared*>(mmap(nullptr, sizeof(Kernel::Shared), PROT_READ | PROT_WRITE,
                                                   MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            if (sh == MAP_FAILED) { sh = nullptr; return; }
        }
        sh->n[0] = sh->n[1] = 0;
        Bytes acc[2];
        for (std::size_t i = at + 1; i < p.steps.size(); ++i) {
            const Step& s = p.steps[i];
            if (s.op != "write" && s.op != "print") continue;
            Bytes d = s.op == "write" ? pattern((u64) s.arg(2), (std::size_t) s.arg(1))
                                      : encode(gen_text((u64) s.arg(2), (std::size_t) s.arg(1), 0), U8, false);
            Bytes& a = acc[s.arg(0) & 1];
            a.insert(a.end(), d.begin(), d.end());
        }
        ++K.run_events;
        ++stats.faults["process_exit"];
        K.active = false;
        pid_t pid = fork();
        if (pid == 0) {
            alarm(60);
            K.active = true;
            K.shared = sh;
            World w;
            w.global = true;
            for (std::size_t i = at + 1; i < p.steps.size(); ++i) {
                const Step& s = p.steps[i];
                Op o(s);
                int k = (int) s.arg(0) & 1;
                if (s.op == "write") {
                    Bytes d = pattern((u64) s.arg(2), (std::size_t) s.arg(1));
                    auto* q = reinterpret_cast<const std::byte*>(d.data());
                    if (s.arg(2) & 1) w.out(k).write(q, d.size());
                    else w.os(k).write(q, d.size());
                } else if (s.op == "print") {
                    std::u8string u = to8(gen_text((u64) s.arg(2), (std::size_t) s.arg(1), 0));
                    w.os(k) << u;
                } else if (s.op == "flush") w.out(k).flush();
            }
            K.begin_op(p.steps[at]);
            std::exit(0);
        }
        K.active = true;
        if (pid < 0) return;
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) fail("exit-status", "the process did not exit normally (status %d)", st);
        for (int i = 0; i < 2; ++i) {
            Bytes d(sh->d[i], sh->d[i] + sh->n[i]);
            if (d != acc[i])
                fail("exit-lost-output", "after normal exit descriptor %d received %zu of %zu bytes: %s", i + 1, d.size(),
                     acc[i].size(), diff(d, acc[i]).c_str());
        }
    }

    // ------------------------------------------------------------------ generate
    std::vector<Fault> tf(Rng& r, bool hard, bool soft, bool writing, int density) {
        std::vector<Fault> f;
        if ((!hard && !soft) || !r.chance((unsigned) density, 100)) return f;
        if (soft && r.chance(1, 50))          // interrupted again and again
            for (i64 n = r.range(5, r.chance(1, 3) ? 200 : 60), only = (i64) r.below(2); n; --n)
                f.push_back(only || r.chance(1, 2) ? Fault{'I', 0} : Fault{'S', r.range(1, 3)});
        for (int k = (int) r.range(1, 4); k; --k) {
            unsigned z = (unsigned) r.below(10);
            if (z < 2) f.push_back({'P', 0});
            else if (hard && (z < 5 || !soft) && r.chance(1, 8)) { f.push_back({'Z', writing ? (i64) r.below(3) : (i64) r.below(2) * 2}); break; }
            else if (hard && (z < 5 || !soft)) f.push_back({writing ? "ENA"[r.below(3)] : "EA"[r.below(2)], 0});
            else if (soft) f.push_back(r.chance(1, 3) ? Fault{'I', 0} : Fault{'S', r.range(1, 9)});
        }
        return f;
    }

    void generate(Rng& r, Plan& p) override {
        static const i64 caps[] = {0, 0, 1, 2, 3, 4, 5, 7, 8, 13, 16, 16, 32, 64, 256, 1024};
        bool large = r.chance(1, 60);
        auto cap = [&] { return large && r.chance(1, 3) ? (i64) (1 << r.range(9, 16)) + r.range(-1, 1) : caps[r.below(sizeof caps / sizeof *caps)]; };
        u64 pid = 1;
        int density = (int) r.range(10, 70);
        int len = (int) r.range(3, 24);
        if (!large && r.chance(1, 100)) len *= 10;
        i64 ci = cap(), co = cap(), ce = cap();
        bool global = r.chance(1, 4);
        i64 near = global ? 1024 : co;
        auto size = [&](i64 c) -> i64 {
            i64 n;
            switch (r.below(7)) {
                case 0: n = c; break;
                case 1: n = c + 1; break;
                case 2: n = c > 1 ? c - 1 : 1; break;
                case 3: n = 2 * c + r.range(0, 3); break;
                case 4: n = r.range(1, 3); break;
                default: n = r.range(1, 20);
            }
            if (large && r.chance(1, 6)) n = r.range(2000, r.chance(1, 4) ? 70000 : 9000);
            return n < 1 ? 1 : !large && n > 2100 ? 2100 : n;
        };
        if (prop == "C08" && r.chance(1, 40)) {
            p.steps.push_back({"exit", {}, tf(r, false, true, true, density)});
            for (int i = (int) r.range(1, 8); i; --i) {
                i64 k = r.chance(1, 4);
                auto f = tf(r, false, true, true, density);
                if (r.chance(1, 8)) p.steps.push_back({"flush", {k}, f});
                else if (r.chance(1, 2)) p.steps.push_back({"write", {k, size(1024), (i64) pid++}, f});
                else p.steps.push_back({"print", {k, r.range(1, 120), (i64) r.below(1u << 20)}, f});
            }
            return;
        }
        if (prop == "C07" && r.chance(1, 3)) {
            p.steps.push_back({"tied", {(i64) r.below(4), (i64) r.below(4), ci, co, r.range(0, 120)}, {}});
            for (int i = 0; i < len; ++i) {
                if (r.chance(1, 2)) p.steps.push_back({"write", {0, size(co), (i64) pid++}, tf(r, false, true, true, density)});
                else if (r.chance(1, 8)) p.steps.push_back({"flush", {0}, tf(r, false, true, true, density)});
                else if (r.chance(1, 12)) p.steps.push_back({"move", {(i64) r.below(2)}, {}});
                else p.steps.push_back({"read", {size(ci) % 80 + 1}, tf(r, false, true, true, density)});
            }
            return;
        }
        p.steps.push_back({"use", {global, ci, co, ce}, {}});
        bool text = false, input = prop == "C05" || prop == "C06" || prop == "C07", output = prop != "C05" && prop != "C06";
        bool hard = (prop == "C03" || prop == "C05") && r.chance(3, 4), soft = r.chance(3, 4);
        if (input) {
            text = prop != "C05" && r.chance(2, 3);
            if (text) p.steps.push_back({"text", {(i64) r.below(1u << 24), large ? r.range(200, 4000) : r.range(1, 160), r.chance(1, 4), r.chance(1, 2) ? 0 : (i64) r.below(3), (i64) r.below(2)}, {}});
            bool giant = !text && large && r.chance(1, 6);
            if (!text) p.steps.push_back({"src", {r.chance(1, 10) ? r.range(0, 3) : giant ? r.range(60000, 150000) : r.range(1, large ? 12000 : 300), (i64) pid++}, {}});
            i64 style = giant ? 3 : (i64) r.below(4);
            for (int i = (int) r.range(1, 6); i; --i)
                p.steps.push_back({"chunk", {style == 0 ? 1 : style == 1 ? r.range(1, 4) : style == 2 ? r.range(1, 40) : 4000}, {}});
        }
        for (int i = 0; i < len; ++i) {
            if (output && (!input || r.chance(1, 2))) {
                i64 k = r.chance(1, 4);
                auto f = tf(r, hard, soft, true, density);
                switch (r.below(prop == "C08" ? 8 : 6)) {
                    case 0: p.steps.push_back({r.chance(1, 2) ? "flush" : "sflush", {k}, f}); break;
                    case 1: if (!hard) { p.steps.push_back({"print", {k, r.range(1, 40), (i64) r.below(1u << 20)}, f}); break; }
                            [[fallthrough]];
                    case 2: p.steps.push_back({"swrite", {k, size(near), (i64) pid++}, f}); break;
                    case 6: p.steps.push_back({"kill", {k}, f}); break;
                    case 7: p.steps.push_back({"temp", {k, (i64) r.below(2), size(near), (i64) pid++}, f}); break;
                    default: p.steps.push_back({"write", {k, size(near), (i64) pid++}, f});
                }
                continue;
            }
            if (!input) continue;
            if (r.chance(1, 8)) { p.steps.push_back({"deliver", {r.range(1, 50)}, {}}); continue; }
            auto f = tf(r, hard, soft, false, density);
            if (!text) p.steps.push_back({"read", {size(global ? 1024 : ci)}, f});
            else {
                static const char* ops[] = {"line", "line", "token", "token", "char", "num", "bool"};
                p.steps.push_back({ops[r.below(7)], {(i64) r.below(5)}, f});
            }
        }
    }
};

const Part registered{
    "std", "C03 C05 C06 C07 C08", [](const std::string& p) -> Scenario* { return new StdScenario(p); },
    "cmp::uin/uout/uerr and local stdin/stdout resources and streams, input/output resources, io_buffer (compiled from /repo)",
    "kernel: read(0), write(1), write(2); the peer feeding standard input; process exit in a forked child with a shared sink"};

} // namespace
} // namespace sim
