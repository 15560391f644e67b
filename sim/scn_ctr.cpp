// Container resources: C02.
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <cmp/io/exceptions.hpp>

#include <new>
#include <string>
#include <vector>
#include "filemodel.hpp"

namespace sim {
namespace {

// ---- one resource behind a uniform face --------------------------------------
struct Res {
    int es = 1;
    bool in = true, out = true;
    virtual ~Res() = default;
    virtual std::size_t read(u8*, std::size_t) { return 0; }
    virtual std::size_t write(const u8*, std::size_t) { return 0; }
    virtual void flush() {}
    virtual void seek(i64, cmp::position_reference) = 0;
    virtual void back(i64) = 0;
    virtual void fwd(i64) = 0;
    virtual i64 pos() = 0;
    virtual bool end() = 0;
    virtual Bytes content() = 0;
    virtual std::unique_ptr<Res> clone(bool move) = 0;      // copy- or move-constructed
    virtual void assign(Res& from, bool move) = 0;          // the same kind of resource
};

template <class C> C make(const Bytes& b) {
    using E = typename C::value_type;
    C c(b.size() / sizeof(E), E{});
    if (!b.empty()) std::memcpy(std::data(c), b.data(), c.size() * sizeof(E));
    return c;
}
template <class C> Bytes dump(const C& c) {
    using E = typename C::value_type;
    Bytes b(c.size() * sizeof(E));
    if (!b.empty()) std::memcpy(b.data(), std::data(c), b.size());
    return b;
}

template <class C, class R, bool IN, bool OUT, bool OWNS> struct ResT final : Res {
    std::shared_ptr<C> ext;     // the borrowed container
    std::unique_ptr<R> r;
    ResT() {
        es = sizeof(typename C::value_type);
        in = IN;
        out = OUT;
    }
    ResT(const Bytes& init, std::size_t cap, int how) : ResT() {
        ext = std::make_shared<C>(make<C>(init));
        if constexpr (OWNS) {
            if (how == 0) r = std::make_unique<R>(*ext, cap);
            else if (how == 1 || !init.empty()) { C tmp(*ext); r = std::make_unique<R>(std::move(tmp), cap); }
            else r = std::make_unique<R>(cap);
            *ext = make<C>(pattern(99, init.size() * es));  // the resource has its own
        } else {
            r = std::make_unique<R>(*ext, cap);
        }
    }
    std::unique_ptr<Res> clone(bool move) override {
        auto n = std::make_unique<ResT>();
        n->ext = ext;
        n->r = move ? std::make_unique<R>(std::move(*r)) : std::make_unique<R>(std::as_const(*r));
        return n;
    }
    void assign(Res& from, bool move) override {
        ResT& f = static_cast<ResT&>(from);
        std::shared_ptr<C> e = f.ext;
        if (move) *r = std::move(*f.r);
        else *r = std::as_const(*f.r);
        ext = e;
    }
    std::size_t read(u8* p, std::size_t n) override {
        if constexpr (IN) return r->read(reinterpret_cast<std::byte*>(p), n);
        else return 0;
    }
    std::size_t write(const u8* p, std::size_t n) override {
        if constexpr (OUT) return r->write(reinterpret_cast<const std::byte*>(p), n);
        else return 0;
    }
    void flush() override { if constexpr (OUT) r->flush(); }
    void seek(i64 p, cmp::position_reference pr) override { r->set_position(p, pr); }
    void back(i64 n) override { r->go_back(n); }
    void fwd(i64 n) override { r->go_forward(n); }
    i64 pos() override { return r->get_position(); }
    bool end() override { return r->is_at_end(); }
    Bytes content() override {
        const C& a = std::as_const(*r).grab_content();
        const C& b = r->grab_content();
        if (&a != &b) fail("content-identity", "the two content accessors refer to different containers");
        if constexpr (!OWNS) if (&a != ext.get()) fail("content-identity", "a borrowing resource refers to another container");
        return dump(a);
    }
};

template <class C> std::unique_ptr<Res> make_res(int kind, const Bytes& init, std::size_t cap, int how) {
    switch (kind) {
        case 0: return std::make_unique<ResT<C, cmp::opaque_container_input_resource<C>, true, false, true>>(init, cap, how);
        case 1: return std::make_unique<ResT<C, cmp::opaque_container_output_resource<C>, false, true, true>>(init, cap, how);
        case 2: return std::make_unique<ResT<C, cmp::opaque_container_io_resource<C>, true, true, true>>(init, cap, how);
        case 3: return std::make_unique<ResT<C, cmp::transparent_container_input_resource<C>, true, false, false>>(init, cap, how);
        case 4: return std::make_unique<ResT<C, cmp::transparent_container_output_resource<C>, false, true, false>>(init, cap, how);
        default: return std::make_unique<ResT<C, cmp::transparent_container_io_resource<C>, true, true, false>>(init, cap, how);
    }
}
struct Rgb { u8 c[3]; };           // a width that is no power of two
constexpr int NTYPE = 7;
const int ELEM[NTYPE] = {1, 2, 4, 1, 8, 1, 3};
std::unique_ptr<Res> make_any(int type, int kind, const Bytes& init, std::size_t cap, int how) {
    switch (type) {
        case 0: return make_res<std::u8string>(kind, init, cap, how);
        case 1: return make_res<std::u16string>(kind, init, cap, how);
        case 2: return make_res<std::u32string>(kind, init, cap, how);
        case 3: return make_res<std::vector<std::byte>>(kind, init, cap, how);
        case 4: return make_res<std::vector<std::uint64_t>>(kind, init, cap, how);
        case 6: return make_res<std::vector<Rgb>>(kind, init, cap, how);
        default: return make_res<std::string>(kind, init, cap, how);
    }
}

struct Obj {
    std::unique_ptr<Res> r;
    FileModel m;
    i64 es = 1;
    int key = 0;                // element type and kind of resource
    bool spent = false;         // moved from: may be assigned to or destroyed
};

struct CtrScenario : Scenario {
    static constexpr int NOBJ = 3;

    static Bytes padded(Bytes b, i64 es) {
        while (b.size() % (std::size_t) es) b.push_back(0);
        return b;
    }
    static void check(Obj& x, const char* after, bool barrier) {
        Bytes dev = x.r->content();
        Bytes want = padded(x.m.logical(), x.es);
        if (barrier && dev != want)
            fail("flush-content", "after %s the container differs from the byte array: %s", after, diff(dev, want).c_str());
        if (!x.m.absorb(dev, (std::size_t) x.es))
            fail("content", "after %s the container is not a prefix application of the accepted writes: %s", after,
                 diff(dev, want).c_str());
    }

    void execute(const Plan& p) override {
        Obj o[NOBJ];
        for (const Step& s : p.steps) {
            std::size_t i = (std::size_t) s.arg(0) % NOBJ;
            if (s.op == "copy" || s.op == "move" || s.op == "cass" || s.op == "mass")
                transfer(o[i], o[(std::size_t) s.arg(1) % NOBJ], s);
            else step(o[i], s);
            for (Obj& x : o) if (x.r && !x.spent) check(x, s.op.c_str(), false);
        }
        for (Obj& x : o) {
            if (!x.r) continue;
            if (x.r->out && !x.spent) {
                Step f{"flush", {}, {}};
                step(x, f);
            }
            Step d{"del", {}, {}};
            Op op(d);
            x.r.reset();
        }
    }

    // copy/move: construct y from x; cass/mass: assign x to y
    void transfer(Obj& x, Obj& y, const Step& s) {
        bool construct = s.op == "copy" || s.op == "move", move = s.op[0] == 'm', threw = false;
        if (&x == &y && move) return;        // the standard leaves the value of a self-move open
        if (!x.r || x.spent || (construct ? y.r != nullptr : !y.r || y.key != x.key)) return;
        {
            Op o(s);
            try {
                if (construct) y.r = x.r->clone(move);
                else y.r->assign(*x.r, move);
            } catch (const std::bad_alloc&) { threw = true; }
        }
        K.shape = mix(K.shape, (u64) threw * 8 + construct * 4 + move * 2 + (u64) (&x == &y));
        ++K.run_events;
        probe(move ? "resource_moved" : "resource_copied");
        if (!x.m.pending.empty()) probe("resource_transferred_with_pending");
        if (threw && (!K.alloc_failed || move)) fail("unexpected-exception", "%s threw bad_alloc", s.op.c_str());
        if (threw) {                      // the target of a failed assignment holds no particular value
            if (!construct && &x != &y) y.spent = true;
            check(x, "a failed copy", false);
            return;
        }
        if (&x == &y) {
            check(x, "self-assignment", false);
            query(x);
            return;
        }
        y.m = x.m;
        y.es = x.es;
        y.key = x.key;
        y.spent = false;
        if (move) x.spent = true;
        else if (x.key % 6 >= 3) {        // two resources on one container: the original goes
            Op o(s);
            x.r.reset();
        }
        check(y, s.op.c_str(), false);
        query(y);
    }

    void step(Obj& x, const Step& s) {
        if (s.op == "del") {
            Op o(s);
            x.r.reset();
            x.spent = false;
            return;
        }
        if (s.op == "new") {          // new obj type kind elements pattern cap how
            if (x.r) return;
            int type = (int) s.arg(1) % NTYPE;
            Bytes init = pattern((u64) s.arg(4), (std::size_t) (s.arg(3) * ELEM[type]));
            Op o(s);
            x.r = make_any(type, (int) s.arg(2) % 6, init, (std::size_t) s.arg(5), (int) s.arg(6));
            x.es = ELEM[type];
            x.key = type * 6 + (int) s.arg(2) % 6;
            x.spent = false;
            K.shape = mix(K.shape, (u64) (type * 6 + s.arg(2) % 6));
            ++K.run_events;
            x.m = FileModel{};
            x.m.base = init;
            return;
        }
        if (!x.r || x.spent) return;
        if (s.op == "read") {
            if (!x.r->in) return;
            std::size_t n = (std::size_t) s.arg(1);
            Bytes buf(n + 32, 0xA5);
            std::size_t got = 0;
            bool threw = false;
            {
                Op o(s);
                try { got = x.r->read(buf.data() + 16, n); } catch (const std::bad_alloc&) { threw = true; }
            }
            shape(x, n, got, threw);
            if (threw && !K.alloc_failed) fail("unexpected-exception", "read threw bad_alloc without memory shortage");
            if (threw) { probe("read_threw"); check(x, "a failed read", false); query(x); return; }
            Bytes c = x.m.logical();
            std::size_t left = (u64) x.m.pos < c.size() ? c.size() - (std::size_t) x.m.pos : 0;
            std::size_t want = n < left ? n : left;
            if (K.alloc_failed ? got > want : got != want)
                fail("read-count", "read(%zu) at %lld of %zu returned %zu, expected %zu", n, (long long) x.m.pos, c.size(), got, want);
            for (std::size_t i = 0; i < got; ++i)
                if (buf[16 + i] != c[(std::size_t) x.m.pos + i])
                    fail("read-data", "read(%zu) at %lld: byte %zu is %02x, expected %02x", n, (long long) x.m.pos, i,
                         buf[16 + i], c[(std::size_t) x.m.pos + i]);
            for (std::size_t i = 0; i < 16; ++i)
                if (buf[i] != 0xA5 || buf[16 + n + i] != 0xA5) fail("read-bounds", "read wrote outside the requested range");
            x.m.pos += (i64) got;
            return;
        }
        if (s.op == "write") {
            if (!x.r->out || x.m.pos > 20000) return;
            std::size_t n = (std::size_t) s.arg(1);
            // only whole elements can be stored: a write past the end ends on an element boundary
            Bytes c = x.m.logical();
            while ((u64) x.m.pos + n > c.size() && ((u64) x.m.pos + n) % (u64) x.es) ++n;
            Bytes data = pattern((u64) s.arg(2), n);
            std::size_t got = 0;
            bool threw = false;
            if ((u64) x.m.pos > c.size() && n) probe("write_past_end");
            {
                Op o(s);
                try { got = x.r->write(data.data(), n); } catch (const std::bad_alloc&) { threw = true; }
            }
            shape(x, n, got, threw);
            if (threw && !K.alloc_failed) fail("unexpected-exception", "write threw bad_alloc without memory shortage");
            if (threw) { probe("write_threw"); check(x, "a failed write", false); query(x); return; }
            if (got > n || (!K.alloc_failed && got != n)) fail("write-count", "write(%zu) returned %zu", n, got);
            x.m.accept(data, got);
            return;
        }
        if (s.op == "flush") {
            bool threw = false;
            {
                Op o(s);
                try { x.r->flush(); } catch (const std::bad_alloc&) { threw = true; }
            }
            if (threw && !K.alloc_failed) fail("unexpected-exception", "flush threw bad_alloc without memory shortage");
            if (threw) probe("flush_threw");
            check(x, "flush", !threw);
            return;
        }
        if (s.op == "seek" || s.op == "back" || s.op == "fwd") {
            i64 size = (i64) x.m.logical().size(), want;
            i64 off = s.arg(1) * x.es;
            if (s.op == "back") want = x.m.pos - off;
            else if (s.op == "fwd") want = x.m.pos + off;
            else want = (s.arg(2) == 0 ? 0 : s.arg(2) == 1 ? x.m.pos : size) + off;
            if (want < 0) want = 0;
            {
                Op o(s);
                if (s.op == "back") x.r->back(s.arg(1));
                else if (s.op == "fwd") x.r->fwd(s.arg(1));
                else x.r->seek(s.arg(1), s.arg(2) == 0 ? cmp::position_reference::begin
                                         : s.arg(2) == 1 ? cmp::position_reference::current : cmp::position_reference::end);
            }
            x.m.pos = want;
            i64 got = x.r->pos();
            if (got != want) fail("seek", "%s moved to %lld, expected %lld", to_text(s).c_str(), (long long) got, (long long) want);
            check(x, "a seek", x.r->out);
            return;
        }
        if (s.op == "pos") { Op o(s); i64 g = x.r->pos(); K.mixv((u64) g); if (g != x.m.pos) fail("position", "position %lld, expected %lld", (long long) g, (long long) x.m.pos); return; }
        if (s.op == "end") {
            Op o(s);
            bool g = x.r->end();
            bool want = x.m.pos >= (i64) x.m.logical().size();
            K.mixv(g);
            if (g != want)
                fail("at-end", "end query says %d at %lld of %zu", (int) g, (long long) x.m.pos, x.m.logical().size());
            return;
        }
    }
    static void shape(const Obj& x, std::size_t n, std::size_t got, bool threw) {
        K.mixv(got);
        int lg = 0;
        for (u64 w = n; w; w >>= 1) ++lg;
        u64 size = x.m.logical().size();
        K.shape = mix(K.shape, (u64) lg * 64 + (u64) threw * 32 + (u64) (got == n) * 16 + (u64) (got == 0) * 8
                      + (u64) ((u64) x.m.pos < size) * 4 + (u64) ((u64) x.m.pos == size) * 2 + (u64) !x.m.pending.empty());
    }
    static void query(Obj& x) {
        i64 g = x.r->pos();
        if (g != x.m.pos) fail("position", "position %lld after a failed call, expected %lld", (long long) g, (long long) x.m.pos);
    }

    void generate(Rng& r, Plan& p) override {
        static const i64 caps[] = {0, 0, 1, 2, 3, 4, 5, 7, 8, 8, 13, 16, 16, 31, 32, 64, 100, 1024};
        int nobj = r.chance(1, 6) ? 2 : 1;
        struct Sh { i64 es, cap, pos, size; int type, kind; bool used, spent; } sh[NOBJ] = {};
        u64 pid = 1;
        bool mem = r.chance(1, 2), large = r.chance(1, 60);
        bool passing = r.chance(1, 3);        // resources are copied and moved
        for (int i = 0; i < nobj; ++i) {
            int type = (int) r.below(NTYPE);
            int kind = (int) (r.chance(1, 2) ? 2 + 3 * r.below(2) : r.below(6));
            i64 n = r.chance(1, 5) ? 0 : r.range(1, large ? 6000 : 60);
            i64 cap = large && r.chance(1, 3) ? (i64) (1 << r.range(9, 16)) + r.range(-1, 1) : caps[r.below(sizeof caps / sizeof *caps)];
            if (passing && i && r.chance(2, 3)) { type = sh[0].type; kind = sh[0].kind; }
            sh[i] = {ELEM[type], cap, 0, n * ELEM[type], type, kind, true, false};
            p.steps.push_back({"new", {i, type, kind, n, (i64) pid++, cap, (i64) r.below(3)}, {}});
        }
        unsigned wr = (unsigned) r.below(10), ww = (unsigned) r.below(10), wk = (unsigned) r.below(6), wf = (unsigned) r.below(4),
                 wq = 1 + (unsigned) r.below(3);
        if (wr + ww == 0) wr = 4;
        int len = (int) r.range(3, 30);
        if (!large && r.chance(1, 100)) len *= 10;
        for (int i = 0; i < len; ++i) {
            i64 oi = (i64) r.below((u64) (passing ? NOBJ : nobj));
            if (passing && (!sh[oi].used || sh[oi].spent))
                for (oi = 0; oi < NOBJ - 1 && (!sh[oi].used || sh[oi].spent); ) ++oi;
            Sh& s = sh[oi];
            if (!s.used || s.spent) break;
            if (passing && r.chance(1, 5)) {
                i64 d = (i64) r.below(NOBJ);
                bool mv = d != oi && r.chance(1, 2);
                std::vector<Fault> f;
                if (mem && !mv && r.chance(1, 5)) f.push_back({'K', r.range(1, 4)});
                if (d != oi && sh[d].used && (sh[d].type != s.type || sh[d].kind != s.kind || r.chance(1, 4))) {
                    p.steps.push_back({"del", {d}, {}});
                    sh[d].used = false;
                }
                p.steps.push_back({sh[d].used ? mv ? "mass" : "cass" : mv ? "move" : "copy", {oi, d}, f});
                if (d == oi) continue;
                if (f.empty() || !sh[d].used) sh[d] = s;
                if (mv) s.spent = true;
                else if (s.kind >= 3) s.used = false;
                continue;
            }
            auto near = [&]() -> i64 {
                switch (r.below(8)) {
                    case 0: return s.cap;
                    case 1: return s.cap + 1;
                    case 2: return s.cap > 0 ? s.cap - 1 : 1;
                    case 3: return 2 * s.cap + r.range(0, 3);
                    case 4: return r.range(0, 3);
                    case 5: return r.range(1, s.cap > 1 ? s.cap : 4);
                    case 6: return r.range(1, 3 * s.cap + 4);
                    default: return r.range(1, 12);
                }
            };
            auto mf = [&]() {
                std::vector<Fault> f;
                if (mem && r.chance(1, 4)) f.push_back({'K', r.range(1, 2)});
                return f;
            };
            unsigned z = (unsigned) r.below(wr + ww + wk + wf + wq);
            if (z < wr) {
                i64 n = near();
                if (large && r.chance(1, 6)) n = r.range(300, r.chance(1, 4) ? 70000 : 9000);
                else if (n > 300 && !large) n = r.range(1, 300);
                p.steps.push_back({"read", {oi, n}, mf()});
                i64 left = s.size > s.pos ? s.size - s.pos : 0;
                s.pos += n < left ? n : left;
                continue;
            }
            z -= wr;
            if (z < ww) {
                i64 n = near();
                if (large && r.chance(1, 6)) n = r.range(300, r.chance(1, 4) ? 70000 : 9000);
                else if (n > 300 && !large) n = r.range(1, 300);
                if (r.chance(3, 4)) n = (n + s.es - 1) / s.es * s.es;
                p.steps.push_back({"write", {oi, n, (i64) pid++}, mf()});
                s.pos += n;
                if (s.pos > s.size) s.size = s.pos;
                continue;
            }
            z -= ww;
            if (z < wk) {
                i64 ep = s.pos / s.es, en = s.size / s.es;
                if (r.chance(1, 5)) {
                    i64 n = r.range(0, 10);
                    p.steps.push_back({"back", {oi, n}, {}});
                    s.pos = s.pos > n * s.es ? s.pos - n * s.es : 0;
                } else if (r.chance(1, 5)) {
                    i64 n = r.range(0, 10);
                    p.steps.push_back({"fwd", {oi, n}, {}});
                    s.pos += n * s.es;
                } else {
                    i64 ref = (i64) r.below(3);
                    i64 lo = (ref == 0 ? 0 : ref == 1 ? -ep : -en) - (r.chance(1, 12) ? 4 : 0);
                    i64 hi = ref == 0 ? en + 6 : ref == 1 ? en - ep + 6 : 6;
                    if (ref == 1 && r.chance(1, 2)) { lo = ep < 6 ? -ep : -6; hi = 6; }
                    if (hi < lo) hi = lo;
                    i64 off = r.range(lo, hi);
                    if (r.chance(1, 60)) off = 1ll << r.range(16, 40);
                    p.steps.push_back({"seek", {oi, off, ref}, {}});
                    s.pos = (ref == 0 ? 0 : ref == 1 ? s.pos : s.size) + off * s.es;
                    if (s.pos < 0) s.pos = 0;
                    if (s.pos > 100000) {             // look around and come back
                        if (r.chance(1, 3)) {
                            i64 n = 1ll << r.range(16, 40);
                            p.steps.push_back({"fwd", {oi, n}, {}});
                            s.pos += n * s.es;
                        }
                        p.steps.push_back({"read", {oi, 8}, {}});
                        p.steps.push_back({"end", {oi}, {}});
                        i64 n = (s.pos - s.size) / s.es + 1;
                        switch (r.below(3)) {
                            case 0: p.steps.push_back({"seek", {oi, 0, 2}, {}}); s.pos = s.size; break;
                            case 1: p.steps.push_back({"back", {oi, n}, {}}); s.pos -= n * s.es; break;
                            default: p.steps.push_back({"seek", {oi, -n, 1}, {}}); s.pos -= n * s.es;
                        }
                        if (s.pos < 0) s.pos = 0;
                    }
                }
                continue;
            }
            z -= wk;
            if (z < wf) { p.steps.push_back({"flush", {oi}, mf()}); continue; }
            p.steps.push_back({r.chance(1, 2) ? "pos" : "end", {oi}, {}});
        }
    }
};

const Part registered{
    "ctr", "C02", [](const std::string&) -> Scenario* { return new CtrScenario; },
    "opaque and transparent container resources over std::string, u8string, u16string, u32string, vector<byte>, vector<uint64_t>, vector of 3-byte structs; io_buffer (compiled from /repo)",
    "allocator (operator new with injected failures)"};

} // namespace
} // namespace sim
