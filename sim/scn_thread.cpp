// Several threads, each with objects of its own: C15.
//
// The threads are real but only one runs at a time. Every basic block of the
// library is a point where the plan may hand over to another thread. The same
// programs are first run alone; results and files must be the same.
#include <cmp/io/file.hpp>
#include <cmp/io/exceptions.hpp>
#include <cmp/io/data_io_stream.hpp>
#include <cmp/io/text_io_stream.hpp>
#include <cmp/io/opaque_container_input_resource.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/opaque_container_output_resource.hpp>
#include <cmp/io/transparent_container_input_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <cmp/io/transparent_container_output_resource.hpp>

#include <thread>
#include "sched.hpp"
#include "text.hpp"

namespace sim {
namespace {

constexpr int MAXT = 3, TPUT = 13, TGET = 17, DATA = 9, SAY = 10, TRIP = 6, NOPS = 15;
using U8IO = cmp::opaque_container_io_resource<std::u8string>;
template <class R> cmp::text_input_stream<R>& tin(cmp::text_input_stream<R>& s) { return s; }
template <class R> cmp::text_output_stream<R>& tout(cmp::text_output_stream<R>& s) { return s; }
template <class R> cmp::data_input_stream<R>& din(cmp::data_input_stream<R>& s) { return s; }
template <class R> cmp::data_output_stream<R>& dout(cmp::data_output_stream<R>& s) { return s; }

struct Rec {
    std::string op;
    std::vector<u64> v;
    bool operator==(const Rec&) const = default;
};
std::u8string dec(u64 v) { std::string d = std::to_string(v); return std::u8string(d.begin(), d.end()); }
cmp::encoding_form ef(i64 e) { return e % 3 == 0 ? cmp::utf8 : e % 3 == 1 ? cmp::utf16 : cmp::utf32; }
std::endian en(i64 b) { return b ? std::endian::big : std::endian::little; }

// what one thread owns
struct Prog {
    char tag;
    int no;
    std::vector<const Step*> steps;
    std::vector<Rec> log;
    std::unique_ptr<cmp::file> f;
    std::unique_ptr<U8IO> c;
    std::unique_ptr<cmp::text_io_stream<cmp::file>> tf;
    std::unique_ptr<cmp::text_io_stream<U8IO>> tc;
    std::unique_ptr<cmp::data_io_stream<cmp::file>> df;
    std::unique_ptr<cmp::data_io_stream<U8IO>> dc;

    std::string path(i64 k) const { return std::string("/simfs/") + tag + char('0' + no) + char('0' + k % 2); }
    void rec(u64 v) { log.back().v.push_back(v); }
    template <class S> void rec_text(const S& s) {
        u64 h = s.size();
        for (auto c : s) h = mix(h, (u64) c);
        rec(h);
    }
    void drop() { tf.reset(); tc.reset(); df.reset(); dc.reset(); }

    template <class R> void text(R& r, std::unique_ptr<cmp::text_io_stream<R>>& st, const Step& s) {
        i64 k = s.arg(1);
        const std::string& op = s.op;
        if (op == "tset") { drop(); st = std::make_unique<cmp::text_io_stream<R>>(r, ef(k), en(s.arg(2))); return; }
        if (!st) { drop(); st = std::make_unique<cmp::text_io_stream<R>>(r, cmp::utf8, std::endian::native); }
        if (op == "tput") {
            std::u32string t = gen_text((u64) s.arg(2), (std::size_t) s.arg(3), 0);
            auto& o = tout(*st);
            switch (k % TPUT) {
                case 0: o << to8(t); break;
                case 1: o << to16(t); break;
                case 2: o << t; break;
                case 3: o << (int) s.arg(2); break;
                case 4: o << (double) s.arg(2) / 8; break;
                case 5: o << (unsigned long long) mix((u64) s.arg(2), 1); break;
                case 6: o << U'\u20ac' << ' ' << true; break;
                case 7: o << std::wstring(t.begin(), t.end()); break;
                case 8: o << "plain text" << std::string("x", (std::size_t) s.arg(3) % 2); break;
                case 9: o << (s.arg(2) % 2 == 0) << U' '; break;
                case 10: st->write_bom(); break;
                case 11: o << to8(t).c_str() << u"\u00e4" << U"\U0001F600" << L"w"; break;
                default: o << (short) s.arg(2) << '\n' << (float) s.arg(2) / 4 << '\n'; break;
            }
        } else {
            auto& i = tin(*st);
            switch (k % TGET) {
                case 0: { std::u8string t; i >> t; rec_text(t); break; }
                case 1: { std::u16string t; i.read_line(t); rec_text(t); break; }
                case 2: { std::u32string t; i.read_line(t); rec_text(t); break; }
                case 3: { char32_t c = 0; i >> c; rec(c); break; }
                case 4: { std::u8string t; i.read_line(t); rec_text(t); break; }
                case 5: { std::wstring t; i >> t; rec_text(t); break; }
                case 6: { long long v = 7; i >> v; rec((u64) v); break; }
                case 7: { rec(i.is_at_end()); break; }
                case 8: { std::u8string t; i.read_all(t); rec_text(t); break; }
                case 9: { std::u16string t = u"k"; i.append_line(t); rec_text(t); break; }
                case 10: { std::u32string t = U"k"; i.append_all(t); rec_text(t); break; }
                case 11: { bool v = false; i >> v; rec(v); break; }
                case 12: { double v = 0; i >> v; u64 b; std::memcpy(&b, &v, 8); rec(b); break; }
                case 13: { rec(i.read_bom()); rec(i.get_endianness() == std::endian::big); break; }
                case 14: { unsigned char v = 0; i >> v; rec(v); break; }
                case 15: { i.set_encoding_form(ef((i64) log.size())); rec(i.get_encoding_form()); break; }
                default: { std::u16string t; i >> t; rec_text(t); break; }
            }
        }
    }
    template <class R> void data(R& r, std::unique_ptr<cmp::data_io_stream<R>>& st, const Step& s) {
        if (s.op == "dset") { drop(); st = std::make_unique<cmp::data_io_stream<R>>(r, en(s.arg(2))); return; }
        if (!st) { drop(); st = std::make_unique<cmp::data_io_stream<R>>(r, std::endian::native); }
        u64 v = mix((u64) s.arg(2), 7);
        if (s.op == "dput") {
            auto& o = dout(*st);
            switch (s.arg(1) % DATA) {
                case 0: { int x = (int) v; o << x; break; }
                case 1: { unsigned long long x = v; o << x; break; }
                case 2: { short x = (short) v; o << x; break; }
                case 3: { double x = (double) (int) v; o << x; break; }
                case 4: { char x = (char) v; o << x; break; }
                case 5: { bool x = v & 1; o << x; break; }
                case 6: { float x = (float) (short) v; o << x; break; }
                case 7: { char32_t x = (char32_t) v; o << x; break; }
                default: { char16_t x = (char16_t) v; o << x; break; }
            }
        } else {
            auto& i = din(*st);
            switch (s.arg(1) % DATA) {
                case 0: { int x = 5; i >> x; rec((u64) x); break; }
                case 1: { unsigned long long x = 5; i >> x; rec(x); break; }
                case 2: { short x = 5; i >> x; rec((u64) x); break; }
                case 3: { double x = 5; i >> x; u64 b; std::memcpy(&b, &x, 8); rec(b); break; }
                case 4: { char x = 5; i >> x; rec((u64) x); break; }
                case 5: { unsigned char x = 5; i >> x; rec(x); break; }
                case 6: { float x = 5; i >> x; std::uint32_t b; std::memcpy(&b, &x, 4); rec(b); break; }
                case 7: { char32_t x = 5; i >> x; rec(x); break; }
                default: { char16_t x = 5; i >> x; rec(x); break; }
            }
        }
    }
    template <class R> void bytes(R& r, const Step& s) {
        const std::string& op = s.op;
        std::size_t n = (std::size_t) s.arg(1);
        if (op == "w") {
            Bytes b = pattern((u64) s.arg(2), n);
            rec(r.write(reinterpret_cast<const std::byte*>(b.data()), n));
        } else if (op == "r") {
            Bytes b(n, 0xEE);
            std::size_t k = r.read(reinterpret_cast<std::byte*>(b.data()), n);
            rec(k);
            u64 h = 1;
            for (std::size_t i = 0; i < k && i < n; ++i) h = mix(h, b[i]);
            rec(h);
        } else if (op == "seek") r.set_position(s.arg(1), s.arg(2) ? cmp::position_reference::end : cmp::position_reference::begin);
        else if (op == "back") { if (s.arg(2)) r.go_forward(s.arg(1)); else r.go_back(s.arg(1)); }
        else if (op == "flush") r.flush();
        else if (op == "pos") { rec((u64) r.get_position()); rec(r.is_at_end()); }
    }

    // a short life of each kind of container resource
    template <class R> void trip(R& r, u64 z, std::size_t more) {
        Bytes b = pattern(z, more + 1 + z % 9), got(12, 0xEE);
        auto* q = reinterpret_cast<const std::byte*>(b.data());
        if constexpr (requires { r.write(q, b.size()); }) {
            rec(r.write(q, b.size()));
            r.set_position(1, cmp::position_reference::begin);
            rec(r.write(q, b.size()));
            r.flush();
        }
        r.set_position(0, cmp::position_reference::begin);
        if constexpr (requires { r.read(reinterpret_cast<std::byte*>(got.data()), 5); }) {
            rec(r.read(reinterpret_cast<std::byte*>(got.data()), 5));
            r.go_back(1);
            rec(r.read(reinterpret_cast<std::byte*>(got.data() + 5), 7));
            rec_text(got);
        }
        rec((u64) r.get_position());
        rec(r.is_at_end());
        rec_text(r.grab_content());
    }
    void trips(u64 z, i64 kind, std::size_t cap, std::size_t more) {
        std::u16string a(z % 7 + more / 2, (char16_t) z);
        std::u32string d(z % 5, (char32_t) (z & 0xFFFF));
        switch (kind % TRIP) {
            case 0: { cmp::transparent_container_io_resource<std::u16string> q{a, cap}; trip(q, z, more); break; }
            case 1: { cmp::transparent_container_input_resource<std::u16string> q{a, cap}; trip(q, z, more); break; }
            case 2: { cmp::transparent_container_output_resource<std::u32string> q{d, cap}; trip(q, z, more); break; }
            case 3: { cmp::opaque_container_input_resource<std::u16string> q{a, cap}; trip(q, z, more); break; }
            case 4: { cmp::opaque_container_output_resource<std::u32string> q{d, cap}; trip(q, z, more); break; }
            default: { cmp::opaque_container_io_resource<std::u16string> q{a, cap}; trip(q, z, more); break; }
        }
        rec_text(a);
        rec_text(d);
    }

    void step(const Step& s) {
        log.push_back({s.op, {}});
        race_where(s.op.c_str());
        // every call runs in a window of its own, with its own faults
        Op o(s);
        try {
            if (s.op == "open") {
                drop();
                static const cmp::access_mode m[] = {cmp::read_and_write, cmp::write_only, cmp::read_only};
                if (!f) {
                    f = std::make_unique<cmp::file>(path(s.arg(1)), m[s.arg(2) % 3], cmp::if_not_there::create, (std::size_t) s.arg(3));
                    rec(f->is_open());
                } else rec(f->open(path(s.arg(1)), m[s.arg(2) % 3], cmp::if_not_there::create));
            } else if (s.op == "box") {
                drop();
                c = std::make_unique<U8IO>(to8(gen_text((u64) s.arg(1), (std::size_t) s.arg(2), 0)), (std::size_t) s.arg(3));
            } else if (s.op == "close") {
                drop();
                if (f) f->close();
            } else if (s.op == "move") {           // the file goes to another object
                drop();
                if (f) {
                    auto g = std::make_unique<cmp::file>(std::move(*f));
                    if (s.arg(1)) *f = std::move(*g);
                    else f = std::move(g);
                    rec(f->is_open());
                }
            } else if (s.op == "trip") {
                trips(mix((u64) s.arg(1), 3), s.arg(2), (std::size_t) s.arg(3), (std::size_t) s.arg(4));
            } else if (s.op == "say") {            // formatting without a stream
                u64 v = mix((u64) s.arg(1), 2);
                std::u32string t = gen_text(v, (std::size_t) (v % 12) + (std::size_t) s.arg(3), 0);
                switch (s.arg(2) % SAY) {
                    case 0: rec_text(cmp::format_integer<std::u8string>((long long) v, cmp::integer_format{})); break;
                    case 1: rec_text(cmp::format_floating_point<std::u8string>((double) (v % 100000) / 16, cmp::floating_point_format{})); break;
                    case 2: rec((u64) cmp::parse_integer<long long>(dec(v % 1000000000), cmp::integer_format{})); break;
                    case 3: { double d = cmp::parse_floating_point<double>(dec(v % 100000) + u8".5", cmp::floating_point_format{}); u64 b; std::memcpy(&b, &d, 8); rec(b); break; }
                    case 4: rec_text(cmp::to_u8string(t)); rec_text(cmp::to_u16string(to8(t))); break;
                    case 5: {
                        cmp::integer_format g{2 + (unsigned) v % 35, cmp::sign_status::always_show, cmp::thousands_separator::comma};
                        auto w = cmp::format_integer<std::u16string>((int) v, g);
                        rec_text(w);
                        rec((u64) cmp::parse_integer<int>(w, g));
                        break;
                    }
                    case 6: {
                        cmp::floating_point_format g{10, cmp::sign_status::only_when_negative, cmp::thousands_separator::none, cmp::radix_character::comma,
                                                     cmp::radix_place_limit::exactly_equal, 1 + (unsigned) v % 4};
                        auto w = cmp::format_floating_point<std::u32string>(-(double) (v % 10000) / 8, g);
                        rec_text(w);
                        double d = cmp::parse_floating_point<double>(w, g);
                        u64 b;
                        std::memcpy(&b, &d, 8);
                        rec(b);
                        break;
                    }
                    case 7: {
                        cmp::bool_format g{u8"ja", u8"nein"};
                        auto w = cmp::format_bool<std::u16string>(v & 1, g);
                        rec_text(w);
                        rec(cmp::parse_bool(w, g));
                        break;
                    }
                    case 8: {
                        u64 h = 1;
                        auto w = to16(t);
                        for (char32_t c : cmp::by_code_point{w}) h = mix(h, c);
                        rec(h);
                        std::wstring q = cmp::convert_string<std::wstring>(w);
                        rec_text(q);
                        break;
                    }
                    default: rec(cmp::string_size(to8(t).c_str())); rec_text(cmp::to_u32string(to16(t))); break;
                }
            } else {
                bool box = s.a.size() && (s.a.back() & 1);
                if (s.op[0] == 't') { if (box) { if (c) text(*c, tc, s); } else if (f) text(*f, tf, s); }
                else if (s.op[0] == 'd') { if (box) { if (c) data(*c, dc, s); } else if (f) data(*f, df, s); }
                else if (box) { if (c) bytes(*c, s); }
                else if (f) bytes(*f, s);
            }
        }
        catch (const cmp::read_past_end&) { rec(0xE1); }
        catch (const cmp::invalid_unicode_encoding&) { rec(0xE2); }
        catch (const cmp::invalid_code_point&) { rec(0xE3); }
        catch (const std::exception& e) { rec(0xE4); rec_text(std::string(e.what())); }
        rec(K.hard);
    }
    void finish() {
        Step e{"end", {}, {}};
        Op o(e);
        drop();
        log.push_back({"end", {}});
        if (c) {
            c->flush();
            rec_text(c->grab_content());
        }
        c.reset();
        f.reset();
    }
    void all() {
        for (const Step* s : steps) step(*s);
        finish();
    }
};

struct ThreadScenario : Scenario {
    void programs(const Plan& p, char tag, std::vector<std::unique_ptr<Prog>>& out) {
        int n = 1;
        for (const Step& s : p.steps) if (s.op != "sl" && s.op != "have") n = std::max(n, (int) (s.arg(0) % MAXT) + 1);
        for (int i = 0; i < n; ++i) {
            out.push_back(std::make_unique<Prog>());
            out.back()->tag = tag;
            out.back()->no = i;
        }
        for (const Step& s : p.steps) {
            if (s.op == "sl") continue;
            if (s.op == "have") {                       // a file that is there beforehand
                int i = (int) (s.arg(0) % n);
                K.create(out[(std::size_t) i]->path(s.arg(1)), [&] {
                    Bytes b;
                    for (char8_t c : to8(gen_text((u64) s.arg(2), (std::size_t) s.arg(3), 0))) b.push_back((u8) c);
                    return b;
                }());
                continue;
            }
            out[(std::size_t) (s.arg(0) % MAXT)]->steps.push_back(&s);
        }
    }
    void execute(const Plan& p) override {
        std::vector<std::unique_ptr<Prog>> alone, together;
        programs(p, 'a', alone);
        programs(p, 'b', together);
        for (auto& g : alone) {
            // the thread of its own matters for thread-local state
            std::thread t([&] { g->all(); });
            t.join();
        }
        std::vector<Slice> slices;
        for (const Step& st : p.steps) if (st.op == "sl") slices.push_back({(int) (st.arg(0) % MAXT), st.arg(1)});
        std::vector<std::string> died(together.size());
        std::vector<std::function<void()>> bodies;
        for (std::size_t i = 0; i < together.size(); ++i)
            bodies.push_back([&, i] {
                try { together[i]->all(); }
                catch (const std::exception& e) { Pause pz; died[i] = e.what(); }
            });
        std::string shared;
        u64 switches = run_threads(bodies, slices, shared);
        if (switches > 3) probe("interleaved");
        if (!K.bad_fd.empty()) fail("foreign-descriptor", "operation on a descriptor that is not open: %s", K.bad_fd.front().c_str());
        for (std::size_t i = 0; i < together.size(); ++i) {
            auto& a = alone[i]->log;
            auto& b = together[i]->log;
            if (!died[i].empty()) fail("thread-died", "thread %zu ended with %s", i, died[i].c_str());
            if (a.size() != b.size()) fail("interference", "thread %zu made %zu steps alone and %zu with others", i, a.size(), b.size());
            for (std::size_t k = 0; k < a.size(); ++k)
                if (!(a[k] == b[k]))
                    fail("interference", "call %zu (%s) of thread %zu gave another result than alone", k, a[k].op.c_str(), i);
            for (i64 k = 0; k < 2; ++k) {
                auto x = K.lookup(alone[i]->path(k)), y = K.lookup(together[i]->path(k));
                Bytes bx = x ? x->data : Bytes{}, by = y ? y->data : Bytes{};
                if (!x != !y || bx != by) fail("interference", "file %lld of thread %zu: %s, alone %s", (long long) k, i, hex(by).c_str(), hex(bx).c_str());
            }
        }
        if (!shared.empty()) fail("shared-memory", "%s", shared.c_str());
    }
    void generate(Rng& r, Plan& p) override {
        static const i64 caps[] = {0, 1, 2, 3, 5, 8, 16, 64};
        i64 n = r.chance(1, 3) ? 3 : 2;
        // now and then everything is long: buffers that only large amounts pass through are reached
        bool wide = r.chance(1, 10);
        auto len = [&](i64 lo, i64 hi) { return wide ? r.chance(1, 8) ? r.range(0, 9000) : r.range(lo, hi * 20) : r.range(lo, hi); };
        auto cap = [&]() -> i64 { return wide && r.chance(1, 2) ? r.chance(1, 2) ? 8192 : 1024 : caps[r.below(8)]; };
        bool faults = r.chance(1, 2), hard = r.chance(1, 4);
        unsigned wt[NOPS];
        static const char* const ops[NOPS] = {"w", "r", "seek", "flush", "pos", "tset", "tput", "tget", "dset", "dput", "dget", "say", "back", "move", "trip"};
        unsigned tot = 0;
        for (int i = 0; i < NOPS; ++i) tot += wt[i] = (unsigned) r.below(5);
        if (!tot) tot = wt[6] = wt[7] = 1, tot = 2;
        // twins: all threads do the same things with different values, so that they
        // are inside the same functions at the same time
        bool twins = r.chance(1, 2), focus = twins && r.chance(1, 2);
        i64 one = (i64) r.below(1u << 16), enc = (i64) r.below(3), big = (i64) r.below(2), where = (i64) r.below(2);
        if (focus) {
            std::fill(wt, wt + NOPS, 0u);
            static const int pick[] = {6, 6, 6, 6, 7, 7, 7, 7, 9, 10, 11, 11, 11, 0, 1, 14, 14};
            wt[pick[r.below(sizeof pick / sizeof *pick)]] = 1;
            tot = 1;
        }
        std::size_t first = 0;
        for (i64 t = 0; t < n; ++t) {
            if (twins && t > 0) {
                std::size_t end = t == 1 ? p.steps.size() : first;
                if (t == 1) first = end;
                for (std::size_t i = 0; i < end; ++i) {
                    Step s = p.steps[i];
                    s.a[0] = t;
                    if ((s.op == "w" || s.op == "tput" || s.op == "dput" || s.op == "have") && s.a.size() > 2) s.a[2] = (i64) r.below(1u << 20);
                    if (s.op == "say" || s.op == "box" || s.op == "trip") s.a[1] = (i64) r.below(1u << 20);
                    p.steps.push_back(s);
                }
                continue;
            }
            for (i64 k = 0; k < 2; ++k) if (r.chance(1, 2)) p.steps.push_back({"have", {t, k, (i64) r.below(1u << 20), len(0, 40)}, {}});
            p.steps.push_back({"open", {t, (i64) r.below(2), r.chance(3, 4) ? 0 : (i64) r.below(3), cap()}, {}});
            p.steps.push_back({"box", {t, (i64) r.below(1u << 20), len(0, 30), cap()}, {}});
            if (focus && r.chance(3, 4)) p.steps.push_back({"tset", {t, enc, big, where}, {}});
            for (i64 i = r.range(2, r.chance(1, 60) ? 60 : 12); i; --i) {
                unsigned z = (unsigned) r.below(tot);
                int k = 0;
                while (z >= wt[k]) z -= wt[k++];
                Step s{ops[k], {t}, {}};
                i64 box = (i64) r.below(2);
                switch (k) {
                    case 0: s.a = {t, len(0, 30), (i64) r.below(1000), box}; break;
                    case 1: s.a = {t, len(0, 30), box}; break;
                    case 2: s.a = {t, r.range(0, 30), r.chance(1, 4) ? 1 : 0, box}; if (s.a[2]) s.a[1] = -r.range(0, 10); break;
                    case 3: case 4: s.a = {t, box}; break;
                    case 5: s.a = {t, (i64) r.below(3), (i64) r.below(2), box}; break;
                    case 6: s.a = {t, (i64) r.below(TPUT), (i64) r.below(1u << 20), len(0, 12), box}; break;
                    case 7: s.a = {t, (i64) r.below(TGET), box}; break;
                    case 8: s.a = {t, 0, (i64) r.below(2), box}; break;
                    case 9: case 10: s.a = {t, (i64) r.below(DATA), (i64) r.below(1u << 20), box}; break;
                    case 11: s.a = {t, (i64) r.below(1u << 20), (i64) r.below(SAY), wide ? len(0, 12) : 0}; break;
                    case 12: s.a = {t, r.range(0, 6), (i64) r.below(2), box}; break;
                    case 13: s.a = {t, (i64) r.below(2)}; break;
                    default: s.a = {t, (i64) r.below(1u << 20), (i64) r.below(TRIP), cap(), wide ? len(0, 12) : 0};
                }
                if (focus) {
                    if (k < 11) s.a.back() = where;
                    if (k == 6 || k == 7 || k == 9 || k == 10) s.a[1] = one % (k == 6 ? TPUT : k == 7 ? TGET : DATA);
                    if (k == 11) s.a[2] = one % SAY;
                    if (k == 14) s.a[2] = one % TRIP;
                }
                if (faults && r.chance(1, 3)) {
                    for (i64 q = r.range(1, 3); q; --q) {
                        unsigned y = (unsigned) r.below(10);
                        if (y < 3) s.f.push_back({'P', 0});
                        else if (y < 5) s.f.push_back({'I', 0});
                        else if (y < 8 || !hard) s.f.push_back({'S', r.range(1, 5)});
                        else s.f.push_back({"EN"[r.below(2)], 0});
                    }
                }
                p.steps.push_back(s);
            }
            if (r.chance(1, 3)) p.steps.push_back({"close", {t}, {}});
            if (r.chance(1, 4)) p.steps.push_back({"open", {t, (i64) r.below(2), (i64) r.below(3), cap()}, {}});
        }
        // the schedule: how long each slice is, in basic blocks
        i64 style = (i64) r.below(4);
        i64 m = style == 0 ? 20 : style == 1 ? 200 : 800;
        for (i64 i = r.range(2, style == 0 ? 60 : 24); i; --i)
            p.steps.push_back({"sl", {(i64) r.below((u64) n), style == 3 ? r.range(1, 3000) * (wide ? 10 : 1) : 1 + (i64) r.below((u64) m)}, {}});
    }
};

const Part registered{
    "thread", "C15", [](const std::string&) -> Scenario* { return new ThreadScenario; },
    "files, container resources, text and data streams used from real threads (compiled from /repo)",
    "thread scheduling (one thread at a time, switched at basic blocks), kernel"};

} // namespace
} // namespace sim
