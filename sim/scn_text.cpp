// Text and binary streams on every kind of resource: C09 C10 C11 C12 C21 C22.
#include <cmp/io/uio.hpp>
#include <cmp/io/file.hpp>
#include <cmp/io/exceptions.hpp>
#include <cmp/io/data_io_stream.hpp>
#include <cmp/io/text_io_stream.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>

#include <limits>
#include "filemodel.hpp"
#include "text.hpp"

namespace sim {
namespace {

using cmp::file;
using U8IO = cmp::opaque_container_io_resource<std::u8string>;
using U8In = cmp::opaque_container_input_resource<std::u8string>;
using VOut = cmp::transparent_container_output_resource<std::vector<std::byte>>;
using VIn = cmp::transparent_container_input_resource<std::vector<std::byte>>;
using Out1 = cmp::stdout_resource;
using In0 = cmp::stdin_resource;
const char* PATH = "/simfs/text";

cmp::encoding_form ef(int e) { return e == 0 ? cmp::utf8 : e == 1 ? cmp::utf16 : cmp::utf32; }
std::endian en(bool big) { return big ? std::endian::big : std::endian::little; }

// ------------------------------------------------------------ type-erased faces
struct TOut {
    virtual ~TOut() = default;
    virtual void bom() = 0;
    virtual void put(const std::u8string&, bool c) = 0;
    virtual void put(const std::u16string&, bool c) = 0;
    virtual void put(const std::u32string&, bool c) = 0;
    virtual void put(const std::wstring&, bool c) = 0;
    virtual void put(const std::string&, bool c) = 0;
    virtual void one(char32_t) = 0;
    virtual void ch(char) = 0;
    virtual void boolean(bool) = 0;
    virtual void integer(int type, u64 bits, std::string& text) = 0;
    virtual void number(int type, u64 z) = 0;
    virtual void flush() = 0;
    virtual void form(int enc, bool big) = 0;
};
template <class T> T pick_int(u64 z) {
    switch (z % 5) {
        case 0: return std::numeric_limits<T>::min();
        case 1: return std::numeric_limits<T>::max();
        case 2: return (T) ((z / 5) % 3);
        default: return (T) (z / 5);
    }
}
// the numbers of C21: 12 types, the value of type t numbered z
constexpr int NUMS = 14;
template <class T> T pick_real(u64 z) {
    u64 b = mix(z, 5);
    T v;
    switch (z % 6) {
        case 0: v = (T) (i64) (b % 2000); break;
        case 1: v = (T) (i64) (b % 5000) / (T) (1 << (b >> 40) % 12); break;
        case 2: v = (T) (b % 1000) / (T) 1000; break;
        case 3: v = (T) (b % 1000003) / (T) 10; break;
        case 4: v = (T) (b >> 11) / (T) (1ull << ((b & 63) % 60)); break;
        default: v = (T) (b % 1000000007) / (T) 1000003; break;
    }
    return (b >> 62) & 1 ? -v : v;
}
template <class F> auto with_number(int type, u64 z, F&& f) {
    switch (type % NUMS) {
        case 0: return f(pick_int<int>(z));
        case 1: return f(pick_int<long long>(z));
        case 2: return f(pick_int<unsigned>(z));
        case 3: return f(pick_int<short>(z));
        case 4: return f(pick_int<unsigned long long>(z));
        case 5: return f(pick_int<signed char>(z));
        case 6: return f(pick_int<unsigned short>(z));
        case 7: return f(pick_int<long>(z));
        case 8: return f(pick_int<unsigned long>(z));
        case 9: return f(pick_int<unsigned char>(z));
        case 10: return f((z & 1) != 0);
        case 11: return f(pick_real<float>(z));
        case 12: return f(pick_real<double>(z));
        default: return f(pick_real<long double>(z));
    }
}
template <class R> cmp::text_output_stream<R>& out_face(cmp::text_output_stream<R>& s) { return s; }
template <class S> struct TOutT : TOut {
    S st;
    template <class... A> explicit TOutT(A&&... a) : st(std::forward<A>(a)...) {}
    template <class X> void p(const X& s, bool c) {
        if (c) st << s.c_str();
        else st << s;
    }
    void bom() override { st.write_bom(); }
    void put(const std::u8string& s, bool c) override { p(s, c); }
    void put(const std::u16string& s, bool c) override { p(s, c); }
    void put(const std::u32string& s, bool c) override { p(s, c); }
    void put(const std::wstring& s, bool c) override { p(s, c); }
    void put(const std::string& s, bool c) override { p(s, c); }
    void one(char32_t c) override { st << c; }
    void ch(char c) override { st << c; }
    void boolean(bool b) override { st << b; }
    void integer(int type, u64 z, std::string& text) override {
        switch (type % 7) {
            case 0: { int v = pick_int<int>(z); text = std::to_string(v); st << v; break; }
            case 1: { long long v = pick_int<long long>(z); text = std::to_string(v); st << v; break; }
            case 2: { unsigned v = pick_int<unsigned>(z); text = std::to_string(v); st << v; break; }
            case 3: { short v = pick_int<short>(z); text = std::to_string(v); st << v; break; }
            case 4: { unsigned long long v = pick_int<unsigned long long>(z); text = std::to_string(v); st << v; break; }
            case 5: { signed char v = pick_int<signed char>(z); text = std::to_string((int) v); st << v; break; }
            default: { unsigned short v = pick_int<unsigned short>(z); text = std::to_string(v); st << v; break; }
        }
    }
    void number(int type, u64 z) override { with_number(type, z, [&](auto v) { st << v; }); }
    void flush() override { st << cmp::flush; }
    void form(int enc, bool big) override {
        out_face(st).set_encoding_form(ef(enc));
        out_face(st).set_endianness(en(big));
    }
};

template <class R> cmp::text_input_stream<R>& in_face(cmp::text_input_stream<R>& s) { return s; }
enum What { LINE, ALINE, TOKEN, ALL, AALL };
struct TIn {
    virtual ~TIn() = default;
    virtual void get(int what, std::u8string&) = 0;
    virtual void get(int what, std::u16string&) = 0;
    virtual void get(int what, std::u32string&) = 0;
    virtual void get(int what, std::wstring&) = 0;
    virtual void get(int what, std::string&) = 0;
    virtual char32_t one() = 0;
    virtual char32_t bom() = 0;
    virtual long long integer() = 0;
    virtual int small() = 0;
    virtual bool boolean() = 0;
    virtual double real() = 0;
    virtual long double number(int type) = 0;
    virtual bool end() = 0;
    virtual std::endian order() = 0;
    virtual void form(int enc, bool big) = 0;
};
template <class S> struct TInT : TIn {
    S st;
    template <class... A> explicit TInT(A&&... a) : st(std::forward<A>(a)...) {}
    template <class T> void g(int what, T& t) {
        switch (what) {
            case LINE: st.read_line(t); break;
            case ALINE: st.append_line(t); break;
            case TOKEN: st >> t; break;
            case ALL: st.read_all(t); break;
            default: st.append_all(t); break;
        }
    }
    void get(int w, std::u8string& t) override { g(w, t); }
    void get(int w, std::u16string& t) override { g(w, t); }
    void get(int w, std::u32string& t) override { g(w, t); }
    void get(int w, std::wstring& t) override { g(w, t); }
    void get(int w, std::string& t) override { g(w, t); }
    char32_t one() override { char32_t c = 0xBAD; st >> c; return c; }
    char32_t bom() override { return st.read_bom(); }
    long long integer() override { long long v = 0; st >> v; return v; }
    int small() override { int v = 0; st >> v; return v; }
    bool boolean() override { bool v = false; st >> v; return v; }
    double real() override { double v = 0; st >> v; return v; }
    long double number(int type) override {
        return with_number(type, 0, [&](auto v) -> long double { v = 0; st >> v; return (long double) v; });
    }
    bool end() override { return in_face(st).is_at_end(); }
    std::endian order() override { return in_face(st).get_endianness(); }
    void form(int enc, bool big) override {
        in_face(st).set_encoding_form(ef(enc));
        in_face(st).set_endianness(en(big));
    }
};

// binary values
constexpr int NTYPES = 18;
using Bits = unsigned __int128;
template <class F> void with_type(int t, F&& f) {
    switch (t % NTYPES) {
        case 0: f(char{}); break;
        case 1: f((signed char) 0); break;
        case 2: f((unsigned char) 0); break;
        case 3: f(short{}); break;
        case 4: f((unsigned short) 0); break;
        case 5: f(int{}); break;
        case 6: f(0u); break;
        case 7: f(0l); break;
        case 8: f(0ull); break;
        case 9: f(0.0f); break;
        case 10: f(0.0); break;
        case 11: f(char16_t{}); break;
        case 12: f(char32_t{}); break;
        case 13: f(char8_t{}); break;
        case 14: f(0ll); break;
        case 15: f(wchar_t{}); break;
        case 16: f(false); break;
        default: f(0.0L); break;
    }
}
struct DOut {
    virtual ~DOut() = default;
    virtual void put(int type, Bits bits) = 0;
    virtual void order(bool big) = 0;
};
template <class R> cmp::data_output_stream<R>& dout_face(cmp::data_output_stream<R>& s) { return s; }
template <class R> cmp::data_input_stream<R>& din_face(cmp::data_input_stream<R>& s) { return s; }
template <class S> struct DOutT : DOut {
    S st;
    void order(bool big) override { dout_face(st).set_endianness(en(big)); }
    template <class... A> explicit DOutT(A&&... a) : st(std::forward<A>(a)...) {}
    void put(int type, Bits bits) override {
        with_type(type, [&](auto v) { std::memcpy(&v, &bits, sizeof v); st << v; });
    }
};
struct DIn {
    virtual ~DIn() = default;
    virtual Bits get(int type, Bits initial) = 0;          // may throw; value in `last` in any case
    virtual std::size_t raw(std::byte* p, std::size_t n) = 0;
    virtual void order(bool big) = 0;
    Bits last = 0;
};
template <class S> struct DInT : DIn {
    S st;
    template <class... A> explicit DInT(A&&... a) : st(std::forward<A>(a)...) {}
    std::size_t raw(std::byte* p, std::size_t n) override { return st.read(p, n); }
    void order(bool big) override { din_face(st).set_endianness(en(big)); }
    Bits get(int type, Bits initial) override {
        last = 0;
        with_type(type, [&](auto v) {
            std::memcpy(&v, &initial, sizeof v);
            try { st >> v; } catch (...) {
                std::memcpy(&last, &v, sizeof v);
                throw;
            }
            std::memcpy(&last, &v, sizeof v);
        });
        return last;
    }
};
int size_of(int type) {
    int n = 0;
    with_type(type, [&](auto v) { n = (int) sizeof v; });
    return n;
}

// ------------------------------------------------------------------ resources
struct Chunks {
    Bytes src;
    std::size_t sent = 0;
    std::vector<i64> sizes;
    std::size_t k = 0;
};

struct World {
    std::unique_ptr<file> f;
    std::unique_ptr<U8IO> uio;
    std::unique_ptr<U8In> uin;
    std::unique_ptr<VOut> vout;
    std::unique_ptr<VIn> vin;
    std::vector<std::byte> vec;
    std::unique_ptr<Out1> so;
    std::unique_ptr<In0> si;
    std::unique_ptr<TOut> to;
    std::unique_ptr<TIn> ti;
    std::unique_ptr<DOut> dout;
    std::unique_ptr<DIn> din;
    int okind = -1, ikind = -1;
    int enc = 0;
    bool big = false, bom = false, filtered = true;
    Chunks ch;
    std::u32string text;             // what was written
    Bytes vals;                      // binary: what was written
    struct Value { int type; Bits bits; bool big; };
    std::vector<Value> values;
    bool obig = false, ibig = false; // binary: the order in force at either end
    struct Part { std::size_t from; int enc; bool big; };
    std::vector<Part> parts;         // text: where the form changes
    bool wrong = false;              // the reader starts with the other byte order
    Bytes device;                    // bytes on the device after output ended
    bool have_device = false;
    std::vector<const Step*> nums;   // C21: the values written
    bool inexact = false;            // C21: the text is not known digit by digit
    std::size_t ni = 0;
    std::vector<std::u32string> words;   // C22
    Units u;
    bool over = false;
    std::size_t vi = 0;              // binary: next value
    std::size_t consumed = 0;
};

struct TextScenario : Scenario {
    std::string prop;
    explicit TextScenario(std::string p) : prop{std::move(p)} {}

    static bool stdin_kind(int k) { return k == 4; }

    // ---- output side ---------------------------------------------------------
    void open_out(World& w, const Step& s) {          // out kind cap enc big bom
        w.okind = (int) s.arg(0) % 7;
        std::size_t cap = (std::size_t) s.arg(1);
        w.enc = (int) s.arg(2) % 3;
        w.big = s.arg(3) != 0;
        w.bom = s.arg(4) != 0;
        Op o(s);
        auto e = ef(w.enc);
        auto d = en(w.big);
        bool data = prop == "C11";
        w.obig = w.big;
        switch (w.okind) {
            case 0: case 1: case 5:
                w.f = std::make_unique<file>(PATH, w.okind == 0 ? cmp::write_only : cmp::read_and_write, cmp::if_not_there::create, cap);
                if (w.okind == 5) {
                    if (data) w.dout = std::make_unique<DOutT<cmp::data_io_stream<file>>>(*w.f, d);
                    else w.to = std::make_unique<TOutT<cmp::text_io_stream<file>>>(*w.f, e, d);
                } else if (data) w.dout = std::make_unique<DOutT<cmp::data_output_stream<file>>>(*w.f, d);
                else w.to = std::make_unique<TOutT<cmp::text_output_stream<file>>>(*w.f, e, d);
                break;
            case 2: case 6:
                w.uio = std::make_unique<U8IO>(cap);
                if (w.okind == 6) {
                    if (data) w.dout = std::make_unique<DOutT<cmp::data_io_stream<U8IO>>>(*w.uio, d);
                    else w.to = std::make_unique<TOutT<cmp::text_io_stream<U8IO>>>(*w.uio, e, d);
                } else if (data) w.dout = std::make_unique<DOutT<cmp::data_output_stream<U8IO>>>(*w.uio, d);
                else w.to = std::make_unique<TOutT<cmp::text_output_stream<U8IO>>>(*w.uio, e, d);
                break;
            case 3:
                w.vout = std::make_unique<VOut>(w.vec, cap);
                if (data) w.dout = std::make_unique<DOutT<cmp::data_output_stream<VOut>>>(*w.vout, d);
                else w.to = std::make_unique<TOutT<cmp::text_output_stream<VOut>>>(*w.vout, e, d);
                break;
            default:
                w.so = std::make_unique<Out1>(1, cap);
                if (data) w.dout = std::make_unique<DOutT<cmp::data_output_stream<Out1>>>(*w.so, d);
                else w.to = std::make_unique<TOutT<cmp::text_output_stream<Out1>>>(*w.so, e, d);
        }
        if (w.bom && w.to) w.to->bom();
    }

    void put(World& w, const Step& s) {               // put how seed len
        std::u32string t = gen_text((u64) s.arg(1), (std::size_t) s.arg(2), 2);
        int how = (int) s.arg(0) % 14;
        if (how >= 9) {                                // C strings end at a zero
            std::u32string z;
            for (char32_t c : t) if (c) z += c;
            t = z;
        }
        if (how == 4 || how == 12) {
            std::u32string z;
            for (char32_t c : t) z += c < 0x80 ? c : U'a' + c % 26;
            t = z;
        }
        std::string digits;
        if (how == 5 || how == 6) t.resize(t.empty() ? 0 : 1);
        if (how == 6 && !t.empty() && t[0] >= 0x80) t[0] = U'q';
        std::wstring ws(t.begin(), t.end());
        std::string as(t.begin(), t.end());
        std::u8string s8 = to8(t);
        std::u16string s16 = to16(t);
        {
            Op o(s);
            switch (how) {
                case 0: w.to->put(s8, false); break;
                case 1: w.to->put(s16, false); break;
                case 2: w.to->put(t, false); break;
                case 3: w.to->put(ws, false); break;
                case 4: w.to->put(as, false); break;
                case 5: if (!t.empty()) w.to->one(t[0]); break;
                case 6: if (!t.empty()) w.to->ch((char) t[0]); break;
                case 7: w.to->integer((int) s.arg(2), mix((u64) s.arg(1), 3), digits); break;
                case 8: w.to->boolean(s.arg(1) & 1); digits = s.arg(1) & 1 ? "1" : "0"; break;
                case 9: w.to->put(s8, true); break;
                case 10: w.to->put(s16, true); break;
                case 11: w.to->put(t, true); break;
                case 12: w.to->put(as, true); break;
                default: w.to->put(ws, true); break;
            }
        }
        if (how == 7 || how == 8) t.assign(digits.begin(), digits.end());
        w.text += t;
        ++stats.opcount["put_" + std::to_string(how)];
        if (K.alloc_failed || K.hard) fail("internal", "unexpected fault");
    }

    // a value that is no code point is refused by a UTF-8 stream, which writes nothing of it and goes on
    void badput(World& w, const Step& s) {            // badput which how
        if ((w.parts.empty() ? w.enc : w.parts.back().enc) != U8) return;
        static const char32_t bad[] = {0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xDABC, 0x110000, 0x110001, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0xFFFFFFFF, 0x80000041};
        char32_t c = bad[(std::size_t) s.arg(0) % (sizeof bad / sizeof *bad)];
        std::u32string t(1, c);
        t += U"after";
        std::wstring ws(t.begin(), t.end());
        bool refused = false;
        {
            Op o(s);
            try {
                switch (s.arg(1) % 3) {
                    case 0: w.to->one(c); break;
                    case 1: w.to->put(t, false); break;
                    default: w.to->put(ws, false); break;
                }
            }
            catch (const cmp::invalid_code_point&) { refused = true; }
            catch (const cmp::invalid_unicode_encoding&) { refused = true; }
        }
        if (!refused) fail("not-refused", "the value %lX was written as if it were a code point", (unsigned long) c);
        ++stats.opcount["badput"];
    }

    Bytes device_now(World& w) {
        switch (w.okind) {
            case 0: case 1: case 5: { auto n = K.lookup(PATH); return n ? n->data : Bytes{}; }
            case 2: case 6: { auto& c = w.uio->grab_content(); return Bytes(c.begin(), c.end()); }
            case 3: { Bytes b; for (auto x : w.vec) b.push_back((u8) x); return b; }
            default: return K.sink[0].data;
        }
    }
    Bytes expected(World& w) {
        if (prop == "C11") return w.vals;
        Bytes b;
        if (w.bom) encode(b, 0xFEFF, w.enc, w.big);
        int enc = w.enc;
        bool big = w.big;
        std::size_t k = 0;
        for (std::size_t i = 0; i < w.text.size(); ++i) {
            for (; k < w.parts.size() && w.parts[k].from <= i; ++k) { enc = w.parts[k].enc; big = w.parts[k].big; }
            encode(b, w.text[i], enc, big);
        }
        return b;
    }
    void change_form(World& w, const Step& s) {       // form enc big
        if (w.have_device) return;
        if (w.dout) {
            Op o(s);
            w.obig = s.arg(1) != 0;
            w.dout->order(w.obig);
        } else if (w.to) {
            Op o(s);
            w.parts.push_back({w.text.size(), (int) s.arg(0) % 3, s.arg(1) != 0});
            w.to->form(w.parts.back().enc, w.parts.back().big);
        }
    }
    void flush_out(World& w, const Step& s) {         // sflush
        if (!w.to || w.have_device) return;
        {
            Op o(s);
            w.to->flush();
        }
        if (w.inexact || K.hard) return;
        Bytes now = device_now(w), want = expected(w);
        if (now != want) fail("flush", "after a flush the device holds something else than was written: %s", diff(now, want).c_str());
    }
    void close_out(World& w, const Step& s) {         // done
        if (w.okind < 0 || w.have_device) return;
        bool io = w.okind >= 5;
        {
            Op o(s);
            if (io) {
                if (w.f) w.f->flush();
                else w.uio->flush();
            } else {
                w.to.reset();                          // the stream flushes
                w.dout.reset();
            }
        }
        if (K.hard) fail("internal", "unexpected fault");
        w.device = device_now(w);
        w.have_device = true;
        Bytes want = expected(w);
        if (w.inexact) w.inexact = false;
        else if (w.device != want)
            fail("encoding", "the device holds other bytes than the standard representation: %s", diff(w.device, want).c_str());
        if (!io) {
            Op o(s);
            w.f.reset();
            w.uio.reset();
            w.vout.reset();
            w.so.reset();
        }
    }

    // ---- input side ----------------------------------------------------------
    void open_in(World& w, const Step& s) {           // in kind cap wrongorder
        if (w.ikind >= 0 || !w.have_device) return;
        w.ikind = (int) s.arg(0) % 7;
        std::size_t cap = (std::size_t) s.arg(1);
        bool wrong = w.wrong = s.arg(2) != 0 && w.bom && w.enc != 0;
        auto e = ef(w.enc);
        auto d = en(wrong ? !w.big : w.big);
        bool data = prop == "C11";
        w.ibig = wrong ? !w.big : w.big;
        if (w.okind >= 5) {                            // the same object, from the start
            Op o(s);
            w.ikind = w.okind;
            w.to.reset();
            w.dout.reset();
            if (w.f) {
                if (data) { w.din = std::make_unique<DInT<cmp::data_io_stream<file>>>(*w.f, d); }
                else w.ti = std::make_unique<TInT<cmp::text_io_stream<file>>>(*w.f, e, d);
                w.f->set_position(0, cmp::position_reference::begin);
            } else {
                if (data) { w.din = std::make_unique<DInT<cmp::data_io_stream<U8IO>>>(*w.uio, d); }
                else w.ti = std::make_unique<TInT<cmp::text_io_stream<U8IO>>>(*w.uio, e, d);
                w.uio->set_position(0, cmp::position_reference::begin);
            }
            return;
        }
        if (w.ikind > 4) w.ikind -= 4;
        const Bytes& b = w.device;
        if (w.ikind < 2) K.create(PATH, b);
        std::u8string u8s(b.begin(), b.end());
        w.vec.clear();
        for (u8 x : b) w.vec.push_back((std::byte) x);
        if (w.ikind == 4) {
            w.ch.src = b;
            K.on_blocked = [&w]() -> int {
                if (w.ch.sent >= w.ch.src.size()) return 0;
                std::size_t n = w.ch.sizes.empty() ? 1 : (std::size_t) w.ch.sizes[w.ch.k++ % w.ch.sizes.size()];
                if (n < 1) n = 1;
                if (n > w.ch.src.size() - w.ch.sent) n = w.ch.src.size() - w.ch.sent;
                K.in_avail.insert(K.in_avail.end(), w.ch.src.begin() + (std::ptrdiff_t) w.ch.sent,
                                  w.ch.src.begin() + (std::ptrdiff_t) (w.ch.sent + n));
                w.ch.sent += n;
                ++K.run_events;
                ++stats.faults["chunk_delivered"];
                stats.sim_time_us += 1000;
                return 1;
            };
        }
        Op o(s);
        switch (w.ikind) {
            case 0: case 1:
                w.f = std::make_unique<file>(PATH, w.ikind ? cmp::read_and_write : cmp::read_only, cmp::if_not_there::fail, cap);
                if (data) w.din = std::make_unique<DInT<cmp::data_input_stream<file>>>(*w.f, d);
                else w.ti = std::make_unique<TInT<cmp::text_input_stream<file>>>(*w.f, e, d);
                break;
            case 2:
                w.uin = std::make_unique<U8In>(u8s, cap);
                if (data) w.din = std::make_unique<DInT<cmp::data_input_stream<U8In>>>(*w.uin, d);
                else w.ti = std::make_unique<TInT<cmp::text_input_stream<U8In>>>(*w.uin, e, d);
                break;
            case 3:
                w.vin = std::make_unique<VIn>(w.vec, cap);
                if (data) w.din = std::make_unique<DInT<cmp::data_input_stream<VIn>>>(*w.vin, d);
                else w.ti = std::make_unique<TInT<cmp::text_input_stream<VIn>>>(*w.vin, e, d);
                break;
            default:
                w.si = std::make_unique<In0>(cap);
                if (data) w.din = std::make_unique<DInT<cmp::data_input_stream<In0>>>(*w.si, d);
                else w.ti = std::make_unique<TInT<cmp::text_input_stream<In0>>>(*w.si, e, d);
        }
    }

    // any documented way of saying "this is not text"
    template <class F> bool guarded(F&& f, std::string& what) {
        try { f(); return true; }
        catch (const cmp::read_past_end&) { what = "read_past_end"; }
        catch (const cmp::invalid_unicode_encoding&) { what = "invalid_unicode_encoding"; }
        catch (const cmp::invalid_code_point&) { what = "invalid_code_point"; }
        return false;
    }

    // ---- C09: reading back ---------------------------------------------------
    void back(World& w, const Step& s) {              // back how type
        if (!w.ti || w.over) return;
        std::u32string want = w.text, got;
        int how = (int) s.arg(0) % 3;
        if (!w.parts.empty() && w.parts[0].from == 0 && how == 2) how = 0;
        bool use_bom = w.bom || (how == 2 && !want.empty() && want[0] != 0xFFFE);
        if (w.bom && w.enc == 0 && how == 1) use_bom = false;         // UTF-8: just another character
        std::string what;
        bool past = false;
        if (use_bom) {
            char32_t c = 0;
            bool ok;
            {
                Op o(s);
                ok = guarded([&] { c = w.ti->bom(); }, what);
            }
            if (!ok) fail("round-trip", "reading the byte order mark threw %s", what.c_str());
            if (w.bom) {
                if (c != 0xFEFF) fail("round-trip", "byte order mark read as %x", (unsigned) c);
                if (w.enc != 0 && w.ti->order() != en(w.big)) fail("bom-order", "byte order mark did not set the byte order");
            } else got += c;
        } else if (w.bom) want.insert(want.begin(), 0xFEFF);
        bool std_in = stdin_kind(w.ikind);
        if (s.arg(1) % 5 == 4 || !w.parts.empty()) {
            std::size_t k = 0, shift = want.size() - w.text.size();
            for (;;) {
                char32_t c = 0;
                bool ok;
                Step s2 = s;
                if (got.size() > 2) s2.f.clear();
                {
                    Op o(s2);
                    for (; k < w.parts.size() && w.parts[k].from + shift <= got.size(); ++k) w.ti->form(w.parts[k].enc, w.parts[k].big);
                    if (!std_in && w.ti->end()) break;
                    ok = guarded([&] { c = w.ti->one(); }, what);
                }
                if (!ok) { past = true; break; }
                got += c;
                if (got.size() > want.size() + 3) break;
            }
        } else {
            bool ok = true;
            auto go = [&](auto t) {
                {
                    Op o(s);
                    ok = guarded([&] { w.ti->get(ALL, t); }, what);
                }
                got += from(t);
            };
            switch (s.arg(1) % 5) {
                case 0: go(std::u8string{}); break;
                case 1: go(std::u16string{}); break;
                case 2: go(std::u32string{}); break;
                default: go(std::wstring{}); break;
            }
            past = !ok;
        }
        if (K.hard) fail("internal", "unexpected fault");
        if (past && !(std_in && what == "read_past_end"))
            fail("round-trip", "reading back %zu code points threw %s after %zu", want.size(), what.c_str(), got.size());
        if (got != want) {
            std::size_t i = 0;
            while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
            fail("round-trip", "code point %zu of %zu differs: read %s, written %s", i, want.size(),
                 show(got.substr(i)).c_str(), show(want.substr(i)).c_str());
        }
        w.over = true;
    }

    // ---- C10: damaged text -----------------------------------------------------
    // strict decoder: the well-formed prefix, whether it covers everything
    static std::u32string decode(const Bytes& b, int enc, bool big, bool& bad, bool& loose) {
        std::u32string o;
        std::size_t i = 0;
        bad = loose = false;
        auto unit = [&](std::size_t at, int n) {
            unsigned v = 0;
            for (int k = 0; k < n; ++k) v |= (unsigned) b[at + (std::size_t) k] << (8 * (big ? n - 1 - k : k));
            return v;
        };
        while (i < b.size()) {
            std::size_t left = b.size() - i;
            if (enc == U8) {
                unsigned c = b[i];
                int n = c < 0x80 ? 1 : c >= 0xC2 && c <= 0xDF ? 2 : c >> 4 == 14 ? 3 : c >= 0xF0 && c <= 0xF4 ? 4 : 0;
                if (n == 0 || left < (std::size_t) n) { bad = true; break; }
                char32_t v = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
                for (int k = 1; k < n && !bad; ++k) {
                    if (b[i + (std::size_t) k] >> 6 != 2) bad = true;
                    v = v << 6 | (b[i + (std::size_t) k] & 63);
                }
                if (bad || (n == 3 && v < 0x800) || (n == 4 && v < 0x10000) || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) { bad = true; break; }
                o += v;
                i += (std::size_t) n;
            } else if (enc == U16) {
                if (left < 2) { bad = true; break; }
                unsigned v = unit(i, 2);
                if (v >= 0xDC00 && v < 0xE000) { bad = true; break; }
                if (v >= 0xD800 && v < 0xDC00) {
                    if (left < 4) { bad = true; break; }
                    unsigned t = unit(i + 2, 2);
                    if (t < 0xDC00 || t >= 0xE000) { bad = true; break; }
                    o += (char32_t) (0x10000 + ((v - 0xD800) << 10) + (t - 0xDC00));
                    i += 4;
                } else { o += v; i += 2; }
            } else {
                if (left < 4) { bad = true; break; }
                char32_t v = unit(i, 4);
                if (v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) { loose = true; break; }   // UTF-32 is not validated
                o += v;
                i += 4;
            }
        }
        return o;
    }

    void make_damaged(World& w, const Step& s) {      // stored seed len style enc big
        w.enc = (int) s.arg(3) % 3;
        w.big = s.arg(4) != 0;
        w.text = gen_text((u64) s.arg(0), (std::size_t) s.arg(1), (int) s.arg(2));
        if (s.arg(5)) {
            w.text.insert(w.text.begin(), 0xFEFF);
            w.bom = true;
        }
        w.device = encode(w.text, w.enc, w.big);
        w.have_device = true;
    }
    void hurt(World& w, const Step& s) {              // cut k | flip at mask | ins at byte | drop at | bad at which
        Bytes& b = w.device;
        if (s.op == "cut") { if ((std::size_t) s.arg(0) < b.size()) b.resize((std::size_t) s.arg(0)); }
        else if (s.op == "flip") { if (!b.empty()) b[(std::size_t) s.arg(0) % b.size()] ^= (u8) s.arg(1); }
        else if (s.op == "ins") b.insert(b.begin() + (std::ptrdiff_t) ((std::size_t) s.arg(0) % (b.size() + 1)), (u8) s.arg(1));
        else if (s.op == "bad") {                     // a sequence at the edge of what is well-formed, after a code point
            static const std::vector<std::vector<u8>> edge8 = {
                {0xC0, 0x80}, {0xC1, 0xBF}, {0xE0, 0x80, 0x80}, {0xE0, 0x9F, 0xBF}, {0xF0, 0x80, 0x80, 0x80}, {0xF0, 0x8F, 0xBF, 0xBF},
                {0xED, 0xA0, 0x80}, {0xED, 0xAF, 0xBF}, {0xED, 0xB0, 0x80}, {0xED, 0xBF, 0xBF}, {0xF4, 0x90, 0x80, 0x80}, {0xF5, 0x80, 0x80, 0x80},
                {0xF7, 0xBF, 0xBF, 0xBF}, {0xF8, 0x88, 0x80, 0x80, 0x80}, {0xFC, 0x84, 0x80, 0x80, 0x80, 0x80}, {0xFE}, {0xFF}, {0x80}, {0xBF},
                {0xC2}, {0xDF}, {0xE1, 0x80}, {0xEF}, {0xF1, 0x80, 0x80}, {0xF1, 0x80}, {0xF4}, {0xC2, 0x7F}, {0xC2, 0xC0}, {0xE1, 0x80, 0xC0}, {0xE1, 0x7F, 0x80},
                {0xE1, 0x80, 0x7F}, {0xF1, 0x7F, 0x80, 0x80}, {0xF1, 0x80, 0xC0, 0x80}, {0xF1, 0x80, 0x80, 0xC0}, {0xF1, 0x80, 0x80, 0x00},
                {0xC2, 0x80}, {0xDF, 0xBF}, {0xE0, 0xA0, 0x80}, {0xED, 0x9F, 0xBF}, {0xEE, 0x80, 0x80}, {0xEF, 0xBF, 0xBF}, {0xF0, 0x90, 0x80, 0x80}, {0xF4, 0x8F, 0xBF, 0xBF}};
            static const std::vector<std::vector<unsigned>> edge16 = {
                {0xD800}, {0xDBFF}, {0xDC00}, {0xDFFF}, {0xDC00, 0xD800}, {0xDFFF, 0xDBFF}, {0xD800, 0xD800}, {0xD800, 0xDBFF}, {0xD800, 0xE000}, {0xDBFF, 0xE000},
                {0xD800, 0x0041}, {0xDBFF, 0xD7FF}, {0xDC00, 0xDC00}, {0xD800, 0xDC00}, {0xD800, 0xDFFF}, {0xDBFF, 0xDC00}, {0xDBFF, 0xDFFF}, {0xD7FF}, {0xE000}};
            std::size_t at = std::min(b.size(), encode(w.text.substr(0, (std::size_t) s.arg(0) % (w.text.size() + 1)), w.enc, w.big).size());
            Bytes x;
            if (w.enc == U8) { const auto& e = edge8[(std::size_t) s.arg(1) % edge8.size()]; x.assign(e.begin(), e.end()); }
            else if (w.enc == U16) for (unsigned v : edge16[(std::size_t) s.arg(1) % edge16.size()]) { x.push_back((u8) (w.big ? v >> 8 : v)); x.push_back((u8) (w.big ? v : v >> 8)); }
            b.insert(b.begin() + (std::ptrdiff_t) at, x.begin(), x.end());
        }
        else if (s.op == "drop" && !b.empty()) b.erase(b.begin() + (std::ptrdiff_t) ((std::size_t) s.arg(0) % b.size()));
        ++K.run_events;
        ++stats.faults["text_" + s.op];
        K.shape = mix(K.shape, 77);
        K.mixv((u64) s.arg(0));
    }
    void damaged_read(World& w, const Step& s) {      // scan how type
        if (!w.ti || w.over) return;
        w.over = true;
        bool bad, loose;
        bool big = w.wrong ? !w.big : w.big, mark = s.arg(3) != 0;
        if (mark && w.enc != U8) {        // a byte order mark decides the order of what follows
            const Bytes& b = w.device;
            auto is = [&](std::initializer_list<u8> l) { return b.size() >= l.size() && std::equal(l.begin(), l.end(), b.begin()); };
            if (w.enc == U16 ? is({0xFE, 0xFF}) : is({0, 0, 0xFE, 0xFF})) big = true;
            else if (w.enc == U16 ? is({0xFF, 0xFE}) : is({0xFF, 0xFE, 0, 0})) big = false;
        }
        std::u32string raw = decode(w.device, w.enc, big, bad, loose);
        bool free_cr = mark && !raw.empty() && raw[0] == U'\r';
        for (std::size_t i = 0; i < raw.size(); ++i)
            if (raw[i] == U'\r' && !(i + 1 < raw.size() && raw[i + 1] == U'\n')) free_cr = true;
        Units u(raw, w.enc, w.big);
        std::u32string want(u.cp.begin(), u.cp.end()), got;
        bool std_in = stdin_kind(w.ikind);
        std::string what;
        bool ended = false, threw = false;
        int how = (int) s.arg(0) % 5;
        bool hard = false;
        if (mark) {
            char32_t c = 0;
            bool ok;
            {
                Op o(s);
                ok = guarded([&] { c = w.ti->bom(); }, what);
            }
            hard |= K.hard;
            if (ok) got += c;
            else {
                threw = true;
                if (w.device.empty()) bad = true;      // there is nothing that could be returned
                if (what != "read_past_end") probe("first_unit_refused");
                else if (!w.device.empty()) probe("first_unit_cut");
            }
        }
        std::u32string first = got;
        auto bounded = [&](auto t, int op) {
            // repeated line/token/all extraction; what was extracted is compared as one text
            for (int n = 0; n < 20000 && !ended && !threw; ++n) {
                Step s2 = s;
                if (n) s2.f.clear();
                bool ok;
                {
                    Op o(s2);
                    if (!std_in && w.ti->end()) { ended = true; break; }
                    ok = guarded([&] { w.ti->get(op, t); }, what);
                }
                hard |= K.hard;
                std::u32string g = from(t);
                if (op == ALL || op == AALL) { got = first + g; if (ok) ended = true; }
                else { got += g; if (ok) got += U'\n'; }
                if (!ok) threw = true;
            }
        };
        if (how == 0) {
            for (int n = 0; n < 20000 && !threw; ++n) {
                Step s2 = s;
                if (n != (int) s.arg(2)) s2.f.clear();
                char32_t c = 0;
                bool ok;
                {
                    Op o(s2);
                    if (!std_in && w.ti->end()) { ended = true; break; }
                    ok = guarded([&] { c = w.ti->one(); }, what);
                }
                hard |= K.hard;
                if (!ok) { threw = true; break; }
                got += c;
            }
        } else {
            int op = how == 1 ? LINE : how == 2 ? ALL : how == 3 ? TOKEN : AALL;
            switch (s.arg(1) % 4) {
                case 0: bounded(std::u8string{}, op); break;
                case 1: bounded(std::u16string{}, op); break;
                case 2: bounded(std::u32string{}, op); break;
                default: bounded(std::wstring{}, op); break;
            }
            if (op == TOKEN) {          // compare with white space removed
                std::u32string a, b;
                for (char32_t c : got) if (!white(c)) a += c;
                for (char32_t c : want) if (!white(c)) b += c;
                got = a;
                want = b;
            }
            if (op == LINE && ended && !got.empty() && got.back() == U'\n' && (want.empty() || want.back() != U'\n')) got.pop_back();
        }
        if (!ended && !threw) fail("no-end", "reading does not come to an end");
        K.shape = mix(K.shape, (u64) threw * 2 + bad);
        if (threw) probe(what.c_str());
        if (!free_cr && !loose) {
            std::size_t n = got.size() < want.size() ? got.size() : want.size();
            if (got.substr(0, n) != want.substr(0, n) || got.size() > want.size() || (!hard && got.size() < want.size()))
                fail("intact-prefix", "read %s but the intact text is %s", show(got).c_str(), show(want).c_str());
            if (!hard) {
                if (bad && !threw) fail("damage-unreported", "the end of the intact prefix was not reported by an exception");
                if (!bad && threw && !(std_in && what == "read_past_end"))
                    fail("false-error", "intact text was reported as %s", what.c_str());
            }
        }
        // further reading must stay safe and come to an end
        for (int n = 0; n < 600; ++n) {
            Step s2 = s;
            s2.f.clear();
            std::u8string t;
            Op o(s2);
            if (w.ti->end()) break;
            guarded([&] { w.ti->get(n & 1 ? LINE : TOKEN, t); }, what);
            if (std_in && what == "read_past_end" && n > 3) break;
        }
    }

    // ---- C11 ------------------------------------------------------------------
    static Bits value_bits(i64 seed, int type) {
        Bits v = mix((u64) seed, 99);
        if (seed % 5 == 0) v = 0;
        if (seed % 5 == 1) v = ~(Bits) 0;
        int n = size_of(type);
        if (n < 16) v &= ((Bits) 1 << (8 * n)) - 1;
        int t = type % NTYPES;
        if (t == 9) v = (v & 0x7fffff) | 0x3f000000;           // ordinary numbers: NaNs may be canonicalised
        if (t == 10) v = (v & 0xfffffffffffffull) | 0x3ff0000000000000ull;
        if (t == 16) v &= 1;
        if (t == 17) v = (Bits) (mix((u64) seed, 98) | 1ull << 63) | (Bits) (0x3fff + seed % 100 + (seed % 2 ? 0x8000 : 0)) << 64;
        return v;
    }
    // raw n: the bytes themselves, through the stream
    void raw_value(World& w, const Step& s) {
        if (!w.din || w.over) return;
        std::size_t n = 1 + (std::size_t) s.arg(0) % 24, left = w.device.size() - std::min(w.consumed, w.device.size());
        std::size_t want = n < left ? n : left, got;
        Bytes b(n, 0xA7);
        for (std::size_t i = 0; i < n; ++i) b[i] = (u8) (0xA0 + i);
        {
            Op o(s);
            got = w.din->raw(reinterpret_cast<std::byte*>(b.data()), n);
        }
        w.over = true;
        if (got > want || (!K.hard && got != want)) fail("raw-count", "%zu bytes read, %zu were there", got, want);
        for (std::size_t i = 0; i < n; ++i) {
            u8 e = i >= got ? (u8) (0xA0 + i) : w.ibig ? w.device[w.consumed + got - 1 - i] : w.device[w.consumed + i];
            if (b[i] != e) fail(i < got ? "raw-data" : "target-touched", "byte %zu of a %zu byte read (%zu read) is %02x, expected %02x", i, n, got, b[i], e);
        }
        if (got < n && got > 0) probe("raw_short");
    }
    void put_value(World& w, const Step& s) {         // val type seed
        int type = (int) s.arg(0) % NTYPES;
        Bits v = value_bits(s.arg(1), type);
        if (w.dout) {
            Op o(s);
            w.dout->put(type, v);
        } else return;
        int n = size_of(type);
        for (int i = 0; i < n; ++i) w.vals.push_back((u8) (v >> (8 * (w.obig ? n - 1 - i : i))));
        w.values.push_back({type, v, w.obig});
    }
    void get_value(World& w, const Step& s) {         // get
        if (!w.din || w.over || w.vi >= w.values.size() + 1) return;
        int type = w.vi < w.values.size() ? w.values[w.vi].type : (int) s.arg(0) % NTYPES;
        if (w.vi < w.values.size() && w.values[w.vi].big != w.ibig) {
            Op o(s);
            w.din->order(w.ibig = !w.ibig);
        }
        std::size_t n = (std::size_t) size_of(type);
        Bits init = (Bits) 0x1122334455667788ull;
        if (type % NTYPES == 9) init = 0x3f123456;
        if (type == 16) init = 1;
        if (type == 17) init = (Bits) 0xc000000000000000ull | (Bits) 0x4000 << 64;
        if (n < 16) init &= ((Bits) 1 << (8 * n)) - 1;
        bool threw = false;
        {
            Op o(s);
            try { w.din->get(type, init); } catch (const cmp::read_past_end&) { threw = true; }
        }
        bool hard = K.hard;
        Bits got = w.din->last;
        K.mixv((u64) got);
        K.mixv((u64) (got >> 64));
        bool avail = w.consumed + n <= w.device.size();
        if (threw && avail && !hard) fail("past-end", "value %zu is there but reading it reports the end", w.vi);
        if (!threw && !avail) fail("past-end", "value %zu is cut off but was read as %llx", w.vi, (unsigned long long) got);
        if (threw) {
            if (got != init) fail("target-touched", "a failed read changed the target variable to %llx", (unsigned long long) got);
            probe(hard ? "value_device_error" : "value_cut_off");
            w.over = true;
            return;
        }
        Bits want = 0;
        for (std::size_t i = 0; i < n; ++i) want |= (Bits) w.device[w.consumed + i] << (8 * (w.ibig ? n - 1 - i : i));
        if (got != want)
            fail("value", "value %zu (%zu bytes) read as %llx, the device holds %llx", w.vi, n, (unsigned long long) got, (unsigned long long) want);
        w.consumed += n;
        ++w.vi;
    }

    // ---- C21 ------------------------------------------------------------------
    // num type seed sep          the value itself
    // fnum type seed sep f       a string made with a format
    struct Format {
        unsigned radix, places;
        cmp::sign_status sign;
        cmp::thousands_separator sep;
        cmp::radix_character point;
        cmp::radix_place_limit limit;
        std::u8string yes, no;
        explicit Format(u64 f) {
            u64 z = mix(f, 17);
            radix = z % 3 == 0 ? 10 : 2 + (unsigned) (z >> 8) % 35;
            sign = z >> 16 & 1 ? cmp::sign_status::always_show : cmp::sign_status::only_when_negative;
            sep = z >> 17 & 1 ? cmp::thousands_separator::none : z >> 18 & 1 ? cmp::thousands_separator::comma : cmp::thousands_separator::period;
            point = z >> 19 & 1 ? cmp::radix_character::comma : cmp::radix_character::period;
            limit = z >> 20 & 1 ? cmp::radix_place_limit::none : z >> 21 & 1 ? cmp::radix_place_limit::exactly_equal : cmp::radix_place_limit::up_to;
            places = 1 + (unsigned) (z >> 24) % 6;
            static const char8_t* const b[][2] = {{u8"1", u8"0"}, {u8"true", u8"false"}, {u8"wahr", u8"falsch"}, {u8"\u2713", u8"\u2717"},
                {u8"\U0001F44D", u8"\U0001F44E"}, {u8"a", u8"aa"}, {u8"0", u8"1"}};
            set = z >> 40 & 1;
            yes = b[(z >> 32) % 7][0];
            no = b[(z >> 32) % 7][1];
        }
        bool set = false;              // made by changing another format
        cmp::integer_format ints() const {
            if (!set) return {radix, sign, sep};
            cmp::integer_format f;
            f.set_radix(radix);
            f.set_sign_status(sign);
            f.set_thousands_separator(sep);
            return f;
        }
        cmp::floating_point_format reals() const {
            if (!set) return {radix, sign, cmp::thousands_separator::none, point, limit, places};
            cmp::floating_point_format f{7, cmp::sign_status::always_show, cmp::thousands_separator::comma, cmp::radix_character::comma, cmp::radix_place_limit::up_to, 2};
            f.set_radix(radix);
            f.set_sign_status(sign);
            f.set_thousands_separator(cmp::thousands_separator::none);
            f.set_radix_character(point);
            f.set_radix_place_limit(limit);
            f.set_radix_place_count(places);
            return f;
        }
        cmp::bool_format bools() const {
            if (!set) return {yes, no};
            cmp::bool_format f;
            f.set_true_string(yes);
            f.set_false_string(no);
            return f;
        }
    };
    // what an integer looks like
    template <class T> static std::string digits(T v, const Format& f) {
        bool neg = v < 0;
        u64 m = neg ? 0 - (u64) (i64) v : (u64) v;
        std::string s;
        if (m == 0) return "0";
        for (int k = 0; m; ++k, m /= f.radix) {
            if (k && k % 3 == 0 && f.sep != cmp::thousands_separator::none) s += f.sep == cmp::thousands_separator::comma ? ',' : '.';
            s += "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[m % f.radix];
        }
        if (neg) s += '-';
        else if (f.sign == cmp::sign_status::always_show) s += '+';
        return std::string(s.rbegin(), s.rend());
    }
    static char32_t blank(i64 k) { static const char32_t w[] = {U' ', U'\n', U'\t', U' ', U'\u00A0', U'\u2003', U'\u3000', U'\n'}; return w[k & 7]; }
    template <class Str> static Str formatted(int type, u64 z, const Format& f) {
        return with_number(type, z, [&](auto v) -> Str {
            using T = decltype(v);
            if constexpr (std::is_same_v<T, bool>) return cmp::format_bool<Str>(v, f.bools());
            else if constexpr (std::is_integral_v<T>) return cmp::format_integer<Str>(v, f.ints());
            else {
                Str t = cmp::format_floating_point<Str>(v, f.reals());
                Pause pz;
                std::u32string u = from(t);
                std::size_t at = u.find(f.point == cmp::radix_character::comma ? U',' : U'.');
                std::size_t n = at == std::u32string::npos ? 0 : u.size() - at - 1;
                if (std::floor(v) == v) { if (at != std::u32string::npos) n = f.places; }
                else if (f.limit == cmp::radix_place_limit::exactly_equal && n != f.places)
                    fail("places", "a fraction in a format of exactly %u places is written as %s", f.places, show(u).c_str());
                if (f.limit != cmp::radix_place_limit::none && n > f.places)
                    fail("places", "a fraction in a format of at most %u places is written as %s", f.places, show(u).c_str());
                return t;
            }
        });
    }
    void put_number(World& w, const Step& s) {
        int type = (int) s.arg(0) % NUMS;
        u64 z = (u64) s.arg(1);
        bool fmt = s.op == "fnum";
        Format f((u64) s.arg(3));
        {
            Op o(s);
            if (!fmt) w.to->number(type, z);
            else switch (s.arg(3) % 4) {
                case 0: w.to->put(formatted<std::u8string>(type, z, f), false); break;
                case 1: w.to->put(formatted<std::u16string>(type, z, f), false); break;
                case 2: w.to->put(formatted<std::u32string>(type, z, f), false); break;
                default: w.to->put(formatted<std::wstring>(type, z, f), false); break;
            }
            w.to->one(blank(s.arg(2)));
        }
        w.nums.push_back(&s);
        if (type >= 11) w.inexact = true;
        else if (type == 10) {
            if (fmt) { for (char32_t c : from(z & 1 ? f.yes : f.no)) w.text += c; }
            else w.text += z & 1 ? U'1' : U'0';
        } else {
            Format plain(0);
            plain.radix = 10;
            plain.sign = cmp::sign_status::only_when_negative;
            plain.sep = cmp::thousands_separator::none;
            std::string d = with_number(type, z, [&](auto v) -> std::string {
                if constexpr (std::is_integral_v<decltype(v)>) return digits(v, fmt ? f : plain);
                else return {};
            });
            w.text.append(d.begin(), d.end());
        }
        w.text += blank(s.arg(2));
    }
    void get_number(World& w, const Step& s) {        // back
        if (!w.ti || w.ni >= w.nums.size()) return;
        const Step& q = *w.nums[w.ni];
        int type = (int) q.arg(0) % NUMS;
        u64 z = (u64) q.arg(1);
        bool fmt = q.op == "fnum";
        Format f((u64) q.arg(3));
        if (w.bom && w.ni == 0) {
            Op o(s);
            w.ti->bom();
        }
        long double v = 0;
        {
            Op o(s);
            try {
                if (!fmt) v = w.ti->number(type);
                else {
                    auto go = [&](auto t) {
                        w.ti->get(TOKEN, t);
                        with_number(type, 0, [&](auto x) {
                            using T = decltype(x);
                            if constexpr (std::is_same_v<T, bool>) x = cmp::parse_bool(t, f.bools());
                            else if constexpr (std::is_integral_v<T>) x = cmp::parse_integer<T>(t, f.ints());
                            else x = cmp::parse_floating_point<T>(t, f.reals());
                            v = (long double) x;
                        });
                    };
                    switch (s.arg(0) % 4) {
                        case 0: go(std::u8string{}); break;
                        case 1: go(std::u16string{}); break;
                        case 2: go(std::u32string{}); break;
                        default: go(std::wstring{}); break;
                    }
                }
            }
            catch (const cmp::parse_failed& e) { fail("number-refused", "value %zu (type %d) cannot be read back: %s", w.ni, type, e.what()); }
            catch (const cmp::read_past_end&) { fail("number-lost", "value %zu (type %d) is reported as not there", w.ni, type); }
        }
        long double want = with_number(type, z, [](auto x) -> long double { return (long double) x; });
        long double tol = 0, eps = type == 11 ? 1.2e-7L : type == 12 ? 2.3e-16L : 1.1e-19L;
        if (type >= 11) {
            tol = 64 * eps * (std::fabs(want) < 1 ? 1 : std::fabs(want));
            if (fmt && f.limit != cmp::radix_place_limit::none) tol += std::pow((long double) f.radix, -(long double) f.places);
            if (std::floor(want) != want) probe(want < 0 ? "negative_fraction" : "fraction");
        }
        if (!(std::fabs(v - want) <= tol)) fail("number", "value %zu (type %d) was written as %.20Lg and is read back as %.20Lg", w.ni, type, want, v);
        ++w.ni;
        if (w.ni == w.nums.size()) probe("all_read");
    }

    // ---- C22 ------------------------------------------------------------------
    // word type format value edits blank      a word of the text; format 0: the plain one
    // lay enc big bom                         the text is on the device
    // rword how                               the next word is read as a value of its type
    enum Verdict { VALUE, REFUSE, FREE };
    static int digit_of(char32_t c, unsigned radix) {
        int d = c >= U'0' && c <= U'9' ? (int) (c - U'0') : c >= U'A' && c <= U'Z' ? (int) (c - U'A') + 10 : c >= U'a' && c <= U'z' ? (int) (c - U'a') + 10 : 99;
        return d < (int) radix ? d : -1;
    }
    // the strict reading of an integer with this format
    static Verdict read_int(const std::u32string& t, const Format& f, bool grouped, bool sgn, unsigned __int128 limit, bool& neg, unsigned __int128& m) {
        std::size_t i = 0;
        neg = false;
        m = 0;
        bool sign = false;
        if (!t.empty() && (t[0] == U'-' || t[0] == U'+')) {
            if (t[0] == U'+' && f.sign != cmp::sign_status::always_show) return REFUSE;
            neg = t[0] == U'-';
            sign = true;
            i = 1;
        }
        if (i == t.size()) return REFUSE;
        char32_t sc = !grouped || f.sep == cmp::thousands_separator::none ? 0x110000 : f.sep == cmp::thousands_separator::comma ? U',' : U'.';
        std::size_t len = 0, groups = 0;
        bool big = false;
        for (; i <= t.size(); ++i) {
            if (i == t.size() || t[i] == sc) {
                if (sc != 0x110000 && (len == 0 || len > 3 || (groups && len != 3))) return REFUSE;
                ++groups;
                len = 0;
                continue;
            }
            int d = digit_of(t[i], f.radix);
            if (d < 0) return REFUSE;
            ++len;
            if (m > (unsigned __int128) 1 << 80) big = true;
            else m = m * f.radix + (unsigned) d;
        }
        if (neg && !sgn) return m == 0 && !big ? FREE : REFUSE;
        if (big || m > limit + (neg ? 1 : 0)) return FREE;                 // does not fit: not promised
        if (f.sign == cmp::sign_status::always_show && sign == (m == 0)) return FREE;
        return VALUE;
    }
    static Verdict classify(const std::u32string& t, int type, const Format& f, long double& v) {
        v = 0;
        if (type == 10) {
            if (t == from(f.yes)) { v = 1; return VALUE; }
            return t == from(f.no) ? VALUE : REFUSE;
        }
        bool neg;
        unsigned __int128 m;
        if (type < 10) {
            unsigned __int128 limit = 0;
            bool sgn = false;
            with_number(type, 0, [&](auto x) {
                using T = decltype(x);
                if constexpr (std::is_integral_v<T>) {
                    limit = (unsigned __int128) std::numeric_limits<T>::max();
                    sgn = std::is_signed_v<T>;
                }
            });
            Verdict k = read_int(t, f, true, sgn, limit, neg, m);
            v = neg ? -(long double) m : (long double) m;
            return k;
        }
        std::size_t at = t.find(f.point == cmp::radix_character::comma ? U',' : U'.');
        std::u32string head = t.substr(0, at), tail = at == std::u32string::npos ? std::u32string{} : t.substr(at + 1);
        Verdict k = at == 0 || (at == 1 && (t[0] == U'-' || t[0] == U'+')) ? FREE
            : read_int(head, f, false, true, (unsigned __int128) std::numeric_limits<long long>::max(), neg, m);
        if (k == REFUSE) return k;
        long double w = 1, a = k == VALUE ? (long double) m : 0;
        for (char32_t c : tail) {
            int d = digit_of(c, f.radix);
            if (d < 0) return REFUSE;
            w /= f.radix;
            a += d * w;
        }
        if (k == FREE || (at != std::u32string::npos && tail.empty())) return FREE;
        if (at != std::u32string::npos && f.limit != cmp::radix_place_limit::none && tail.size() != f.places) return FREE;
        v = neg ? -a : a;
        return VALUE;
    }
    static Format format_of(i64 f) {
        Format x((u64) f);
        if (f == 0) {
            x.radix = 10;
            x.sign = cmp::sign_status::only_when_negative;
            x.sep = cmp::thousands_separator::none;
            x.point = cmp::radix_character::period;
            x.limit = cmp::radix_place_limit::none;
            x.yes = u8"1";
            x.no = u8"0";
        }
        return x;
    }
    static std::u32string make_word(int type, const Format& f, u64 z, u64 edits) {
        Rng r(z * 31 + 7);
        r.next();
        std::u32string t;
        auto digit = [&] {
            unsigned d = (unsigned) r.below(f.radix);
            if (d > 9 && r.chance(1, 2)) return (char32_t) (U'a' + d - 10);
            return (char32_t) "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[d];
        };
        if (type == 10) t = from(r.chance(1, 2) ? f.yes : f.no);
        else {
            u64 bits = (u64) (type < 10 ? with_number(type, 0, [](auto x) { return (int) sizeof x * 8; }) : 40);
            if (bits > 62) bits = 62;
            u64 n = r.next() >> (64 - (1 + r.below(bits)));
            bool neg = r.chance(1, 3);
            if (type < 10 && with_number(type, 0, [](auto x) { return !std::is_signed_v<decltype(x)>; })) neg = r.chance(1, 12);
            Format g = f;
            if (type > 10) g.sep = cmp::thousands_separator::none;
            std::string d = digits((i64) (neg ? -(i64) (n >> 1) : (i64) (n >> 1)), g);
            for (char c : d) t += (char32_t) (c >= 'A' && r.chance(1, 2) ? c - 'A' + 'a' : c);
            if (type > 10 && r.chance(3, 4)) {
                t += f.point == cmp::radix_character::comma ? U',' : U'.';
                for (unsigned k = f.limit == cmp::radix_place_limit::none ? 1 + (unsigned) r.below(8) : f.places; k; --k) t += digit();
            }
        }
        if (type != 10 && z % 40 == 39 && (type > 10 || f.sep == cmp::thousands_separator::none))      // leading zeros
            t.insert(t.begin() + (t[0] == U'-' || t[0] == U'+'), 1 + (std::size_t) r.below(r.chance(1, 2) ? 12 : 600), U'0');
        Rng e(edits * 13 + 3);
        e.next();
        static const char32_t odd[] = {U'+', U'-', U'+', U'-', U'.', U',', U'.', U',', U'_', U'x', U'\'', U'e', U'E', U'/', U':', U'@', U'[', U'`', U'{', 0, 1, 0x7F,
            0xFF11, 0x661, 0x2212, 0xB2, 0xE9, 0x1F600, 0x1D7CE, 0x130, 0x100 + '1', 0x10030, 0x12D};
        for (u64 k = edits % 4; k; --k) {
            std::size_t at = (std::size_t) e.below(t.size() + 1);
            if (e.chance(1, 3)) at = e.chance(1, 2) ? 0 : t.size();
            char32_t c;
            switch (e.below(4)) {
                case 0: c = digit(); break;
                case 1: c = (char32_t) "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ["[f.radix]; break;          // one too many
                default: c = odd[e.below(sizeof odd / sizeof *odd)];
            }
            switch (e.below(3)) {
                case 0: t.insert(t.begin() + (std::ptrdiff_t) at, c); break;
                case 1: if (at < t.size()) t[at] = c; break;
                default: if (at < t.size()) t.erase(t.begin() + (std::ptrdiff_t) at); break;
            }
        }
        if (t.empty()) t = U"-";
        return t;
    }
    void add_word(World& w, const Step& s) {
        if (w.have_device) return;
        int type = (int) s.arg(0) % NUMS;
        w.words.push_back(make_word(type, format_of(s.arg(1)), (u64) s.arg(2), (u64) s.arg(3)));
        w.nums.push_back(&s);
        w.text += w.words.back();
        w.text += blank(s.arg(4));
    }
    void lay(World& w, const Step& s) {
        if (w.have_device) return;
        w.enc = (int) s.arg(0) % 3;
        w.big = s.arg(1) != 0;
        w.bom = s.arg(2) != 0;
        w.device = encode((w.bom ? U"\uFEFF" : U"") + w.text, w.enc, w.big);
        w.have_device = true;
    }
    void read_word(World& w, const Step& s) {
        if (!w.ti || w.over) return;
        if (w.bom && w.ni == 0) {
            Op o(s);
            w.ti->bom();
        }
        bool none = w.ni >= w.nums.size();
        int type = none ? (int) s.arg(0) % NUMS : (int) w.nums[w.ni]->arg(0) % NUMS;
        i64 fm = none ? 0 : w.nums[w.ni]->arg(1);
        Format f = format_of(fm);
        std::u32string word = none ? std::u32string{} : w.words[w.ni];
        long double v = 0;
        bool refused = false, past = false;
        int how = (int) s.arg(0) % 15;
        if (how % 5 == 4 && !is_ascii(word)) --how;
        bool cstr = how / 5 == 1 && word.find(U'\0') == std::u32string::npos;
        {
            Op o(s);
            try {
                if (fm == 0) v = w.ti->number(type);
                else {
                    auto parse = [&](const auto& t) {
                        with_number(type, 0, [&](auto x) {
                            using T = decltype(x);
                            if constexpr (std::is_same_v<T, bool>) x = cmp::parse_bool(t, f.bools());
                            else if constexpr (std::is_integral_v<T>) x = cmp::parse_integer<T>(t, f.ints());
                            else x = cmp::parse_floating_point<T>(t, f.reals());
                            v = (long double) x;
                        });
                    };
                    auto go = [&](auto t) {
                        w.ti->get(TOKEN, t);
                        if (cstr) parse(t.c_str());
                        else if (how / 5 == 2) parse(std::basic_string_view<typename decltype(t)::value_type>(t));
                        else parse(t);
                    };
                    switch (how % 5) {
                        case 0: go(std::u8string{}); break;
                        case 1: go(std::u16string{}); break;
                        case 2: go(std::u32string{}); break;
                        case 3: go(std::wstring{}); break;
                        default: go(std::string{}); break;
                    }
                }
            }
            catch (const cmp::parse_failed&) { refused = true; }
            catch (const cmp::read_past_end&) { past = true; }
        }
        if (none) {
            if (!refused && !past) fail("invented", "a value of type %d was read where the text had ended", type);
            probe("no_word_left");
            w.over = true;
            return;
        }
        long double want;
        Verdict k = classify(word, type, f, want);
        K.shape = mix(K.shape, (u64) k * 2 + refused);
        if (past) fail("word-lost", "word %zu (%s) is reported as not there", w.ni, show(word).c_str());
        if (k == REFUSE && !refused)
            fail("accepted", "word %zu (%s) is no value of type %d in its format but was read as %.20Lg", w.ni, show(word).c_str(), type, v);
        if (k == VALUE) {
            if (refused) fail("refused", "word %zu (%s) is a value of type %d in its format but was refused", w.ni, show(word).c_str(), type);
            long double tol = type < 11 ? 0 : 64 * (type == 11 ? 1.2e-7L : type == 12 ? 2.3e-16L : 1.1e-19L) * (std::fabs(want) < 1 ? 1 : std::fabs(want));
            if (!(std::fabs(v - want) <= tol)) fail("misread", "word %zu (%s) of type %d was read as %.20Lg", w.ni, show(word).c_str(), type, v);
        }
        probe(k == REFUSE ? "word_refused" : k == VALUE ? "word_value" : "word_free");
        ++w.ni;
    }

    // ---- C12 ------------------------------------------------------------------
    void extract(World& w, const Step& s) {
        if (!w.ti || w.over) return;
        std::string op = s.op;
        bool std_in = stdin_kind(w.ikind);
        std::size_t to = w.u.at;
        bool open = false;
        std::u32string want;
        if (op == "end") {
            if (std_in) return;
            bool e;
            { Op o(s); e = w.ti->end(); }
            if (e != w.u.done()) fail("at-end", "end query says %d with %zu of %zu units read", (int) e, w.u.at, w.u.cp.size());
            return;
        }
        if (op == "num" || op == "bool" || op == "dbl" || op == "int") {
            want = w.u.token(to, open);
            bool fit = op == "bool" ? want == U"1" || want == U"0" : is_int(want);
            if (!fit || (std_in && open)) op = "token";
        }
        if (op == "char") {
            bool none = w.u.done();
            char32_t c = 0;
            bool ok;
            std::string what;
            { Op o(s); ok = guarded([&] { c = w.ti->one(); }, what); }
            if (ok == none) fail("char", "reading a character %s", none ? "invented one" : ("threw " + what).c_str());
            if (!ok) { w.over = true; return; }
            if (c != w.u.cp[w.u.at]) fail("char", "character read as %x, expected %x", (unsigned) c, (unsigned) w.u.cp[w.u.at]);
            ++w.u.at;
            return;
        }
        if (op == "num" || op == "int" || op == "dbl") {
            long long v;
            { Op o(s); v = op == "num" ? w.ti->integer() : op == "int" ? w.ti->small() : (long long) w.ti->real(); }
            if (v != int_value(want)) fail("number", "number read as %lld, expected %s", v, show(want).c_str());
            w.u.at = to;
            return;
        }
        if (op == "bool") {
            bool v;
            { Op o(s); v = w.ti->boolean(); }
            if (v != (want == U"1")) fail("number", "boolean read as %d, expected %s", (int) v, show(want).c_str());
            w.u.at = to;
            return;
        }
        int what = LINE;
        if (op == "line") { want = w.u.line(to, open); }
        else if (op == "aline") { what = ALINE; want = w.u.line(to, open); }
        else if (op == "token") { what = TOKEN; want = w.u.token(to, open); }
        else if (op == "all") { what = ALL; want = w.u.rest(to); open = true; }
        else if (op == "aall") { what = AALL; want = w.u.rest(to); open = true; }
        else return;
        bool app = what == ALINE || what == AALL;
        auto go = [&](auto t) {
            t.push_back((typename decltype(t)::value_type) 'K');
            bool ok;
            std::string ex;
            { Op o(s); ok = guarded([&] { w.ti->get(what, t); }, ex); }
            std::u32string got = from(t), exp = (app ? U"K" : U"") + want;
            bool expect_past = std_in && open;
            if (ok == expect_past)
                fail("segment", "%s %s", op.c_str(), ok ? "did not report the end of standard input" : ("threw " + ex).c_str());
            if (got != exp) fail("segment", "%s gave %s, expected %s", op.c_str(), show(got).c_str(), show(exp).c_str());
            if (!ok) w.over = true;
        };
        int t = (int) s.arg(0) % 5;
        if (t == 4 && !is_ascii(want)) t = 0;
        switch (t) {
            case 0: go(std::u8string{}); break;
            case 1: go(std::u16string{}); break;
            case 2: go(std::u32string{}); break;
            case 3: go(std::wstring{}); break;
            default: go(std::string{}); break;
        }
        w.u.at = to;
    }

    void execute(const Plan& p) override {
        auto wp = std::make_unique<World>();
        World& w = *wp;
        for (const Step& s : p.steps) {
            const std::string& op = s.op;
            if (op == "out") { if (w.okind < 0 && !w.have_device) open_out(w, s); }
            else if (op == "badput") { if (w.to && !w.have_device ) badput(w, s); }
            else if (op == "put") { if (w.to && !w.have_device) put(w, s); }
            else if (op == "val") put_value(w, s);
            else if (op == "sflush") flush_out(w, s);
            else if (op == "form") change_form(w, s);
            else if (op == "done") close_out(w, s);
            else if (op == "stored") { if (!w.have_device) { make_damaged(w, s); w.u = Units(w.text, w.enc, w.big); } }
            else if (op == "cut" || op == "flip" || op == "ins" || op == "drop" || op == "bad") { if (w.have_device && w.ikind < 0 && w.okind < 5) hurt(w, s); }
            else if (op == "chunk") w.ch.sizes.push_back(s.arg(0));
            else if (op == "in") open_in(w, s);
            else if (op == "back") back(w, s);
            else if (op == "scan") damaged_read(w, s);
            else if (op == "get") get_value(w, s);
            else if (op == "raw") raw_value(w, s);
            else if (op == "num" && prop == "C21") { if (w.to && !w.have_device) put_number(w, s); }
            else if (op == "fnum") { if (w.to && !w.have_device) put_number(w, s); }
            else if (op == "rnum") get_number(w, s);
            else if (op == "word") add_word(w, s);
            else if (op == "lay") lay(w, s);
            else if (op == "rword") read_word(w, s);
            else extract(w, s);
        }
        Step e{"end", {}, {}};
        Op o(e);
        wp.reset();
    }

    // ------------------------------------------------------------------ generate
    std::vector<Fault> tf(Rng& r, bool hard, bool soft, int density) {
        std::vector<Fault> f;
        if ((!hard && !soft) || !r.chance((unsigned) density, 100)) return f;
        if (soft && r.chance(1, 60))          // interrupted again and again
            for (i64 n = r.range(5, r.chance(1, 3) ? 200 : 60), only = (i64) r.below(2); n; --n)
                f.push_back(only || r.chance(1, 2) ? Fault{'I', 0} : Fault{'S', r.range(1, 3)});
        for (int k = (int) r.range(1, 5); k; --k) {
            unsigned z = (unsigned) r.below(10);
            if (z < 3) f.push_back({'P', 0});
            else if (hard && z < 5) f.push_back({"EA"[r.below(2)], 0});
            else if (soft) f.push_back(r.chance(1, 3) ? Fault{'I', 0} : Fault{'S', r.range(1, 7)});
        }
        return f;
    }
    void generate(Rng& r, Plan& p) override {
        static const i64 caps[] = {0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 31, 64, 1024};
        bool large = r.chance(1, 80);         // long texts, many values
        bool giant = large && (prop == "C09" || prop == "C12") && r.chance(1, 12);
        auto cap = [&] { return giant || (large && r.chance(1, 3)) ? (i64) (1 << r.range(9, 14)) + r.range(-1, 1) : caps[r.below(sizeof caps / sizeof *caps)]; };
        bool soft = r.chance(3, 4), hard = false;
        int density = (int) r.range(10, 80);
        i64 enc = (i64) r.below(3), big = (i64) r.below(2);
        auto chunks = [&] {
            i64 style = (i64) r.below(4);
            for (int i = (int) r.range(1, 5); i; --i)
                p.steps.push_back({"chunk", {style == 0 ? 1 : style == 1 ? r.range(1, 4) : style == 2 ? r.range(1, 40) : 4000}, {}});
        };
        if (prop == "C21") {
            p.steps.push_back({"out", {(i64) r.below(7), cap(), enc, big, (i64) r.below(2)}, tf(r, false, soft, density)});
            int n = (int) r.range(1, large ? 120 : 10);
            for (int i = 0; i < n; ++i) {
                i64 z = (i64) r.below(1u << 30);
                if (r.chance(1, 2)) p.steps.push_back({"num", {(i64) r.below(NUMS), z, (i64) r.below(8)}, tf(r, false, soft, density)});
                else p.steps.push_back({"fnum", {(i64) r.below(NUMS), z, (i64) r.below(8), (i64) r.below(1u << 20)}, tf(r, false, soft, density)});
                if (r.chance(1, 6)) p.steps.push_back({"sflush", {}, tf(r, false, soft, density)});
            }
            p.steps.push_back({"done", {}, tf(r, false, soft, density)});
            chunks();
            p.steps.push_back({"in", {(i64) r.below(7), cap(), (i64) r.below(2)}, {}});
            for (int i = 0; i < n; ++i) p.steps.push_back({"rnum", {(i64) r.below(4)}, tf(r, false, soft, density)});
            return;
        }
        if (prop == "C22") {
            int n = (int) r.range(1, large ? 120 : 12);
            for (int i = 0; i < n; ++i)
                p.steps.push_back({"word", {(i64) r.below(NUMS), r.chance(1, 3) ? 0 : (i64) r.range(1, 1 << 20), (i64) r.below(1u << 30),
                                            r.chance(1, 4) ? 0 : (i64) r.below(1u << 24), (i64) r.below(8)}, {}});
            p.steps.push_back({"lay", {enc, big, (i64) r.below(2)}, {}});
            chunks();
            p.steps.push_back({"in", {(i64) r.below(5), cap(), (i64) r.below(2)}, {}});
            for (int i = 0; i <= n; ++i) p.steps.push_back({"rword", {(i64) r.below(15)}, tf(r, false, soft, density)});
            return;
        }
        if (prop == "C09" || prop == "C11") {
            bool data = prop == "C11";
            p.steps.push_back({"out", {(i64) r.below(7), cap(), enc, big, data ? 0 : (i64) r.below(2)}, tf(r, false, soft, density)});
            int values = (int) r.range(data ? 1 : 0, data ? large ? 160 : 16 : 8);
            for (int i = values; i; --i) {
                if (r.chance(1, 10)) p.steps.push_back({"form", {(i64) r.below(3), (i64) r.below(2)}, {}});
                if (data) p.steps.push_back({"val", {(i64) r.below(NTYPES), (i64) r.below(1u << 20)}, tf(r, false, soft, density)});
                else {
                    if (!data && r.chance(1, 12)) p.steps.push_back({"badput", {(i64) r.below(1u << 10), (i64) r.below(3)}, tf(r, false, soft, density)});
                    p.steps.push_back({"put", {(i64) r.below(14), (i64) r.below(1u << 24), giant ? r.range(0, 25000) : large ? r.range(0, 3000) : r.range(0, 14)}, tf(r, false, soft, density)});
                    if (r.chance(1, 6)) p.steps.push_back({"sflush", {}, tf(r, false, soft, density)});
                }
            }
            p.steps.push_back({"done", {}, tf(r, false, soft, density)});
            if (data && r.chance(1, 3)) p.steps.push_back({"cut", {(i64) r.below(60)}, {}});
            chunks();
            p.steps.push_back({"in", {(i64) r.below(7), cap(), (i64) r.below(2)}, {}});
            if (data) {
                hard = r.chance(1, 4);
                for (int i = 0; i < (large ? values + 1 : 17); ++i) p.steps.push_back({r.chance(1, 16) ? "raw" : "get", {(i64) r.below(NTYPES)}, tf(r, hard, soft, density)});
            } else p.steps.push_back({"back", {(i64) r.below(3), (i64) r.below(5)}, tf(r, false, soft, density)});
            return;
        }
        bool c10 = prop == "C10";
        p.steps.push_back({"stored", {(i64) r.below(1u << 24), giant ? r.range(30000, 100000) : large ? r.range(200, 4000) : r.range(1, c10 ? 40 : 120), c10 && r.chance(1, 2) ? 2 : (i64) r.chance(1, 4), enc, big, c10 && r.chance(1, 4)}, {}});
        if (c10) {
            hard = r.chance(1, 6);
            for (int i = (int) r.below(4); i; --i) {
                switch (r.below(6)) {
                    case 4: case 5: p.steps.push_back({"bad", {(i64) r.below(large ? 9000 : 200), (i64) r.below(400)}, {}}); break;
                    case 0: p.steps.push_back({"cut", {(i64) r.below(r.chance(1, 3) ? 6 : large ? 9000 : 120)}, {}}); break;
                    case 1: p.steps.push_back({"flip", {(i64) r.below(large ? 9000 : 200), r.chance(1, 2) ? 1ll << r.below(8) : r.range(1, 255)}, {}}); break;
                    case 2: p.steps.push_back({"ins", {(i64) r.below(large ? 9000 : 200), r.range(0, 255)}, {}}); break;
                    default: p.steps.push_back({"drop", {(i64) r.below(large ? 9000 : 200)}, {}}); break;
                }
            }
        }
        chunks();
        p.steps.push_back({"in", {(i64) r.below(5), cap(), (i64) (c10 && r.chance(1, 2))}, {}});
        if (c10) {
            p.steps.push_back({"scan", {(i64) r.below(5), (i64) r.below(4), (i64) r.below(30), (i64) r.chance(1, 3)}, tf(r, hard, soft, density)});
            return;
        }
        unsigned wt[10];
        unsigned tot = 0;
        static const char* ops[10] = {"line", "aline", "token", "char", "num", "int", "bool", "end", "dbl", "all"};
        for (int i = 0; i < 10; ++i) tot += wt[i] = i == 9 ? (unsigned) r.chance(1, 3) : (unsigned) r.below(5);
        if (!tot) tot = wt[0] = 1;
        for (int i = (int) r.range(3, large ? 300 : 40); i; --i) {
            unsigned z = (unsigned) r.below(tot);
            int k = 0;
            while (z >= wt[k]) z -= wt[k++];
            p.steps.push_back({k == 9 && r.chance(1, 2) ? "aall" : ops[k], {(i64) r.below(5)}, tf(r, false, soft, density)});
        }
        if (r.chance(1, 2)) p.steps.push_back({"all", {(i64) r.below(5)}, {}});
    }
};

const Part registered{
    "text", "C09 C10 C11 C12 C21 C22", [](const std::string& p) -> Scenario* { return new TextScenario(p); },
    "text and data input/output/io streams on files, container resources and standard streams (compiled from /repo)",
    "kernel: files, standard streams and the peer feeding standard input"};

} // namespace
} // namespace sim
