// Reference model of text: independent encoders and a segmentation model.
#pragma once
#include "kernel.hpp"

namespace sim {

enum Enc { U8 = 0, U16 = 1, U32 = 2 };

inline void encode(Bytes& o, char32_t c, int enc, bool big) {
    auto put = [&](unsigned v) { o.push_back((u8) v); };
    auto unit = [&](unsigned v, int n) {
        for (int i = 0; i < n; ++i) put(v >> (8 * (big ? n - 1 - i : i)));
    };
    if (enc == U8) {
        if (c < 0x80) put(c);
        else if (c < 0x800) { put(0xC0 | c >> 6); put(0x80 | (c & 63)); }
        else if (c < 0x10000) { put(0xE0 | c >> 12); put(0x80 | (c >> 6 & 63)); put(0x80 | (c & 63)); }
        else { put(0xF0 | c >> 18); put(0x80 | (c >> 12 & 63)); put(0x80 | (c >> 6 & 63)); put(0x80 | (c & 63)); }
    } else if (enc == U16) {
        if (c < 0x10000) unit(c, 2);
        else { unit(0xD800 + ((c - 0x10000) >> 10), 2); unit(0xDC00 + ((c - 0x10000) & 0x3FF), 2); }
    } else unit(c, 4);
}
inline Bytes encode(const std::u32string& s, int enc, bool big) {
    Bytes b;
    for (char32_t c : s) encode(b, c, enc, big);
    return b;
}
inline std::u8string to8(const std::u32string& s) {
    Bytes b = encode(s, U8, false);
    return std::u8string(b.begin(), b.end());
}
inline std::u16string to16(const std::u32string& s) {
    std::u16string o;
    for (char32_t c : s) {
        if (c < 0x10000) o += (char16_t) c;
        else { o += (char16_t) (0xD800 + ((c - 0x10000) >> 10)); o += (char16_t) (0xDC00 + ((c - 0x10000) & 0x3FF)); }
    }
    return o;
}
inline std::string show(const std::u32string& s) {
    std::string o = "\"";
    char b[16];
    std::size_t n = 0;
    for (char32_t c : s) {
        if (++n > 30) { o += "..."; break; }
        if (c >= 32 && c < 127) o += (char) c;
        else { std::snprintf(b, sizeof b, "\\u{%x}", (unsigned) c); o += b; }
    }
    return o + "\"";
}
inline bool white(char32_t c) {
    switch (c) {
        case 9: case 10: case 11: case 12: case 13: case 32: case 0x85: case 0xA0: case 0x1680:
        case 0x2000: case 0x2001: case 0x2002: case 0x2003: case 0x2004: case 0x2005: case 0x2006: case 0x2007:
        case 0x2008: case 0x2009: case 0x200A: case 0x2028: case 0x2029: case 0x202F: case 0x205F: case 0x3000:
            return true;
        default: return false;
    }
}

// A code point chosen by one number; boundaries of every encoding are frequent.
inline char32_t code_point(u64 z) {
    static const char32_t edge[] = {
        0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x1D800, 0x2DFFF,
        0xDC00 + 0x10000, 0xFEFF, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0xE9, 0x20AC, 0x1F600, 0xFFFE, 0xBF, 0xC0, 0x10D800, 0x1DFFF,
        // neighbours of white space that are none
        0x84, 0x86, 0x9F, 0xA1, 0x167F, 0x1681, 0x180E, 0x1FFF, 0x200B, 0x2027, 0x202A, 0x202E, 0x2030, 0x205E, 0x2060, 0x2FFF, 0x3001, 0x1C, 0x1F, 0x0E, 0x08};
    u64 k = z % 16;
    z /= 16;
    if (k < 6) return (char32_t) (0x21 + z % 94);
    if (k < 9) return edge[z % (sizeof edge / sizeof *edge)];
    if (k < 11) return (char32_t) (0x80 + z % 0x780);
    if (k < 13) { char32_t c = (char32_t) (0x800 + z % 0xF800); return c >= 0xD800 && c < 0xE000 ? c - 0x800 : c; }
    if (k < 15) return (char32_t) (0x10000 + z % 0x100000);
    return (char32_t) (z % 0x20 == 13 ? 9 : z % 0x20);
}
// Text from a seed: words, numbers, booleans, white space, line ends.
// style 0: any mixture; 1: ASCII only; 2: no line or token structure
inline std::u32string gen_text(u64 seed, std::size_t len, int style) {
    Rng r(seed * 77 + 5);
    r.next();
    std::u32string s;
    auto ascii = [&](const std::string& t) { for (char c : t) s += (char32_t) (unsigned char) c; };
    static const char32_t ws[] = {32, 32, 32, 9, 11, 12, 0x85, 0xA0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007,
                                  0x2008, 0x2009, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000};
    while (s.size() < len) {
        if (style == 2) {
            char32_t c = code_point(r.next());
            if (c != 13) s += c;
            continue;
        }
        switch (r.below(9)) {
            case 0: case 1: case 2:
                for (u64 n = len > 200 && r.chance(1, 12) ? 1 + r.below(len) : 1 + r.below(8); n; --n) {
                    char32_t c = style == 1 ? (char32_t) (0x21 + r.below(94)) : code_point(r.next());
                    if (!white(c)) s += c;
                }
                break;
            case 3: ascii(std::to_string(r.range(-100000, 100000))); break;
            case 4: ascii(r.chance(1, 2) ? "1" : "0"); s += U' '; break;
            case 5: s += style == 1 ? U' ' : ws[r.below(sizeof ws / sizeof *ws)]; break;
            case 6: s.append(len > 200 && r.chance(1, 12) ? 1 + r.below(len / 2) : 1, U' '); break;
            case 7: s += U'\n'; break;
            default: s += U"\r\n"; break;
        }
    }
    return s;
}

// The text as the stream hands it out: CRLF is one unit.
struct Units {
    std::vector<char32_t> cp;
    std::vector<std::size_t> end;      // bytes consumed once the unit was read
    std::vector<std::size_t> begin;
    std::size_t at = 0;

    Units() = default;
    Units(const std::u32string& s, int enc, bool big, std::size_t lead = 0) {
        Bytes b;
        for (std::size_t i = 0; i < s.size(); ++i) {
            begin.push_back(lead + b.size());
            encode(b, s[i], enc, big);
            if (s[i] == U'\r' && i + 1 < s.size() && s[i + 1] == U'\n') encode(b, s[++i], enc, big);
            cp.push_back(s[i]);
            end.push_back(lead + b.size());
        }
    }
    bool done() const { return at >= cp.size(); }
    // Each returns the text and sets `to` to the unit the call stops at.
    // open: the text ran out before the terminator
    std::u32string line(std::size_t& to, bool& open) const {
        std::u32string o;
        std::size_t i = at;
        open = true;
        while (i < cp.size()) {
            char32_t c = cp[i++];
            if (c == U'\n') { open = false; break; }
            o += c;
        }
        to = i;
        return o;
    }
    std::u32string token(std::size_t& to, bool& open) const {
        std::u32string o;
        std::size_t i = at;
        open = true;
        while (i < cp.size() && white(cp[i])) ++i;
        while (i < cp.size()) {
            char32_t c = cp[i++];
            if (white(c)) { open = false; break; }
            o += c;
        }
        to = i;
        return o;
    }
    std::u32string rest(std::size_t& to) const {
        to = cp.size();
        return std::u32string(cp.begin() + (std::ptrdiff_t) at, cp.end());
    }
};

inline bool is_ascii(const std::u32string& s) {
    for (char32_t c : s) if (c >= 0x80) return false;
    return true;
}
inline bool is_int(const std::u32string& s) {
    std::size_t i = !s.empty() && s[0] == U'-';
    if (i == s.size() || s.size() > 8) return false;
    for (; i < s.size(); ++i) if (s[i] < U'0' || s[i] > U'9') return false;
    return true;
}
inline long long int_value(const std::u32string& s) {
    std::string t(s.begin(), s.end());
    return std::atoll(t.c_str());
}

// Conversion of whatever string type back to code points, for comparison.
inline std::u32string from(const std::u32string& s) { return s; }
inline std::u32string from(const std::wstring& s) { return std::u32string(s.begin(), s.end()); }
inline std::u32string from(const std::string& s) {
    std::u32string o;
    for (char c : s) o += (char32_t) (unsigned char) c;
    return o;
}
inline std::u32string from(const std::u16string& s) {
    std::u32string o;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] >= 0xD800 && s[i] < 0xDC00 && i + 1 < s.size() && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000) {
            o += (char32_t) (0x10000 + ((s[i] - 0xD800) << 10) + (s[i + 1] - 0xDC00));
            ++i;
        } else o += (char32_t) s[i];
    }
    return o;
}
// 0x110000 + byte marks what is not well-formed UTF-8
inline std::u32string from(const std::u8string& s) {
    std::u32string o;
    for (std::size_t i = 0; i < s.size();) {
        unsigned b = (unsigned char) s[i];
        int n = b < 0x80 ? 1 : b >> 5 == 6 ? 2 : b >> 4 == 14 ? 3 : b >> 3 == 30 ? 4 : 0;
        bool ok = n > 0 && i + (std::size_t) n <= s.size();
        char32_t c = n == 1 ? b : n == 2 ? b & 31 : n == 3 ? b & 15 : b & 7;
        for (int k = 1; ok && k < n; ++k) {
            unsigned t = (unsigned char) s[i + (std::size_t) k];
            if (t >> 6 != 2) ok = false;
            c = c << 6 | (t & 63);
        }
        if (!ok) { o += (char32_t) (0x110000 + b); ++i; continue; }
        o += c;
        i += (std::size_t) n;
    }
    return o;
}

} // namespace sim
