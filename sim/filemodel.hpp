// Reference model of one open file: a byte array, a cursor and the list of
// bytes accepted but not yet known to be on the device.
#pragma once
#include "kernel.hpp"

namespace sim {

struct PendingByte { i64 off; u8 b; };

inline void apply_byte(Bytes& d, const PendingByte& w) {
    if ((u64) w.off >= d.size()) d.resize((u64) w.off + 1, 0);
    d[(u64) w.off] = w.b;
}

struct FileModel {
    Bytes base;                          // device content at the last check
    std::vector<PendingByte> pending;    // accepted after that, in order
    i64 pos = 0;

    Bytes logical() const {
        Bytes c = base;
        for (auto& w : pending) apply_byte(c, w);
        return c;
    }
    void accept(const Bytes& data, std::size_t n) {
        for (std::size_t i = 0; i < n; ++i) pending.push_back({pos + (i64) i, data[i]});
        pos += (i64) n;
    }
    // Finds the shortest prefix of the pending bytes that explains the device
    // content; drops it from the list. False: no prefix explains it.
    // A device that stores whole elements pads the last one with zeros.
    bool absorb(const Bytes& device, std::size_t element = 1) {
        if (base == device) return true;
        Bytes c = base;
        std::size_t bad = 0;                 // bytes that differ
        auto differs = [&](std::size_t i) { return (std::size_t) (i < device.size() && c[i] != device[i]); };
        auto same = [&] {
            if (bad || (c.size() + element - 1) / element * element != device.size()) return false;
            for (std::size_t i = c.size(); i < device.size(); ++i) if (device[i]) return false;
            return true;
        };
        for (std::size_t i = 0; i < c.size(); ++i) bad += differs(i);
        if (same()) return true;
        for (std::size_t k = 0; k < pending.size(); ++k) {
            std::size_t off = (std::size_t) pending[k].off, before = c.size();
            if (off < before) bad -= differs(off);
            apply_byte(c, pending[k]);
            for (std::size_t i = off < before ? off : before; i <= off; ++i) bad += differs(i);
            if (same()) {
                base = device;
                pending.erase(pending.begin(), pending.begin() + (std::ptrdiff_t) k + 1);
                return true;
            }
        }
        return false;
    }
};

inline std::string diff(const Bytes& got, const Bytes& want) {
    std::size_t n = got.size() < want.size() ? got.size() : want.size(), i = 0;
    while (i < n && got[i] == want[i]) ++i;
    char buf[160];
    std::snprintf(buf, sizeof buf, "sizes %zu/%zu, first difference at byte %zu", got.size(), want.size(), i);
    return std::string(buf) + " got " + hex(Bytes(got.begin() + (std::ptrdiff_t) i, got.end()), 24) + " want "
        + hex(Bytes(want.begin() + (std::ptrdiff_t) i, want.end()), 24);
}

} // namespace sim
