#include "refhpack.hpp"

#include <array>

#include "ref_tables.hpp"

namespace ref {

IntRes decode_int(const uint8_t* p, size_t n, int prefix) {
    if (n == 0) return {St::Truncated, 0, 0};
    const uint32_t max = (1u << prefix) - 1;
    const uint32_t first = p[0] & max;
    if (first < max) return {St::Ok, first, 1};
    // collect continuation octets up to and including the last one
    unsigned __int128 v = max;
    size_t i = 1;
    for (;; ++i) {
        if (i > 5) return {St::TooLong, 0, 0};
        if (i >= n) return {St::Truncated, 0, 0};
        v += static_cast<unsigned __int128>(p[i] & 0x7f) << (7 * (i - 1));
        if (!(p[i] & 0x80)) break;
    }
    if (v > 0xffffffffu) return {St::Overflow, 0, 0};
    return {St::Ok, static_cast<uint32_t>(v), i + 1};
}

Bytes encode_int(uint64_t v, int prefix, uint8_t high) {
    const uint64_t max = (1ull << prefix) - 1;
    Bytes r;
    if (v < max) {
        r.push_back(high | static_cast<uint8_t>(v));
        return r;
    }
    r.push_back(high | static_cast<uint8_t>(max));
    v -= max;
    for (; v > 127; v /= 128) r.push_back(static_cast<uint8_t>(v % 128 + 128));
    r.push_back(static_cast<uint8_t>(v));
    return r;
}

Bytes huff_encode(std::string_view s) {
    Bytes r;
    uint64_t acc = 0;
    int bits = 0;
    for (unsigned char c : s) {
        acc = (acc << HUFF_LEN[c]) | HUFF_CODE[c];
        bits += HUFF_LEN[c];
        while (bits >= 8) {
            bits -= 8;
            r.push_back(static_cast<uint8_t>(acc >> bits));
            acc &= (1ull << bits) - 1;
        }
    }
    if (bits) r.push_back(static_cast<uint8_t>((acc << (8 - bits)) | ((1u << (8 - bits)) - 1)));
    return r;
}

namespace {
// Canonical decoding tables indexed by code length: first-match search over (length, code).
struct HuffIndex {
    // node[i][bit] : >=0 next node, <0 : -(symbol+1); 256 = EOS
    std::vector<std::array<int, 2>> node;
    HuffIndex() {
        node.push_back({0, 0});
        for (int s = 0; s <= 256; ++s) {
            const uint32_t code = s < 256 ? HUFF_CODE[s] : 0x3fffffff;
            const int len = s < 256 ? HUFF_LEN[s] : 30;
            int cur = 0;
            for (int b = len - 1; b > 0; --b) {
                const int bit = (code >> b) & 1;
                if (node[cur][bit] == 0) {
                    node.push_back({0, 0});
                    node[cur][bit] = static_cast<int>(node.size()) - 1;
                }
                cur = node[cur][bit];
            }
            node[cur][code & 1] = -(s + 1);
        }
    }
};
}  // namespace

std::optional<std::string> huff_decode(const uint8_t* p, size_t n) {
    static const HuffIndex idx;
    std::string r;
    int cur = 0, depth = 0;
    bool ones = true;
    for (size_t i = 0; i < n; ++i)
        for (int b = 7; b >= 0; --b) {
            const int bit = (p[i] >> b) & 1;
            const int nx = idx.node[cur][bit];
            ones = ones && bit;
            ++depth;
            if (nx < 0) {
                const int sym = -nx - 1;
                if (sym == 256) return std::nullopt;  // EOS
                r += static_cast<char>(sym);
                cur = 0;
                depth = 0;
                ones = true;
            } else
                cur = nx;
        }
    if (depth > 7 || !ones) return std::nullopt;
    return r;
}

void Table::insert(const Field& f) {
    ents.push_front(f);
    size += entry_size(f);
    set_max(max);
}
void Table::set_max(size_t m) {
    max = m;
    while (size > max) {
        size -= entry_size(ents.back());
        ents.pop_back();
    }
}

void Decoder::set_limit(size_t l) {
    limit = l;
    if (l < table.max) must_reduce_to = std::min(must_reduce_to, l);
}

bool Decoder::field_at(size_t i, Field& f) const {
    if (i == 0) return false;
    if (i <= 61) {
        f = {STATIC[i - 1][0], STATIC[i - 1][1]};
        return true;
    }
    if (i - 62 >= table.ents.size()) return false;
    f = table.ents[i - 62];
    return true;
}

std::optional<Fields> Decoder::decode(const uint8_t* p, size_t n, std::string* why) {
    auto fail = [&](const char* w) -> std::optional<Fields> {
        if (why) *why = w;
        return std::nullopt;
    };
    Fields out;
    size_t pos = 0, list = 0;
    late_update = false;
    bool first = true;
    auto integer = [&](int prefix, uint32_t& v) {
        const auto r = decode_int(p + pos, n - pos, prefix);
        if (r.st != St::Ok) return false;
        v = r.value;
        pos += r.used;
        return true;
    };
    auto string = [&](std::string& s) {
        if (pos >= n) return false;
        const bool h = p[pos] & 0x80;
        uint32_t len;
        if (!integer(7, len) || len > n - pos) return false;
        if (h) {
            auto d = huff_decode(p + pos, len);
            if (!d) return false;
            s = std::move(*d);
        } else
            s.assign(reinterpret_cast<const char*>(p + pos), len);
        pos += len;
        return s.size() <= string_limit;
    };
    while (pos < n) {
        const uint8_t b = p[pos];
        uint32_t i;
        if ((b & 0xe0) == 0x20) {
            if (!integer(5, i)) return fail("bad size update integer");
            if (i > limit) return fail("size update above the limit");
            if (!first) late_update = true;
            if (!first && strict_update_position) return fail("size update after a field");
            if (i <= must_reduce_to) must_reduce_to = ~size_t(0);
            table.set_max(i);
            continue;
        }
        if (must_reduce_to != ~size_t(0)) return fail("limit was lowered but the block does not start with a size update");
        first = false;
        Field f;
        if (b & 0x80) {
            if (!integer(7, i)) return fail("bad index integer");
            if (!field_at(i, f)) return fail("index out of range");
            out.push_back(f);
            if ((list += Table::entry_size(f)) > list_limit) return fail("list too large");
            continue;
        }
        const bool inc = b & 0x40;
        if (!integer(inc ? 6 : 4, i)) return fail("bad name index integer");
        if (i) {
            if (!field_at(i, f)) return fail("name index out of range");
        } else if (!string(f.first))
            return fail("bad name string");
        f.second.clear();
        if (!string(f.second)) return fail("bad value string");
        if (inc) table.insert(f);
        out.push_back(f);
        if ((list += Table::entry_size(f)) > list_limit) return fail("list too large");
    }
    return out;
}

void append(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
Bytes str_plain(std::string_view s) {
    Bytes r = encode_int(s.size(), 7);
    r.insert(r.end(), s.begin(), s.end());
    return r;
}
Bytes str_huff(std::string_view s) {
    const Bytes h = huff_encode(s);
    Bytes r = encode_int(h.size(), 7, 0x80);
    append(r, h);
    return r;
}
static Bytes lit(Bytes r, std::string_view v, bool huff) {
    append(r, huff ? str_huff(v) : str_plain(v));
    return r;
}
Bytes indexed(uint32_t i) { return encode_int(i, 7, 0x80); }
Bytes lit_inc(uint32_t i, std::string_view v, bool huff) { return lit(encode_int(i, 6, 0x40), v, huff); }
Bytes lit_inc_new(std::string_view n, std::string_view v, bool huff) { return lit(lit({0x40}, n, huff), v, huff); }
Bytes lit_no(uint32_t i, std::string_view v, bool never) { return lit(encode_int(i, 4, never ? 0x10 : 0), v, false); }
Bytes lit_no_new(std::string_view n, std::string_view v, bool never) {
    return lit(lit({static_cast<uint8_t>(never ? 0x10 : 0)}, n, false), v, false);
}
Bytes size_update(uint32_t n) { return encode_int(n, 5, 0x20); }

Bytes Encoder::encode(const Fields& fs) {
    Bytes r;
    for (auto& f : fs) {
        uint32_t full = 0, name = 0;
        for (uint32_t i = 1; i <= 61 && !full; ++i) {
            if (f.first == STATIC[i - 1][0]) {
                if (!name) name = i;
                if (f.second == STATIC[i - 1][1]) full = i;
            }
        }
        for (size_t i = 0; i < table.ents.size() && !full; ++i)
            if (table.ents[i].first == f.first) {
                if (!name) name = 62 + i;
                if (table.ents[i].second == f.second) full = 62 + i;
            }
        if (full)
            append(r, indexed(full));
        else if (index) {
            append(r, name ? lit_inc(name, f.second, huff) : lit_inc_new(f.first, f.second, huff));
            table.insert(f);
        } else
            append(r, name ? lit_no(name, f.second) : lit_no_new(f.first, f.second));
    }
    return r;
}

}  // namespace ref
