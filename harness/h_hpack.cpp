// C02-C05 and the coder half of C01: the HPACK classes against the reference coder, all inputs and
// operation histories within the stated bounds.
#include <spdlog/spdlog.h>

#include "hpack/bit_reader.h"
#include "hpack/byte_reader.h"
#include "hpack/dynamic_table.h"
#include "hpack/header_block_decoder.h"
#include "hpack/header_block_encoder.h"
#include "hpack/int_decoder.h"
#include "hpack/int_encoder.h"
#include "mc/core.hpp"
#include "mc/refhpack.hpp"

using namespace mc;
using ref::Field;
using ref::Fields;

static void quiet() { spdlog::set_level(spdlog::level::off); }
static std::string show(const Fields& f) {
    std::string r = "[";
    for (auto& [n, v] : f) r += quote(n, 40) + ":" + quote(v, 40) + " ";
    return r + "]";
}
static Fields to_fields(const std::vector<ion::HttpHeader>& v) {
    Fields f;
    for (auto& h : v) f.emplace_back(h.name, h.value);
    return f;
}

// ---------------------------------------------------------------- C04
static const char* st_name(ref::St s) {
    switch (s) {
        case ref::St::Ok: return "ok";
        case ref::St::Truncated: return "truncated";
        case ref::St::Overflow: return "overflow";
        default: return "too-long";
    }
}
static void check_int_decode(Chooser& c, const uint8_t* p, size_t n, int prefix) {
    const auto want = ref::decode_int(p, n, prefix);
    ByteReader r{std::span<const uint8_t>(p, n)};
    const auto got = ion::IntegerDecoder::decode(r, static_cast<uint8_t>(prefix));
    const bool ok = got.has_value();
    if (ok != (want.st == ref::St::Ok)) {
        c.violation("decode-status", "prefix " + std::to_string(prefix) + " octets " + hex(p, n) + ": expected " +
                                         st_name(want.st) + ", got " + (ok ? "value " + std::to_string(*got) : "error"));
        return;
    }
    if (!ok) return;
    if (*got != want.value)
        c.violation("decode-value", "prefix " + std::to_string(prefix) + " octets " + hex(p, n) + ": expected " +
                                        std::to_string(want.value) + ", got " + std::to_string(*got));
    const size_t left = n - want.used;
    if (!r.has_bytes(left) || r.has_bytes(left + 1))
        c.violation("decode-consumed", "prefix " + std::to_string(prefix) + " octets " + hex(p, n) + ": consumed a wrong number of octets");
}
static void check_int_encode(Chooser& c, uint32_t v, int prefix) {
    const auto want = ref::encode_int(v, prefix);
    const auto got = ion::IntegerEncoder::encode(v, static_cast<uint8_t>(prefix));
    if (got != want) {
        c.violation("encode", "value " + std::to_string(v) + " prefix " + std::to_string(prefix) + ": expected " +
                                  hex(want) + " got " + hex(got));
        return;
    }
    ByteReader r{std::span<const uint8_t>(got)};
    const auto back = ion::IntegerDecoder::decode(r, static_cast<uint8_t>(prefix));
    if (!back || *back != v) c.violation("roundtrip", "value " + std::to_string(v) + " prefix " + std::to_string(prefix));
}
MC_PROPERTY(C04) {
    quiet();
    if (opt.tier == "exhaustive") {  // thorough: non-sanitized build, the full 32-bit range
        enumerate("int-encode-full", 1 << 16, [](Chooser& c, uint64_t hi) {
            for (uint32_t lo = 0; lo < 65536; ++lo)
                for (int p = 1; p <= 8; ++p) check_int_encode(c, static_cast<uint32_t>(hi << 16) | lo, p);
            c.step(65536 * 8);
            c.validated(65536 * 8);
            c.state(hi);
        });
        note("int-encode-full: all 2^32 values times prefix sizes 1..8, encoded and decoded back");
        enumerate("int-decode-4", 1 << 16, [](Chooser& c, uint64_t hi) {
            for (uint32_t lo = 0; lo < 65536; ++lo) {
                const uint8_t b[4] = {static_cast<uint8_t>(hi >> 8), static_cast<uint8_t>(hi), static_cast<uint8_t>(lo >> 8), static_cast<uint8_t>(lo)};
                for (int p = 1; p <= 8; ++p) check_int_decode(c, b, 4, p);
            }
            c.step(65536 * 8);
            c.validated(65536 * 8);
        });
        note("int-decode-4: all strings of four octets times prefix sizes 1..8");
        return;
    }
    const uint64_t small = thorough() ? 1 << 14 : 1 << 12;  // blocks of 512 values
    enumerate("int-encode-low", small, [](Chooser& c, uint64_t blk) {
        for (uint64_t v = blk * 512; v < (blk + 1) * 512; ++v)
            for (int p = 1; p <= 8; ++p) check_int_encode(c, static_cast<uint32_t>(v), p);
        c.step(512 * 8);
        c.validated(512 * 8);
        c.state(mix(1, blk));
    });
    note("int-encode-low: every value below " + std::to_string(small * 512) + " for prefix sizes 1..8");
    // around every power of two and every continuation boundary, low and high part crossed
    std::vector<uint32_t> edge;
    {
        std::set<uint32_t> s;
        for (int b = 0; b <= 32; ++b)
            for (int64_t d = -300; d <= 300; ++d) {
                const int64_t v = (int64_t{1} << b) + d;
                if (v >= 0 && v <= 0xffffffffLL) s.insert(static_cast<uint32_t>(v));
            }
        for (int b = 0; b < 32; ++b)
            for (int e = 0; e < 32; ++e)
                for (int d = -2; d <= 2; ++d)
                    for (int p = 0; p <= 8; ++p)
                        s.insert((1u << b) + (1u << e) + ((1u << p) - 1) + d);
        edge.assign(s.begin(), s.end());
    }
    enumerate("int-encode-edge", edge.size(), [&](Chooser& c, uint64_t i) {
        for (int p = 1; p <= 8; ++p) check_int_encode(c, edge[i], p);
        c.step(8);
        c.validated(8);
        c.state(mix(2, edge[i]));
        if (i % 997 == 0) sample("value " + std::to_string(edge[i]));
    });
    enumerate("int-encode-badprefix", 256, [](Chooser& c, uint64_t p) {
        if (p >= 1 && p <= 8) return;
        bool threw = false;
        try {
            (void)ion::IntegerEncoder::encode(5, static_cast<uint8_t>(p));
        } catch (const std::exception&) {
            threw = true;
        }
        if (!threw) c.violation("bad-prefix", "prefix " + std::to_string(p) + " accepted");
    });
    // every string of up to three octets
    enumerate("int-decode-short", 1 + 256 + 65536, [](Chooser& c, uint64_t i) {
        uint8_t b[3];
        if (i == 0) {
            for (int p = 1; p <= 8; ++p) check_int_decode(c, b, 0, p);
            return;
        }
        if (i <= 256) {
            b[0] = i - 1;
            for (int p = 1; p <= 8; ++p) check_int_decode(c, b, 1, p);
            c.step(8);
            c.validated(8);
            return;
        }
        i -= 257;
        b[0] = i >> 8;
        b[1] = i;
        for (int p = 1; p <= 8; ++p) {
            check_int_decode(c, b, 2, p);
            for (int z = 0; z < 256; ++z) {
                b[2] = z;
                check_int_decode(c, b, 3, p);
            }
        }
        c.step(8 * 257);
        c.validated(8 * 257);
        c.state(mix(3, i));
    });
    // long forms: first octet (prefix bits all ones, every pattern above), continuation octets from an alphabet
    static const uint8_t A[] = {0x00, 0x01, 0x0e, 0x0f, 0x10, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0xfe, 0xff};
    const int L = thorough() ? 7 : 6;
    uint64_t n = 1;
    for (int i = 0; i < L; ++i) n *= sizeof A;
    enumerate("int-decode-long", n / sizeof A, [&](Chooser& c, uint64_t i) {
        uint8_t b[10];
        for (int k = 1; k < L; ++k) {
            b[k] = A[i % sizeof A];
            i /= sizeof A;
        }
        for (uint8_t last : A) {
            b[L] = last;
            for (int p = 1; p <= 8; ++p) {
                const uint8_t m = (1 << p) - 1;
                b[0] = m;
                check_int_decode(c, b, L + 1, p);
                b[0] = m | static_cast<uint8_t>(~m);
                check_int_decode(c, b, L + 1, p);
            }
        }
        c.step(16 * sizeof A);
        c.validated(16 * sizeof A);
        c.state(mix(4, hash_str(std::string_view(reinterpret_cast<char*>(b), L))));
        if (i == 0) sample("octets " + hex(b, L + 1));
    });
    note("int-decode: all strings of <= 3 octets x prefix 1..8; first octet saturated plus " + std::to_string(L) +
         " continuation octets over {00,01,0e,0f,10,7f,80,81,8f,90,fe,ff}");
}

// ---------------------------------------------------------------- C05
namespace {
struct TOp {
    int kind;  // 0 insert, 1 set_max
    Field f;
    size_t n;
    std::string name;
};
std::vector<TOp> table_ops(size_t max) {
    std::vector<TOp> v;
    auto ins = [&](std::string n, std::string val) { v.push_back({0, {n, val}, 0, "ins(" + n.substr(0, 4) + "," + std::to_string(n.size() + val.size() + 32) + ")"}); };
    ins("a", "1");
    ins("a", "22");
    ins("b", "1");
    ins("", "");
    ins("cc", std::string(30, 'x'));
    if (max >= 34) ins("m", std::string(max - 33, 'y'));      // exactly the maximum
    if (max >= 33) ins("m", std::string(max - 33 + 1, 'y'));  // one above
    for (size_t m : {size_t(0), size_t(33), size_t(68), size_t(100), max})
        v.push_back({1, {}, m, "max(" + std::to_string(m) + ")"});
    return v;
}
std::string table_check(ion::DynamicTable& t, const ref::Table& r, const std::vector<TOp>& ops) {
    if (t.count() != r.ents.size()) return "count " + std::to_string(t.count()) + " expected " + std::to_string(r.ents.size());
    if (static_cast<size_t>(t.size()) != r.size) return "size " + std::to_string(t.size()) + " expected " + std::to_string(r.size);
    if (r.size > r.max) return "reference broken";
    for (size_t i = 0; i < r.ents.size(); ++i) {
        const auto h = t.get(i);
        if (h.name != r.ents[i].first || h.value != r.ents[i].second) return "entry " + std::to_string(i) + " is not the expected one";
    }
    for (auto& o : ops)
        if (o.kind == 0) {
            std::optional<size_t> f, n;
            for (size_t i = r.ents.size(); i-- > 0;) {
                if (r.ents[i] == o.f) f = i;
                if (r.ents[i].first == o.f.first) n = i;
            }
            if (t.find({o.f.first, o.f.second}) != f) return "find() of " + o.name;
            if (t.find_name(o.f.first) != n) return "find_name() of " + o.name;
        }
    if (t.find({"a", "zzz"}) || t.find({"zzz", "1"}) || t.find_name("zzz")) return "find() of an absent header";
    return "";
}
uint64_t table_hash(const ref::Table& r) {
    uint64_t h = mix(7, r.max);
    for (auto& e : r.ents) h = mix(mix(h, hash_str(e.first)), hash_str(e.second));
    return h;
}
void table_dfs(Chooser& c, ion::DynamicTable& t, ref::Table& r, const std::vector<TOp>& ops, int depth, std::vector<int>& hist) {
    c.state(table_hash(r));
    if (depth == 0 || c.violated()) return;
    for (size_t i = 0; i < ops.size(); ++i) {
        ion::DynamicTable t2 = t;
        ref::Table r2 = r;
        if (ops[i].kind == 0) {
            t2.insert({ops[i].f.first, ops[i].f.second});
            r2.insert(ops[i].f);
        } else {
            t2.set_max_table_size(ops[i].n);
            r2.set_max(ops[i].n);
        }
        hist.push_back(i);
        c.step();
        c.validated();
        const auto e = table_check(t2, r2, ops);
        if (!e.empty()) {
            std::string s;
            for (int k : hist) s += ops[k].name + " ";
            c.violation("table", "after " + s + ": " + e);
        } else
            table_dfs(c, t2, r2, ops, depth - 1, hist);
        hist.pop_back();
    }
}
}  // namespace
MC_PROPERTY(C05) {
    quiet();
    const int depth = thorough() ? 7 : 5;
    for (size_t max : {size_t(0), size_t(34), size_t(68), size_t(102), size_t(4096), size_t(65536)}) {
        const auto ops = table_ops(max);
        const size_t n = ops.size();
        enumerate("table-max" + std::to_string(max), n * n, [&](Chooser& c, uint64_t idx) {
            ion::DynamicTable t = max == 65536 ? ion::DynamicTable{} : ion::DynamicTable{max};
            ref::Table r{max};
            std::vector<int> hist;
            for (int k : {static_cast<int>(idx / n), static_cast<int>(idx % n)}) {
                if (ops[k].kind == 0) {
                    t.insert({ops[k].f.first, ops[k].f.second});
                    r.insert(ops[k].f);
                } else {
                    t.set_max_table_size(ops[k].n);
                    r.set_max(ops[k].n);
                }
                hist.push_back(k);
                c.step();
                c.validated();
                const auto e = table_check(t, r, ops);
                if (!e.empty()) return c.violation("table", "after " + ops[idx / n].name + " " + ops[idx % n].name + ": " + e);
            }
            table_dfs(c, t, r, ops, depth - 2, hist);
            if (idx % 37 == 0) sample("starts with " + ops[idx / n].name + " " + ops[idx % n].name);
        });
    }
    note("table-*: every sequence of " + std::to_string(depth) + " operations over 12 (5 inserts, inserts of exactly / one above the maximum, 5 size changes), initial maxima 0,34,68,102,4096,65536(default); count, size, every entry, every find() compared after each");
    // long histories: fill past the maximum and keep going; names repeat so that find() must return the newest
    enumerate("table-fill", 4 * 3 * 3, [](Chooser& c, uint64_t idx) {
        const size_t max = std::array{size_t(300), size_t(4096), size_t(16384), size_t(65536)}[idx % 4];
        const int names = std::array{1, 3, 200}[idx / 4 % 3];
        const int vals = std::array{1, 7, 1000}[idx / 12];
        ion::DynamicTable t{max};
        ref::Table r{max};
        for (int i = 0; i < 2200; ++i) {
            Field f{"name" + std::to_string(i % names), std::to_string(i % vals) + std::string(i % 11, 'v')};
            t.insert({f.first, f.second});
            r.insert(f);
            c.step();
            const std::vector<TOp> probe{{0, f, 0, "last"}, {0, {"name0", "0"}, 0, "name0"}, {0, {"name" + std::to_string((i + 1) % names), std::to_string((i + 1) % vals)}, 0, "next"}};
            if (i % 50 == 0 || i > 2100) {
                const auto e = table_check(t, r, probe);
                if (!e.empty()) return c.violation("table-fill", "after " + std::to_string(i + 1) + " inserts: " + e);
                c.validated();
                c.state(table_hash(r));
            }
        }
    });
    set_hang_limit(120);
    enumerate("table-long", 8, [](Chooser& c, uint64_t idx) {  // more insertions than any 16-bit count
        const size_t max = std::array{size_t(100), size_t(300), size_t(4096), size_t(65536)}[idx % 4];
        const bool sizes = idx / 4;
        const int N = thorough() ? 400000 : 70000;
        ion::DynamicTable t{max};
        ref::Table r{max};
        for (int i = 0; i < N; ++i) {
            Field f{"n" + std::to_string(i % 300), std::to_string(i)};
            t.insert({f.first, f.second});
            r.insert(f);
            if (sizes && i % 1000 == 0) {
                const size_t m = i / 1000 % 5 * (max / 4);
                t.set_max_table_size(m);
                r.set_max(m);
            }
            c.step();
            if (i % 1000 < 2 || (i > 65000 && i % 100 == 0)) {
                const auto e = table_check(t, r, {{0, f, 0, "last"}, {0, {"n7", "7"}, 0, "n7"}});
                if (!e.empty()) return c.violation("table-long", "table of " + std::to_string(max) + " after " + std::to_string(i + 1) + " inserts: " + e);
                c.validated();
            } else if (t.count() != r.ents.size() || static_cast<size_t>(t.size()) != r.size)
                return c.violation("table-long", "table of " + std::to_string(max) + " after " + std::to_string(i + 1) + " inserts: " + std::to_string(t.count()) + " entries, size " + std::to_string(t.size()));
        }
        c.state(table_hash(r));
    });
    set_hang_limit(0);
    note("table-fill, table-long: 2200 and 70000 insertions (thorough 400000), with and without size changes on the way");
}

// ---------------------------------------------------------------- C03
namespace {
struct Dec {  // one decoder reused for many independent literals
    ion::DynamicTable table{};
    ion::HeaderBlockDecoder dec{table};
};
Bytes literal_huff(const uint8_t* p, size_t n) {
    Bytes b{0x10, 0x01, 'x'};
    auto l = ref::encode_int(n, 7, 0x80);
    b.insert(b.end(), l.begin(), l.end());
    b.insert(b.end(), p, p + n);
    return b;
}
void check_huff_decode(Chooser& c, Dec& d, const uint8_t* p, size_t n) {
    const auto want = ref::huff_decode(p, n);
    const auto blk = literal_huff(p, n);
    const auto got = d.dec.decode(blk);
    if (got.has_value() != want.has_value()) {
        c.violation(want ? "huffman-rejects-valid" : "huffman-accepts-invalid",
                    "Huffman octets " + hex(p, n) + (want ? " decode to " + quote(*want) + " but are rejected" : " are malformed but accepted"));
        return;
    }
    if (want && (got->size() != 1 || (*got)[0].value != *want || (*got)[0].name != "x"))
        c.violation("huffman-decode-value", "Huffman octets " + hex(p, n) + ": expected " + quote(*want) + " got " +
                                                (got->empty() ? "nothing" : quote((*got)[0].value)));
}
// The encoder may send a string plain or Huffman coded; either way it must be exact.
void check_str_encode(Chooser& c, const std::string& s, Dec* d) {
    ion::DynamicTable t{};
    ion::HeaderBlockEncoder e{t};
    const auto out = e.encode({{"x", s}});
    ref::Decoder r(65536, 65536);
    std::string why;
    const auto f = r.decode(out, &why);
    if (!f || f->size() != 1 || (*f)[0] != Field{"x", s}) {
        c.violation("huffman-encode", "value " + hex(reinterpret_cast<const uint8_t*>(s.data()), s.size()) + " encoded as " + hex(out) + ": " + (f ? "decodes to " + show(*f) : why));
        return;
    }
    // if the value literal is Huffman coded, its octets are exactly the RFC encoding
    const auto h = ref::str_huff(s);
    const auto pl = ref::str_plain(s);
    auto ends = [&](const Bytes& x) { return out.size() >= x.size() && std::equal(x.begin(), x.end(), out.end() - x.size()); };
    if (!ends(h) && !ends(pl)) c.violation("huffman-encode-form", "value " + quote(s) + " encoded as " + hex(out));
    if (d) {
        d->table = ion::DynamicTable{};
        const auto back = d->dec.decode(out);
        if (!back || to_fields(*back) != Fields{{"x", s}}) c.violation("huffman-roundtrip", "value " + quote(s));
    }
}
}  // namespace
MC_PROPERTY(C03) {
    quiet();
    static Dec d;
    enumerate("huff-encode-pairs", 65536, [](Chooser& c, uint64_t i) {
        // every ordered pair of symbols at every bit alignment ('0' has 5 bits, '%' 6: offsets 0..7)
        static const char* lead[8] = {"0000", "00000", "000000", "0000000", "00000000", "000000000", "0000000000", "00000000000"};
        std::string s(2, 0);
        s[0] = static_cast<char>(i >> 8);
        s[1] = static_cast<char>(i);
        for (int k = 0; k < 8; ++k) check_str_encode(c, lead[k] + s, k == 0 ? &d : nullptr);
        c.step(8);
        c.validated(8);
        c.state(mix(1, i));
        if (i % 9973 == 0) sample("pair " + hex(reinterpret_cast<const uint8_t*>(s.data()), 2));
    });
    enumerate("huff-encode-lengths", 5000, [](Chooser& c, uint64_t n) {
        for (char ch : {'a', '0', '~', '\x00', '\xff'}) check_str_encode(c, std::string(n, ch), n < 300 && static_cast<unsigned char>(ch) < 128 ? &d : nullptr);
        c.validated(5);
        c.step(5);
    });
    enumerate("huff-encode-short", 1 + 256 + 65536, [](Chooser& c, uint64_t i) {
        std::string s;
        if (i >= 257) s = {static_cast<char>((i - 257) >> 8), static_cast<char>(i - 257)};
        else if (i) s = {static_cast<char>(i - 1)};
        check_str_encode(c, s, &d);
        c.validated();
    });
    enumerate("huff-decode-short", 1 + 256 + 65536, [](Chooser& c, uint64_t i) {
        uint8_t b[3] = {};
        if (i == 0) return check_huff_decode(c, d, b, 0);
        if (i <= 256) {
            b[0] = i - 1;
            c.validated();
            return check_huff_decode(c, d, b, 1);
        }
        i -= 257;
        b[0] = i >> 8;
        b[1] = i;
        check_huff_decode(c, d, b, 2);
        for (int z = 0; z < 256; ++z) {
            b[2] = z;
            check_huff_decode(c, d, b, 3);
        }
        c.step(257);
        c.validated(257);
        c.state(mix(2, i));
        if (i % 9001 == 0) sample("octets " + hex(b, 3) + " and all third octets");
    });
    // codes longer than 16 bits all begin with eight ones: every tail behind ff, behind ff ff and behind ff ff ff
    enumerate("huff-decode-ff", 65536, [](Chooser& c, uint64_t i) {
        uint8_t b[6] = {0xff, static_cast<uint8_t>(i >> 8), static_cast<uint8_t>(i)};
        const int lim = thorough() ? 256 : 64;
        for (int z = 0; z < lim; ++z) {
            b[3] = thorough() ? z : (z < 32 ? z * 8 + (z & 7) : 255 - (z - 32));
            check_huff_decode(c, d, b, 4);
        }
        uint8_t e[6] = {0xff, 0xff, static_cast<uint8_t>(i >> 8), static_cast<uint8_t>(i)};
        check_huff_decode(c, d, e, 4);
        e[4] = 0xff;
        check_huff_decode(c, d, e, 5);
        uint8_t g[6] = {0xff, 0xff, 0xff, static_cast<uint8_t>(i >> 8), static_cast<uint8_t>(i), 0xff};
        check_huff_decode(c, d, g, 5);
        check_huff_decode(c, d, g, 6);
        c.step(lim + 4);
        c.validated(lim + 4);
        c.state(mix(3, i));
    });
    // valid text followed by every padding form
    enumerate("huff-decode-padding", 256 * 64, [](Chooser& c, uint64_t i) {
        const unsigned sym = i & 255;
        const unsigned pad = (i >> 8) & 63;  // 0..63 -> number of pad bits 0..31, all ones or with one zero
        std::string bits;
        for (unsigned ch : {unsigned('a'), sym}) {
            const auto e = ref::huff_encode(std::string(1, static_cast<char>(ch)));
            // recover the exact code bits
            const int len = [&] {
                for (int k = static_cast<int>(e.size()) * 8; k > 0; --k) {
                    std::string t;
                    for (int q = 0; q < k; ++q) t += ((e[q / 8] >> (7 - q % 8)) & 1) ? '1' : '0';
                    // minimal prefix that is a complete code
                    (void)t;
                }
                return 0;
            }();
            (void)len;
            for (size_t k = 0; k < e.size() * 8; ++k) bits += ((e[k / 8] >> (7 - k % 8)) & 1) ? '1' : '0';
        }
        // bits already contains padded octets of each; append the extra padding octets
        for (unsigned k = 0; k < pad / 2; ++k) bits += (pad & 1) && k == pad / 4 ? '0' : '1';
        while (bits.size() % 8) bits += '1';
        Bytes b(bits.size() / 8);
        for (size_t k = 0; k < bits.size(); ++k)
            if (bits[k] == '1') b[k / 8] |= 1 << (7 - k % 8);
        check_huff_decode(c, d, b.data(), b.size());
        c.validated();
    });
    // exact: symbol s, then k ones / k-1 ones and a zero at each place, for k up to 40, filled to an octet boundary
    enumerate("huff-decode-eos", 256 * 41, [](Chooser& c, uint64_t i) {
        const unsigned sym = i % 256, k = static_cast<unsigned>(i / 256);
        static const auto code_bits = [] {
            std::vector<std::string> v(256);
            for (int s = 0; s < 256; ++s) {
                // two copies: the first code ends where the second begins; length = (bits(16 copies)) / 16 rounded
                std::string in(8, static_cast<char>(s));
                const auto e = ref::huff_encode(in);  // 8 copies: exactly len octets
                const size_t len = e.size();
                for (size_t q = 0; q < len; ++q) v[s] += ((e[q / 8] >> (7 - q % 8)) & 1) ? '1' : '0';
            }
            return v;
        }();
        for (unsigned zero = 0; zero <= k; ++zero) {
            std::string bits = code_bits[sym];
            for (unsigned q = 0; q < k; ++q) bits += q == zero ? '0' : '1';
            for (int fill = 0; fill < 2; ++fill) {
                std::string t = bits;
                while (t.size() % 8) t += fill ? '0' : '1';
                Bytes b(t.size() / 8);
                for (size_t q = 0; q < t.size(); ++q)
                    if (t[q] == '1') b[q / 8] |= 1 << (7 - q % 8);
                check_huff_decode(c, d, b.data(), b.size());
                c.step();
                c.validated();
            }
        }
        if (i % 1009 == 0) sample("symbol " + std::to_string(sym) + " then " + std::to_string(k) + " bits");
    });
    if (thorough())
        enumerate("huff-decode-4", 1 << 16, [](Chooser& c, uint64_t i) {
            uint8_t b[4] = {static_cast<uint8_t>(i >> 8), static_cast<uint8_t>(i)};
            for (int y = 0; y < 256; y += 5)
                for (int z = 0; z < 256; ++z) {
                    b[2] = y;
                    b[3] = z;
                    check_huff_decode(c, d, b, 4);
                }
            c.step(52 * 256);
            c.validated(52 * 256);
        });
    note("huff-encode: all symbol pairs x 8 bit alignments, all strings of <= 2 octets, all lengths < 5000; huff-decode: all strings of <= 3 octets, all 4-octet strings behind ff (quick: 64 last octets), symbol + up to 40 bits with at most one zero");
}

// ---------------------------------------------------------------- C02
namespace {
struct Session {
    ion::DynamicTable table{};
    ref::Decoder ref{65536, 65536};
    Session() {
        ref.string_limit = 4096;
        ref.list_limit = 1 << 20;
        ref.strict_update_position = false;
    }
};
// Returns false when the connection would be over (both reject).
bool check_block(Chooser& c, ion::HeaderBlockDecoder& dec, ref::Decoder& r, const Bytes& b, const char* key,
                 const std::function<std::string()>& desc) {
    std::string why;
    const auto want = r.decode(b, &why);
    const auto got = dec.decode(b);
    c.validated();
    if (want && !got) {
        if (r.late_update) return false;  // a size update after a field: rejecting it is allowed too
        c.violation(std::string(key) + "-rejects-valid", desc() + ": block " + hex(b) + " means " + show(*want) + " but is rejected");
        return false;
    }
    if (!want && got) {
        c.violation(std::string(key) + "-accepts-invalid", desc() + ": block " + hex(b) + " is invalid (" + why + ") but decodes to " + show(to_fields(*got)));
        return false;
    }
    if (!want) return false;
    if (to_fields(*got) != *want) {
        c.violation(std::string(key) + "-wrong-fields", desc() + ": block " + hex(b) + " means " + show(*want) + " but decodes to " + show(to_fields(*got)));
        return false;
    }
    return true;
}
uint64_t dec_state(const ref::Decoder& r) { return table_hash(r.table); }
}  // namespace
MC_PROPERTY(C02) {
    quiet();
    // One decoder per process; its only cross-block state is the table, which is reset for every case.
    static ion::DynamicTable table{};
    static ion::HeaderBlockDecoder dec{table};
    auto prefill = [](ref::Decoder& r, int n) {
        table = ion::DynamicTable{};
        for (int i = 0; i < n; ++i) {
            Field f{"n" + std::to_string(i), "v" + std::to_string(i)};
            table.insert({f.first, f.second});
            r.table.insert(f);
        }
    };
    auto fresh = [] {
        ref::Decoder r(65536, 65536);
        r.string_limit = 4096;
        r.list_limit = 1 << 20;
        r.strict_update_position = false;
        return r;
    };
    // (a) every block of up to three octets, on an empty table and on one holding two entries
    for (int pre : {0, 2}) {
        enumerate("block-octets-pre" + std::to_string(pre), 1 + 256 + 65536, [&](Chooser& c, uint64_t i) {
            Bytes b;
            auto run = [&] {
                auto r = fresh();
                prefill(r, pre);
                check_block(c, dec, r, b, "octets", [&] { return "table of " + std::to_string(pre) + " entries"; });
                c.state(dec_state(r));
            };
            if (i == 0) return run();
            if (i <= 256) {
                b = {static_cast<uint8_t>(i - 1)};
                return run();
            }
            i -= 257;
            b = {static_cast<uint8_t>(i >> 8), static_cast<uint8_t>(i)};
            run();
            b.push_back(0);
            const bool all = thorough();
            for (int z = 0; z < 256; ++z) {
                if (!all && pre == 0 && z >= 2 && z < 254 && (z & 7) != 5) continue;
                b[2] = z;
                run();
                c.step();
            }
        });
    }
    // (b) sequences of representations with block breaks anywhere
    static const std::vector<std::pair<std::string, Bytes>> tok = [] {
        std::vector<std::pair<std::string, Bytes>> t;
        t.emplace_back("|", Bytes{});
        t.emplace_back("idx1", ref::indexed(1));
        t.emplace_back("idx61", ref::indexed(61));
        t.emplace_back("idx62", ref::indexed(62));
        t.emplace_back("idx63", ref::indexed(63));
        t.emplace_back("idx64", ref::indexed(64));
        t.emplace_back("inc(n4,v)", ref::lit_inc(4, "v"));
        t.emplace_back("inc(n61,ww,h)", ref::lit_inc(61, "ww", true));
        t.emplace_back("inc(n62,x)", ref::lit_inc(62, "x"));
        t.emplace_back("inc(n63,y)", ref::lit_inc(63, "y"));
        t.emplace_back("inc(new,h)", ref::lit_inc_new("name", "value", true));
        t.emplace_back("inc(new,'')", ref::lit_inc_new("k", ""));
        t.emplace_back("no(n62)", ref::lit_no(62, "z"));
        t.emplace_back("never(new)", ref::lit_no_new("q", "r", true));
        t.emplace_back("never(n63)", ref::lit_no(63, "zz", true));
        t.emplace_back("size0", ref::size_update(0));
        t.emplace_back("size40", ref::size_update(40));
        t.emplace_back("size80", ref::size_update(80));
        t.emplace_back("size65536", ref::size_update(65536));
        t.emplace_back("size65537", ref::size_update(65537));
        t.emplace_back("idx0", ref::indexed(0));
        return t;
    }();
    const int L = thorough() ? 6 : 5;
    const uint64_t T = tok.size();
    uint64_t n = 1;
    for (int i = 0; i < L - 1; ++i) n *= T;
    enumerate("block-seq", n, [&](Chooser& c, uint64_t idx) {
        std::vector<int> s;
        for (int k = 0; k < L - 1; ++k) {
            s.push_back(idx % T);
            idx /= T;
        }
        for (uint64_t last = 0; last < T; ++last) {
            table = ion::DynamicTable{};
            auto r = fresh();
            Bytes b;
            bool live = true;
            auto flush = [&] {
                if (live)
                    live = check_block(c, dec, r, b, "seq", [&] {
                        std::string d;
                        for (int k : s) d += tok[k].first + " ";
                        return d + tok[last].first;
                    });
                b.clear();
                c.step();
            };
            auto put = [&](int k) {
                if (k == 0) flush();
                else ref::append(b, tok[k].second);
            };
            for (int k : s) put(k);
            put(last);
            if (!b.empty()) flush();
            if (last == 0) c.state(dec_state(r));
        }
        if (c.violated() == false && s[0] == 6 && s[1] == 0 && s[2] == 8) {
            std::string dsc;
            for (int k : s) dsc += tok[k].first + " ";
            sample(dsc);
        }
    });
    note("block-seq: every sequence of " + std::to_string(L) + " representations/block breaks over an alphabet of " + std::to_string(T) + " (indexed 0,1,61..64; literals with static, dynamic, new names; size updates 0,40,80,65536,65537)");
    // (c) mutations: each octet of realistic blocks replaced by every value; each truncation; with carry-over to a follow-up block
    static const std::vector<Bytes> seeds = [] {
        std::vector<Bytes> v;
        ref::Encoder e1;
        v.push_back(e1.encode({{":method", "GET"}, {":path", "/index.html"}, {":scheme", "https"}, {":authority", "localhost"}, {"user-agent", "mc/1"}, {"x-long", std::string(130, 'q')}}));
        ref::Encoder e2;
        e2.huff = true;
        v.push_back(e2.encode({{":method", "GET"}, {":path", "/a/b?c=d"}, {"referer", "http://x/"}, {"custom-name", "custom-value"}, {"cookie", "a=b"}}));
        Bytes m = ref::size_update(100);
        ref::append(m, ref::lit_inc_new("alpha", "1"));
        ref::append(m, ref::lit_inc_new("beta", "2"));
        ref::append(m, ref::lit_inc_new("gamma", "3"));
        ref::append(m, ref::indexed(62));
        ref::append(m, ref::indexed(63));
        v.push_back(m);
        return v;
    }();
    static const Bytes follow = [] {
        Bytes b = ref::indexed(62);
        ref::append(b, ref::lit_inc(63, "f"));
        ref::append(b, ref::indexed(64));
        return b;
    }();
    for (size_t k = 0; k < seeds.size(); ++k) {
        enumerate("block-mutate" + std::to_string(k), seeds[k].size() * 256 + seeds[k].size(), [&](Chooser& c, uint64_t i) {
            Bytes b = seeds[k];
            if (i < b.size() * 256) b[i / 256] = i % 256;
            else b.resize(i - b.size() * 256);
            table = ion::DynamicTable{};
            auto r = fresh();
            auto d = [&] { return "mutation " + std::to_string(i); };
            if (check_block(c, dec, r, b, "mutate", d)) check_block(c, dec, r, follow, "mutate-follow", d);
            c.state(dec_state(r));
            c.step();
        });
    }
    // (d) index integers in all positions over tables of many sizes
    static const std::vector<int> fills = {0, 1, 2, 3, 64, 65, 66, 67, 126, 127, 128, 190, 191, 192, 193, 194, 300, 900};
    enumerate("block-index", fills.size() * 1100, [&](Chooser& c, uint64_t i) {
        const int fill = fills[i / 1100];
        const uint32_t ix = i % 1100;
        for (int form = 0; form < 4; ++form) {
            Bytes b = form == 0 ? ref::indexed(ix) : form == 1 ? ref::lit_inc(ix, "v") : ref::lit_no(ix, "v", form == 3);
            if (form && ix == 0) continue;
            auto r = fresh();
            prefill(r, fill);
            auto d = [&] { return std::to_string(fill) + " entries, index " + std::to_string(ix); };
            if (check_block(c, dec, r, b, "index", d)) check_block(c, dec, r, ref::indexed(62 + (fill > 1)), "index-follow", d);
            c.step();
        }
        c.state(mix(5, i));
        if (i % 4001 == 0) sample(std::to_string(fill) + " entries, index " + std::to_string(ix));
    });
    // huge indexes and lengths
    static const std::vector<uint64_t> big = {0x7f, 0x80, 0xff, 0x100, 0x3fff, 0x4000, 0xffff, 0x10000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000ull, 0x10000007eull, 0xfffffffffull};
    enumerate("block-huge", big.size() * 7, [&](Chooser& c, uint64_t i) {
        const uint64_t v = big[i / 7];
        Bytes b;
        switch (i % 7) {
            case 0: b = ref::encode_int(v, 7, 0x80); break;
            case 1: b = ref::encode_int(v, 6, 0x40); ref::append(b, ref::str_plain("v")); break;
            case 2: b = ref::encode_int(v, 4, 0x00); ref::append(b, ref::str_plain("v")); break;
            case 3: b = ref::encode_int(v, 5, 0x20); break;
            case 4: b = {0x40}; ref::append(b, ref::encode_int(v, 7, 0x00)); ref::append(b, Bytes(40, 'a')); break;
            case 5: b = {0x40}; ref::append(b, ref::encode_int(v, 7, 0x80)); ref::append(b, Bytes(40, 0x1f)); break;
            case 6: b = {0x41}; ref::append(b, ref::encode_int(v, 7, 0x80)); break;
        }
        auto r = fresh();
        prefill(r, 3);
        check_block(c, dec, r, b, "huge", [&] { return "value " + std::to_string(v); });
        c.step();
    });
    // (e) string lengths around the 4096 limit, plain and Huffman, as name and as value; entry sizes around the table limit
    static const std::vector<int> lens = {0, 1, 126, 127, 128, 254, 255, 256, 4094, 4095, 4096, 4097, 4098, 5000, 8191, 8192, 16000};
    enumerate("block-strlen", lens.size() * 2 * 2 * 3 * 2, [&](Chooser& c, uint64_t i) {
        const int len = lens[i % lens.size()];
        i /= lens.size();
        const bool huff = i % 2, as_name = i / 2 % 2;
        const int kind = i / 4 % 3;  // incremental, no, never
        const int chr = i / 12;
        const std::string s(len, chr ? '\x01' : 'a');  // 28-bit and 5-bit codes
        Bytes b{static_cast<uint8_t>(kind == 0 ? 0x40 : kind == 1 ? 0x00 : 0x10)};
        ref::append(b, as_name ? (huff ? ref::str_huff(s) : ref::str_plain(s)) : ref::str_plain("n"));
        ref::append(b, as_name ? ref::str_plain("v") : (huff ? ref::str_huff(s) : ref::str_plain(s)));
        auto r = fresh();
        prefill(r, 3);
        auto d = [&] { return "string of " + std::to_string(len) + (huff ? " huffman" : " plain"); };
        if (check_block(c, dec, r, b, "strlen", d)) {
            check_block(c, dec, r, ref::indexed(62), "strlen-follow", d);
            check_block(c, dec, r, ref::indexed(65), "strlen-follow", d);
        }
        c.state(dec_state(r));
        c.step();
    });
    // (f) table overflow through blocks: eviction by incremental literals under reduced maxima
    enumerate("block-evict", 40 * 30, [&](Chooser& c, uint64_t i) {
        const uint32_t max = static_cast<uint32_t>(i % 40) * 11;
        const int vlen = static_cast<int>(i / 40) * 3;
        auto r = fresh();
        prefill(r, 4);
        bool live = true;
        auto d = [&] { return "max " + std::to_string(max) + " value length " + std::to_string(vlen); };
        live = check_block(c, dec, r, ref::size_update(max), "evict", d);
        for (int k = 0; k < 6 && live; ++k) {
            live = check_block(c, dec, r, ref::lit_inc_new("k" + std::to_string(k), std::string(vlen, 'v')), "evict", d);
            for (uint32_t ix = 62; ix < 70 && live; ++ix) {
                ref::Decoder r2 = r;
                if (!check_block(c, dec, r2, ref::indexed(ix), "evict-look", d) && c.violated()) live = false;
            }
            c.state(dec_state(r));
            c.step();
        }
        if (live) check_block(c, dec, r, [&] { Bytes b = ref::size_update(65536); ref::append(b, ref::indexed(62)); return b; }(), "evict", d);
    });
    // lists around the limit of 1 MiB
    note("list-limit: lists of 1 MiB and up to 40 octets more or less, made of references to entries of 6 sizes or of literals, with each kind of field crossing the limit and each kind following");
    const int offsets[] = {-40, -33, -32, -2, -1, 0, 1, 2, 31, 32, 33, 40};
    enumerate("list-limit", 12 * 6 * 4 * 3, [&](Chooser& c, uint64_t i) {
        const int off = offsets[i % 12];
        const size_t sizes[] = {0, 1, 30, 500, 3000, 4000};
        const size_t size = sizes[i / 12 % 6];
        const int crossing = i / 72 % 4, after = i / 288;
        ion::DynamicTable t{};
        ion::HeaderBlockDecoder d2{t};
        ref::Decoder r(65536, 65536);
        r.string_limit = 4096;
        r.list_limit = 1 << 20;
        ref::Decoder plain(65536, 65536);
        Bytes first = ref::lit_inc_new("n", std::string(size, 'v'));
        if (!check_block(c, d2, r, first, "list-limit", [&] { return std::string("the entry"); })) return;
        Bytes b;
        size_t sum = 0;
        const size_t one = 33 + size, target = (1 << 20) + off;
        while (sum + one + 100 < target) {
            ref::append(b, sum % 3 && size < 100 ? ref::lit_no_new("n", std::string(size, 'w')) : ref::indexed(62));
            sum += one;
        }
        // what is left is made of one or two fields of the crossing kind
        auto field = [&](size_t len) {  // counted len >= 32
            const std::string v(len - 33, 'x');
            return crossing == 0 ? ref::lit_no_new("n", v) : crossing == 1 ? ref::lit_no_new("n", v, true) : crossing == 2 ? ref::lit_inc_new("n", v) : ref::lit_inc_new("n", v, true);
        };
        while (target - sum > 4000) ref::append(b, field(2000)), sum += 2000;
        ref::append(b, field(target - sum));
        if (after == 1) ref::append(b, ref::lit_no_new("", ""));
        if (after == 2) ref::append(b, ref::indexed(2));
        check_block(c, d2, r, b, "list-limit", [&] { return "a list of 1 MiB and " + std::to_string(off) + " octets"; });
        c.state(mix(i, b.size()));
    });
    set_hang_limit(120);
    enumerate("block-long", 4, [&](Chooser& c, uint64_t i) {
        ion::DynamicTable t{};
        ion::HeaderBlockDecoder d2{t};
        ref::Decoder r(65536, 65536);
        r.string_limit = 4096;
        r.list_limit = 1 << 20;
        ref::Encoder e;
        const int N = thorough() ? 400000 : 70000;
        for (int k = 0; k < N; ++k) {
            Fields f{{":method", "GET"}, {"x-" + std::to_string(k % (i % 2 ? 7 : 900)), std::to_string(i / 2 ? k : k % 1100)}, {"cookie", std::to_string(k % 13)}};
            if (!check_block(c, d2, r, e.encode(f), "long", [&] { return "block " + std::to_string(k) + " of one connection"; })) return;
            c.step();
        }
        c.state(dec_state(r));
    });
    set_hang_limit(0);
    note("block-long: 70000 blocks (thorough 400000) through one decoder");
}

// ---------------------------------------------------------------- C01 (coder half)
namespace {
std::vector<Field> enc_alphabet() {
    return {
        {":status", "200"},                      // static, full match
        {":status", "299"},                      // static name
        {"x-a", "1"},                            // new name, short
        {"x-a", "22"},                           // same name, other value
        {"x-b", std::string(60, 'b')},           // long
        {"x-c", std::string("\x80\xff\x00z", 4)},// 8-bit octets
        {"x-d", ""},
        {"content-type", std::string(130, '~')}, // static name, length needs two octets
        {"x-e", "1"},
    };
}
std::string enc_check(ion::HeaderBlockEncoder& e, ref::Decoder& r, const Fields& f) {
    std::vector<ion::HttpHeader> h;
    for (auto& [n, v] : f) h.push_back({n, v});
    const auto out = e.encode(h);
    std::string why;
    const auto got = r.decode(out, &why);
    if (!got) return "sent " + hex(out) + ": client cannot decode (" + why + ")";
    if (*got != f) return "sent " + show(f) + " as " + hex(out) + ": client sees " + show(*got);
    return "";
}
}  // namespace
MC_PROPERTY(C01) {
    quiet();
    const auto A = enc_alphabet();
    const int D = thorough() ? 6 : 5;
    uint64_t n = 1;
    for (int i = 0; i < D; ++i) n *= A.size();
    for (size_t max : {size_t(65536), size_t(4096), size_t(200), size_t(70), size_t(0)}) {
        const uint64_t m = max == 65536 || thorough() ? n : n / A.size();
        const int depth = max == 65536 || thorough() ? D : D - 1;
        enumerate("encode-seq-max" + std::to_string(max), m, [&, depth, max](Chooser& c, uint64_t i) {
            ion::DynamicTable t{max};
            ion::HeaderBlockEncoder e{t};
            ref::Decoder r(max, max);
            std::string hist;
            for (int k = 0; k < depth; ++k) {
                const Field& f = A[i % A.size()];
                i /= A.size();
                hist += quote(f.first) + ":" + quote(f.second, 8) + " ";
                const auto err = enc_check(e, r, {f});
                c.step();
                c.validated();
                if (!err.empty()) return c.violation("encode-seq", "table " + std::to_string(max) + " after " + hist + ": " + err);
            }
            c.state(table_hash(r.table));
            if (i == 0 && hist.size() % 97 == 0) sample(hist);
        });
    }
    note("encode-seq: every sequence of header fields of length " + std::to_string(D) + " over 9 kinds (full/partial static match, repeated, long, 8-bit, empty) for encoder tables of 65536, 4096, 200, 70, 0");
    // long histories: k distinct fields, then each probe; indices cross 62, 63, 64, 126..128, 255
    enumerate("encode-fill", 3 * 320, [&](Chooser& c, uint64_t i) {
        const size_t max = std::array{size_t(65536), size_t(4096), size_t(1000)}[i / 320];
        const int k = i % 320;
        ion::DynamicTable t{max};
        ion::HeaderBlockEncoder e{t};
        ref::Decoder r(max, max);
        auto name = [](int j) { return Field{"n" + std::to_string(j), "v" + std::to_string(j)}; };
        for (int j = 0; j < k; ++j) {
            const auto err = enc_check(e, r, {name(j)});
            if (!err.empty()) return c.violation("encode-fill", std::to_string(j) + " fields before, table " + std::to_string(max) + ": " + err);
        }
        std::vector<Fields> probes;
        for (int back : {1, 2, 3, k / 2, k - 2, k - 1, k})
            if (back > 0 && back <= k) {
                probes.push_back({name(k - back)});                                  // full match
                probes.push_back({{name(k - back).first, "other"}});                 // name match
                probes.push_back({name(k - back), name(k - 1), {name(k - back).first, "o2"}, name(k - back)});
            }
        probes.push_back({{"fresh", std::string(300, 'f')}, {":status", "404"}, {"server", "ion"}});
        for (auto& p : probes) {
            const auto err = enc_check(e, r, p);
            c.step();
            c.validated();
            if (!err.empty()) return c.violation("encode-fill-probe", std::to_string(k) + " fields before, table " + std::to_string(max) + ": " + err);
        }
        c.state(table_hash(r.table));
        if (k % 63 == 0) sample(std::to_string(k) + " distinct fields, table " + std::to_string(max));
    });
    // every octet value in names and values, and every length of name/value around coding limits
    enumerate("encode-octets", 65536, [&](Chooser& c, uint64_t i) {
        ion::DynamicTable t{};
        ion::HeaderBlockEncoder e{t};
        ref::Decoder r(65536, 65536);
        const std::string two{static_cast<char>(i >> 8), static_cast<char>(i)};
        for (auto& f : {Field{"name" + two, "value"}, Field{"k", two + "abcd"}, Field{"k" + two, two}, Field{"name" + two, "value"}}) {
            const auto err = enc_check(e, r, {f});
            c.validated();
            if (!err.empty()) return c.violation("encode-octets", err);
        }
    });
    enumerate("encode-lengths", 4400, [&](Chooser& c, uint64_t i) {
        ion::DynamicTable t{4096};
        ion::HeaderBlockEncoder e{t};
        ref::Decoder r(4096, 4096);
        for (auto& f : {Field{"keep", "1"}, Field{"k", std::string(i, 'a')}, Field{"keep", "1"}, Field{std::string(i + 1, 'n'), "v"}, Field{"k", std::string(i, 'a')}, Field{"keep", "1"}}) {
            const auto err = enc_check(e, r, {f});
            c.validated();
            c.step();
            if (!err.empty()) return c.violation("encode-lengths", "length " + std::to_string(i) + ": " + err);
        }
        c.state(table_hash(r.table));
    });
    set_hang_limit(120);
    enumerate("encode-long", 6, [&](Chooser& c, uint64_t i) {
        const size_t max = std::array{size_t(65536), size_t(4096), size_t(300)}[i % 3];
        ion::DynamicTable t{max};
        ion::HeaderBlockEncoder e{t};
        ref::Decoder r(max, max);
        const int N = thorough() ? 400000 : 70000;
        for (int k = 0; k < N; ++k) {
            const auto err = enc_check(e, r, {{":status", k % 3 ? "200" : std::to_string(100 + k % 900)}, {"x-" + std::to_string(k % (i / 3 ? 7 : 900)), std::to_string(k % 1100)}, {"etag", std::to_string(k)}});
            c.step();
            c.validated();
            if (!err.empty()) return c.violation("encode-long", "table " + std::to_string(max) + ", block " + std::to_string(k) + ": " + err);
        }
        c.state(table_hash(r.table));
    });
    set_hang_limit(0);
    note("encode-long: 70000 blocks (thorough 400000) through one encoder");
}
