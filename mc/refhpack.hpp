// Reference HPACK coder, written from RFC 7541, used as the oracle.  Boring on purpose.
#pragma once
#include <cstdint>
#include <deque>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace ref {

using Bytes = std::vector<uint8_t>;
using Field = std::pair<std::string, std::string>;
using Fields = std::vector<Field>;

enum class St { Ok, Truncated, Overflow, TooLong };

struct IntRes {
    St st;
    uint32_t value;
    size_t used;
};
// RFC 7541 section 5.1, limited to 32 bits and five continuation octets
IntRes decode_int(const uint8_t* p, size_t n, int prefix);
Bytes encode_int(uint64_t value, int prefix, uint8_t high_bits = 0);

Bytes huff_encode(std::string_view s);
std::optional<std::string> huff_decode(const uint8_t* p, size_t n);

struct Table {
    std::deque<Field> ents;  // newest first
    size_t size = 0, max;
    explicit Table(size_t m = 4096) : max(m) {}
    void insert(const Field& f);
    void set_max(size_t m);
    static size_t entry_size(const Field& f) { return f.first.size() + f.second.size() + 32; }
};

struct Decoder {
    Table table;
    size_t limit;              // largest size update allowed
    size_t string_limit = ~0;  // after decoding
    size_t list_limit = ~0;    // of a whole list, each field counted as in the table
    size_t must_reduce_to = ~size_t(0);  // client lowered the limit: next block must start with an update
    bool strict_update_position = true;
    // set by decode(): a size update appeared after a field representation
    bool late_update = false;
    explicit Decoder(size_t max = 4096, size_t lim = 4096) : table(max), limit(lim) {}
    std::optional<Fields> decode(const uint8_t* p, size_t n, std::string* why = nullptr);
    std::optional<Fields> decode(const Bytes& b, std::string* why = nullptr) { return decode(b.data(), b.size(), why); }
    void set_limit(size_t l);  // SETTINGS_HEADER_TABLE_SIZE announced and acknowledged
    bool field_at(size_t index, Field& f) const;
};

// Building blocks for hand-made header blocks
Bytes str_plain(std::string_view s);
Bytes str_huff(std::string_view s);
Bytes indexed(uint32_t i);
Bytes lit_inc(uint32_t name_idx, std::string_view value, bool huff = false);
Bytes lit_inc_new(std::string_view name, std::string_view value, bool huff = false);
Bytes lit_no(uint32_t name_idx, std::string_view value, bool never = false);
Bytes lit_no_new(std::string_view name, std::string_view value, bool never = false);
Bytes size_update(uint32_t n);
void append(Bytes& a, const Bytes& b);

// Simple client-side encoder: with or without incremental indexing
struct Encoder {
    Table table{4096};
    bool index = true, huff = false;
    Bytes encode(const Fields& f);
};

}  // namespace ref
