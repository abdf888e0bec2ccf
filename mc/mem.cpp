#include "mem.hpp"

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define MEM_HOOKS 1
#endif
#endif

namespace mem {
int paused = 0;
namespace {
constexpr size_t SLOTS = size_t(1) << 19;
struct Slot {
    uintptr_t p;
    size_t n;
};
Slot* table = nullptr;
bool on = false;
size_t count = 0, live_ = 0, peak_ = 0;

size_t slot_of(uintptr_t p) { return (p >> 4) * 0x9e3779b97f4a7c15ULL >> 45; }

void on_malloc(const volatile void* q, size_t n) {
    if (!on || paused || !q) return;
    const auto p = reinterpret_cast<uintptr_t>(q);
    if (++count > SLOTS / 2) {
        fputs("mc: more live allocations than can be tracked\n", stderr);
        abort();
    }
    size_t i = slot_of(p);
    while (table[i].p) i = (i + 1) % SLOTS;
    table[i] = {p, n};
    live_ += n;
    if (live_ > peak_) peak_ = live_;
}
void on_free(const volatile void* q) {
    if (!on || !q) return;
    const auto p = reinterpret_cast<uintptr_t>(q);
    size_t i = slot_of(p);
    while (table[i].p != p) {
        if (!table[i].p) return;
        i = (i + 1) % SLOTS;
    }
    live_ -= table[i].n;
    --count;
    for (size_t j = i;;) {  // close the gap
        table[i] = {0, 0};
        size_t k;
        do {
            j = (j + 1) % SLOTS;
            if (!table[j].p) return;
            k = slot_of(table[j].p);
        } while (i <= j ? (i < k && k <= j) : (i < k || k <= j));
        table[i] = table[j];
        i = j;
    }
}
}  // namespace

void start() {
#ifdef MEM_HOOKS
    static const bool installed = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0;
    if (!installed) {
        fputs("mc: cannot install allocator hooks\n", stderr);
        abort();
    }
#endif
    on = false;
    if (!table) table = static_cast<Slot*>(calloc(SLOTS, sizeof(Slot)));
    else if (count)
        for (size_t i = 0; i < SLOTS; ++i) table[i] = {0, 0};
    count = live_ = peak_ = 0;
    paused = 0;
    on = true;
}
void stop() { on = false; }
size_t live() { return live_; }
size_t peak() { return peak_; }
void reset_peak() { peak_ = live_; }
}  // namespace mem
