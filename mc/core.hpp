// Exhaustive explorer: every source of nondeterminism of an execution is a call to Chooser::pick
// (a free choice, always fully enumerated) or Chooser::dev (an environment answer, whose
// alternatives to the default cost one deviation each).  explore() runs the body once per choice
// sequence, depth first, within the deviation bound; enumerate() runs a body once per index.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace mc {

using Bytes = std::vector<uint8_t>;

inline uint64_t fnv(uint64_t h, const void* p, size_t n) {
    auto b = static_cast<const uint8_t*>(p);
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ULL;
    return h;
}
inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 33);
}
inline uint64_t hash_str(std::string_view s) { return fnv(14695981039346656037ULL, s.data(), s.size()); }

std::string hex(const uint8_t* p, size_t n, size_t max = 96);
inline std::string hex(const Bytes& b, size_t max = 96) { return hex(b.data(), b.size(), max); }
std::string quote(std::string_view s, size_t max = 120);  // printable, escaped

struct Pt {
    uint32_t n, chosen;
    bool dev;
    uint32_t label;
};

class Chooser {
   public:
    // free choice among n alternatives; name() of the choice is only for readability of replays
    int pick(int n, const char* label = "");
    // environment answer: alternative 0 is the default, others cost one deviation
    int dev(int n, const char* label = "");
    // call after the up-front free choices: false => this shard does not own the case, return at once
    bool commit();
    int cost() const { return cost_; }
    int bound() const { return bound_; }

    // observations
    void state(uint64_t h);       // canonical hash of a reached state
    void step(uint64_t n = 1);    // transitions taken
    void outcome(uint64_t h);     // folds into the outcome hash of this execution
    void outcome(std::string_view s) { outcome(hash_str(s)); }
    // property violated in this execution
    void violation(const std::string& key, const std::string& msg);
    bool violated() const { return violated_; }
    void validated(uint64_t n = 1);  // implementation traces compared with the reference model

    // internal
    std::vector<Pt> path_;
    size_t pos_ = 0;
    int cost_ = 0, bound_ = 0;
    bool committed_ = false, skip_ = false, violated_ = false, diverged_ = false;
    bool replay_mode_ = false, shard_on_ = true;
    int first_dev_ = -1;
    uint64_t out_ = 0;
    std::string section_;
    int choose(int n, const char* label, bool dev);
    bool shard_allows(size_t pos, uint32_t alt) const;
};

struct Options {
    std::string prop, tier = "quick", out, journal, section, only;
    int shard = 0, shards = 1;
    uint64_t seed = 1;
    std::vector<uint32_t> replay;
    bool replaying = false, list = false;
    double budget_s = 600;
};
extern Options opt;
inline bool thorough() { return opt.tier == "thorough"; }

// Runs body for every choice sequence with at most `bound` deviations.
void explore(const std::string& section, int bound, const std::function<void(Chooser&)>& body);
// Runs body(index) for index in [0, n) (this shard's share).  A violation is reported through c.
void enumerate(const std::string& section, uint64_t n,
               const std::function<void(Chooser&, uint64_t)>& body);
void note(const std::string& text);  // bound / coverage note for the evidence file
void sample(const std::string& text);  // an actual case, written out (first few per section are kept)
bool out_of_time();
double elapsed();
void set_hang_limit(double seconds);  // watchdog per execution; 0 = the default again

// Registration of a property's checks
struct Reg {
    Reg(const char* prop, void (*fn)());
};
#define MC_PROPERTY(id)                          \
    static void mc_run_##id();                   \
    static ::mc::Reg mc_reg_##id(#id, mc_run_##id); \
    static void mc_run_##id()

int main_impl(int argc, char** argv);

}  // namespace mc
