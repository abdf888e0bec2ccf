#include "core.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>

namespace mc {

Options opt;

namespace {
struct Found {
    std::string section, key, msg;
    std::vector<uint32_t> choices;
    int cost;
};
struct SectionStats {
    uint64_t executions = 0, transitions = 0, violations = 0, divergences = 0;
    int bound = -1;
    bool capped = false;
    uint64_t max_points = 0;
};
struct State {
    std::vector<std::pair<std::string, void (*)()>> props;
    std::map<std::string, SectionStats> sections;
    std::vector<std::string> section_order;
    std::unordered_set<uint64_t> states, outcomes;
    uint64_t transitions = 0, executions = 0, validated = 0;
    std::vector<Found> found;
    std::map<std::string, int> found_per_key;
    std::vector<std::string> notes, samples;
    std::map<std::string, int> samples_per_section;
    double t0 = 0;
    SectionStats* cur = nullptr;
    Chooser* chooser = nullptr;
};
State& S() {
    static State s;
    return s;
}

// journal: "section\0" + u32 count + u32 choices...
uint32_t* jr = nullptr;
constexpr size_t J_SIZE = 1 << 20;
constexpr size_t J_MAX = (J_SIZE - 512) / 4;
void journal_begin(const std::string& section) {
    if (!jr) return;
    auto name = reinterpret_cast<char*>(jr);
    std::snprintf(name, 256, "%s", section.c_str());
    jr[64] = 0;  // count
    jr[65]++;    // executions started
}
void journal_choice(uint32_t c) {
    if (!jr) return;
    uint32_t n = jr[64];
    if (n < J_MAX) {
        jr[128 + n] = c;
        jr[64] = n + 1;
    }
}
std::atomic<uint64_t> exec_serial{0};
double hang_limit = 15, hang_default = 15;
double raw_now() {
    timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
uint64_t wd_serial = 0;
double wd_since = 0;
void watchdog(int) {
    const uint64_t s = exec_serial.load();
    const double n = raw_now();
    if (s != wd_serial) {
        wd_serial = s;
        wd_since = n;
        return;
    }
    if (wd_since > 0 && n - wd_since > hang_limit) {
        if (jr) jr[66] = 0x474e4148;  // "HANG"
        const char m[] = "mc: watchdog: execution does not finish\n";
        (void)!syscall(SYS_write, 2, m, sizeof m - 1);
        syscall(SYS_exit_group, 77);
    }
}
void json_str(FILE* f, const std::string& s) {
    fputc('"', f);
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\')
            fprintf(f, "\\%c", ch);
        else if (ch < 0x20 || ch >= 0x7f)
            fprintf(f, "\\u%04x", ch);
        else
            fputc(ch, f);
    }
    fputc('"', f);
}
}  // namespace

std::string hex(const uint8_t* p, size_t n, size_t max) {
    static const char d[] = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < n && i < max; ++i) {
        r += d[p[i] >> 4];
        r += d[p[i] & 15];
    }
    if (n > max) r += "..(" + std::to_string(n) + " octets)";
    return r;
}
std::string quote(std::string_view s, size_t max) {
    std::string r = "'";
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        unsigned char ch = s[i];
        if (ch < 0x20 || ch >= 0x7f || ch == '\'' || ch == '\\') {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", ch);
            r += b;
        } else
            r += static_cast<char>(ch);
    }
    if (s.size() > max) r += "..(" + std::to_string(s.size()) + ")";
    return r + "'";
}

bool Chooser::shard_allows(size_t pos, uint32_t alt) const {
    if (!shard_on_ || opt.shards <= 1) return true;
    uint64_t h = hash_str(section_);
    for (size_t i = 0; i < pos; ++i)
        if (!path_[i].dev || path_[i].chosen) h = mix(h, (i << 8) ^ path_[i].chosen);
    h = mix(h, (static_cast<uint64_t>(pos) << 16) ^ alt);
    return static_cast<int>(h % opt.shards) == opt.shard;
}

int Chooser::choose(int n, const char* label, bool dev) {
    if (n <= 0) n = 1;
    const uint32_t lab = static_cast<uint32_t>(hash_str(label)) ^ (dev ? 0x80000000u : 0);
    uint32_t c = 0;
    if (pos_ < path_.size()) {
        Pt& p = path_[pos_];
        if (p.n == 0) {  // replay from a file: only chosen is known
            p.n = n;
            p.dev = dev;
            p.label = lab;
            if (p.chosen >= static_cast<uint32_t>(n)) {
                diverged_ = true;
                p.chosen = 0;
            }
        } else if (p.n != static_cast<uint32_t>(n) || p.label != lab) {
            diverged_ = true;
            p.n = n;
            p.label = lab;
            p.dev = dev;
            if (p.chosen >= static_cast<uint32_t>(n)) p.chosen = 0;
        }
        c = p.chosen;
    } else {
        path_.push_back({static_cast<uint32_t>(n), 0, dev, lab});
    }
    if (dev && c) {
        cost_++;
        if (first_dev_ < 0) first_dev_ = static_cast<int>(pos_);
    }
    pos_++;
    journal_choice(c);
    return static_cast<int>(c);
}
int Chooser::pick(int n, const char* label) { return choose(n, label, false); }
int Chooser::dev(int n, const char* label) { return choose(n, label, true); }
bool Chooser::commit() {
    committed_ = true;
    if (replay_mode_) return true;
    // The owner of the run without deviations; with deviations allowed every shard has to run it to
    // discover the deviation points, but only the owner counts it.
    const bool mine = shard_allows(pos_, 0xffff);
    if (!mine && first_dev_ < 0) {
        bool forced = false;  // a deviation still lies ahead in the prefix?
        for (size_t i = pos_; i < path_.size(); ++i)
            if (path_[i].dev && path_[i].chosen) forced = true;
        if (!forced) {
            skip_ = true;
            if (bound_ == 0) return false;
        }
    }
    return true;
}
void Chooser::state(uint64_t h) { S().states.insert(mix(h, hash_str(section_))); }
void Chooser::step(uint64_t n) {
    S().transitions += n;
    if (S().cur) S().cur->transitions += n;
}
void Chooser::outcome(uint64_t h) { out_ = mix(out_, h); }
void Chooser::validated(uint64_t n) { S().validated += n; }
void Chooser::violation(const std::string& key, const std::string& msg) {
    violated_ = true;
    auto& st = S();
    if (st.cur) st.cur->violations++;
    Found f{section_, key, msg.size() > 2000 ? msg.substr(0, 2000) + "..." : msg, {}, cost_};
    for (size_t i = 0; i < pos_ && i < path_.size(); ++i) f.choices.push_back(path_[i].chosen);
    while (!f.choices.empty() && f.choices.back() == 0) f.choices.pop_back();
    int& k = st.found_per_key[section_ + "\n" + key];
    k++;
    if (k <= 3) {
        st.found.push_back(f);
    } else {  // keep the shortest
        Found* worst = nullptr;
        for (auto& o : st.found)
            if (o.section == f.section && o.key == f.key &&
                (!worst || std::pair(o.cost, o.choices.size()) > std::pair(worst->cost, worst->choices.size())))
                worst = &o;
        if (worst && std::pair(f.cost, f.choices.size()) < std::pair(worst->cost, worst->choices.size())) *worst = f;
    }
}

double elapsed() { return raw_now() - S().t0; }
bool out_of_time() { return elapsed() > opt.budget_s; }
void set_hang_limit(double s) { hang_limit = s > 0 ? s : hang_default; }
void note(const std::string& t) {
    auto& n = S().notes;
    if (std::find(n.begin(), n.end(), t) == n.end()) n.push_back(t);
}
void sample(const std::string& t) {
    auto& st = S();
    const std::string sec = st.chooser ? st.chooser->section_ : "";
    if (st.samples_per_section[sec]++ < 2) st.samples.push_back(sec + ": " + t);
}

static void run_once(Chooser& c, const std::function<void(Chooser&)>& body) {
    c.pos_ = 0;
    c.cost_ = 0;
    c.committed_ = c.skip_ = c.violated_ = c.diverged_ = false;
    c.first_dev_ = -1;
    c.out_ = 0;
    exec_serial++;
    journal_begin(c.section_);
    S().chooser = &c;
    body(c);
    S().chooser = nullptr;
}

void explore(const std::string& section, int bound, const std::function<void(Chooser&)>& body) {
    if (!opt.only.empty() && section.find(opt.only) == std::string::npos) return;
    if (opt.replaying && section != opt.section) return;
    auto& st = S();
    auto& sec = st.sections[section];
    if (sec.executions == 0) st.section_order.push_back(section);
    st.cur = &sec;
    Chooser c;
    c.section_ = section;
    c.bound_ = bound;
    sec.bound = std::max(sec.bound, bound);
    if (opt.replaying) {
        c.replay_mode_ = true;
        c.shard_on_ = false;
        for (auto v : opt.replay) c.path_.push_back({0, v, false, 0});
        run_once(c, body);
        sec.executions++;
        st.executions++;
        if (c.diverged_) fprintf(stderr, "mc: replay diverged\n");
        return;
    }
    while (true) {
        if (out_of_time()) {
            sec.capped = true;
            break;
        }
        run_once(c, body);
        if (c.diverged_) {
            sec.divergences++;
            c.violation("nondeterminism",
                        "the same choices led to different behaviour: state leaks between independent "
                        "executions, or behaviour depends on uninitialised data");
        }
        // An execution that stopped early (violation): forget stale deeper points.
        if (c.path_.size() > c.pos_) c.path_.resize(c.pos_);
        if (!c.skip_) {
            sec.executions++;
            st.executions++;
            st.outcomes.insert(mix(c.out_, hash_str(section)));
            sec.max_points = std::max<uint64_t>(sec.max_points, c.pos_);
            sec.transitions += c.pos_;
            st.transitions += c.pos_;
        }
        // backtrack
        bool more = false;
        while (!c.path_.empty()) {
            const size_t i = c.path_.size() - 1;
            Pt& p = c.path_[i];
            if (p.dev) {
                int before = 0;
                for (size_t k = 0; k < i; ++k) before += c.path_[k].dev && c.path_[k].chosen;
                const bool can = before + 1 <= bound;
                if (can) {
                    uint32_t alt = p.chosen + 1;
                    if (before == 0)
                        while (alt < p.n && !c.shard_allows(i, alt)) alt++;
                    if (alt < p.n) {
                        p.chosen = alt;
                        more = true;
                        break;
                    }
                }
            } else if (p.chosen + 1 < p.n) {
                p.chosen++;
                more = true;
                break;
            }
            c.path_.pop_back();
        }
        if (!more) break;
        if (sec.violations > 200) {  // enough evidence
            sec.capped = true;
            break;
        }
    }
    st.cur = nullptr;
}

void enumerate(const std::string& section, uint64_t n,
               const std::function<void(Chooser&, uint64_t)>& body) {
    if (!opt.only.empty() && section.find(opt.only) == std::string::npos) return;
    if (opt.replaying && section != opt.section) return;
    auto& st = S();
    auto& sec = st.sections[section];
    if (sec.executions == 0) st.section_order.push_back(section);
    st.cur = &sec;
    sec.bound = std::max(sec.bound, 0);
    Chooser c;
    c.section_ = section;
    c.committed_ = true;
    auto one = [&](uint64_t i) {
        c.path_.clear();
        c.path_.push_back({0xffffffff, static_cast<uint32_t>(i & 0xffffffff), false, 0});
        c.path_.push_back({0xffffffff, static_cast<uint32_t>(i >> 32), false, 0});
        c.pos_ = 2;
        c.cost_ = 0;
        c.out_ = 0;
        c.violated_ = false;
        if (jr) {
            if (jr[64] != 2 || std::strncmp(reinterpret_cast<char*>(jr), section.c_str(), 255) != 0)
                journal_begin(section);
            jr[64] = 2;
            jr[128] = static_cast<uint32_t>(i);
            jr[129] = static_cast<uint32_t>(i >> 32);
        }
        exec_serial.fetch_add(1, std::memory_order_relaxed);
        st.chooser = &c;
        body(c, i);
        st.chooser = nullptr;
        sec.executions++;
        st.executions++;
        sec.transitions++;
        st.transitions++;
        if (c.out_ && st.outcomes.size() < 2000000) st.outcomes.insert(mix(c.out_, hash_str(section)));
    };
    if (opt.replaying) {
        uint64_t i = 0;
        if (!opt.replay.empty()) i = opt.replay[0];
        if (opt.replay.size() > 1) i |= static_cast<uint64_t>(opt.replay[1]) << 32;
        if (i < n) one(i);
        return;
    }
    // blocks of 64 consecutive indices, dealt round robin over the shards
    constexpr uint64_t B = 64;
    const uint64_t blk = n < 64ULL * opt.shards * 4 ? 1 : B;
    for (uint64_t b = opt.shard; b * blk < n; b += opt.shards) {
        if (out_of_time() || sec.violations > 200) {
            sec.capped = true;
            break;
        }
        for (uint64_t i = b * blk; i < std::min(n, (b + 1) * blk); ++i) one(i);
    }
    st.cur = nullptr;
}

Reg::Reg(const char* prop, void (*fn)()) { S().props.emplace_back(prop, fn); }

static void write_result() {
    auto& st = S();
    FILE* f = opt.out.empty() ? stdout : fopen((opt.out + ".tmp").c_str(), "w");
    if (!f) {
        perror("mc: result file");
        exit(4);
    }
    fprintf(f, "{\"property\":\"%s\",\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,"
               "\"validated\":%llu,\"outcomes\":%llu,\"wall_s\":%.3f,\n\"sections\":[",
            opt.prop.c_str(), (unsigned long long)st.executions, (unsigned long long)st.states.size(),
            (unsigned long long)st.transitions, (unsigned long long)st.validated,
            (unsigned long long)st.outcomes.size(), elapsed());
    bool first = true;
    for (auto& name : st.section_order) {
        auto& s = st.sections[name];
        fprintf(f, "%s\n {\"name\":", first ? "" : ",");
        json_str(f, name);
        fprintf(f, ",\"executions\":%llu,\"transitions\":%llu,\"bound\":%d,\"capped\":%s,\"max_points\":%llu,\"violations\":%llu}",
                (unsigned long long)s.executions, (unsigned long long)s.transitions, s.bound,
                s.capped ? "true" : "false", (unsigned long long)s.max_points, (unsigned long long)s.violations);
        first = false;
    }
    fprintf(f, "],\n\"violations\":[");
    first = true;
    for (auto& v : st.found) {
        fprintf(f, "%s\n {\"section\":", first ? "" : ",");
        json_str(f, v.section);
        fprintf(f, ",\"key\":");
        json_str(f, v.key);
        fprintf(f, ",\"msg\":");
        json_str(f, v.msg);
        fprintf(f, ",\"cost\":%d,\"choices\":[", v.cost);
        for (size_t i = 0; i < v.choices.size(); ++i) fprintf(f, "%s%u", i ? "," : "", v.choices[i]);
        fprintf(f, "]}");
        first = false;
    }
    fprintf(f, "],\n\"notes\":[");
    for (size_t i = 0; i < st.notes.size(); ++i) {
        if (i) fputc(',', f);
        json_str(f, st.notes[i]);
    }
    fprintf(f, "],\n\"samples\":[");
    for (size_t i = 0; i < st.samples.size(); ++i) {
        if (i) fputc(',', f);
        json_str(f, st.samples[i]);
    }
    // hashes, so that the driver can count distinct states and outcomes over all shards
    fprintf(f, "]}\n");
    if (f != stdout) {
        fclose(f);
        FILE* h = fopen((opt.out + ".hashes").c_str(), "wb");
        if (h) {
            uint64_t ns = st.states.size();
            fwrite(&ns, 8, 1, h);
            for (auto x : st.states) fwrite(&x, 8, 1, h);
            for (auto x : st.outcomes) fwrite(&x, 8, 1, h);
            fclose(h);
        }
        rename((opt.out + ".tmp").c_str(), opt.out.c_str());
    }
}

int main_impl(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") opt.prop = val();
        else if (a == "--tier") opt.tier = val();
        else if (a == "--out") opt.out = val();
        else if (a == "--journal") opt.journal = val();
        else if (a == "--only") opt.only = val();
        else if (a == "--seed") opt.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--budget") opt.budget_s = atof(val().c_str());
        else if (a == "--hang") hang_limit = hang_default = atof(val().c_str());
        else if (a == "--shard") {
            std::string v = val();
            sscanf(v.c_str(), "%d/%d", &opt.shard, &opt.shards);
        } else if (a == "--replay") {
            opt.replaying = true;
            opt.section = val();
            std::string v = val();
            char* p = v.data();
            while (*p) {
                opt.replay.push_back(strtoul(p, &p, 10));
                if (*p == ',') ++p;
            }
        }
    }
    S().t0 = raw_now();
    if (!opt.journal.empty()) {
        int fd = open(opt.journal.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, J_SIZE) != 0) {
            perror("mc: journal");
            return 4;
        }
        jr = static_cast<uint32_t*>(mmap(nullptr, J_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
        if (jr == MAP_FAILED) return 4;
    }
    struct sigaction sa{};
    sa.sa_handler = watchdog;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGVTALRM, &sa, nullptr);
    struct itimerval it{{0, 500000}, {0, 500000}};
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    bool any = false;
    for (auto& [p, fn] : S().props)
        if (p == opt.prop) {
            any = true;
            fn();
        }
    if (!any) {
        fprintf(stderr, "mc: property %s is not in this harness\n", opt.prop.c_str());
        return 4;
    }
    write_result();
    return 0;
}

}  // namespace mc

int main(int argc, char** argv) { return mc::main_impl(argc, argv); }
