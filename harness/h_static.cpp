// C21, C22: static file serving, on a real directory tree.  The oracle is the kernel itself: what
// open(2)/stat(2) of the spelled path reach, identified by inode.
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <filesystem>
#include <fstream>

#include "router.h"
#include "mc/scn.hpp"
#include "spdlog/spdlog.h"
#include "static_file_handler.h"

using namespace mc;
namespace fs = std::filesystem;

namespace {
constexpr uid_t NOBODY = 65534;

struct Entry {
    std::string where;  // path relative to the tree
    std::string content;
    size_t size = 0;
    bool inside = false, readable = true;
};
std::string pattern(size_t n, unsigned seed) {
    std::string s(n, 0);
    uint32_t x = seed * 2654435761u + 1;
    for (size_t i = 0; i < n; ++i) {
        x = x * 1664525 + 1013904223;
        s[i] = static_cast<char>(x >> 24);
    }
    return s;
}

// A scratch tree; everything under <dir>/www is inside.
struct Tree {
    std::string dir, www;
    std::map<std::pair<dev_t, ino_t>, Entry> files;  // by identity
    std::set<std::pair<dev_t, ino_t>> inside_dirs, outside_dirs;
    unsigned n = 0;
    bool unpriv = false;
    Tree() {
        char t[] = "/tmp/ion-mc-www-XXXXXX";
        if (!mkdtemp(t)) abort();
        dir = t;
        www = dir + "/www";
        chmod(dir.c_str(), 0755);
        mkdir(www.c_str(), 0755);
    }
    // reads as an ordinary user, to whom permission bits mean something
    void drop() {
        if (geteuid() == 0) unpriv = setresgid(-1, NOBODY, 0) == 0 && setresuid(NOBODY, NOBODY, 0) == 0;
        else unpriv = true;
        if (chdir(dir.c_str())) abort();
    }
    void undrop() {
        if (getuid() != 0) (void)!setresuid(0, 0, 0), (void)!setresgid(0, 0, 0);
    }
    ~Tree() {
        (void)!chdir("/");
        undrop();
        std::error_code ec;
        chmod((www + "/nodir").c_str(), 0755);
        fs::remove_all(dir, ec);
    }
    std::string path(const std::string& rel) const { return dir + "/" + rel; }
    void note_dirs() {
        struct stat st;
        auto add = [&](const std::string& p, bool in) {
            if (stat(p.c_str(), &st) == 0) (in ? inside_dirs : outside_dirs).insert({st.st_dev, st.st_ino});
        };
        add(www, true);
        for (auto it = fs::recursive_directory_iterator(dir, fs::directory_options::skip_permission_denied); it != fs::recursive_directory_iterator(); ++it)
            if (fs::is_directory(fs::symlink_status(it->path()))) add(it->path().string(), (it->path().string() + "/").starts_with(www + "/"));
        for (std::string p = dir; p.size() > 1; p = fs::path(p).parent_path().string()) add(p, false);
        add("/", false);
    }
    void know(const std::string& rel, const std::string& content, bool in) {
        struct stat st;
        if (stat(path(rel).c_str(), &st)) abort();
        files[{st.st_dev, st.st_ino}] = {rel, content, static_cast<size_t>(st.st_size), in, (st.st_mode & 0004) != 0};
    }
    // unique content and, where the caller leaves it open, unique size
    void file(const std::string& rel, size_t size = 0, bool fixed = false) {
        ++n;
        std::string c = fixed ? pattern(size, n) : pattern(1000 + 13 * n, n);
        if (!fixed) c.replace(0, std::min<size_t>(c.size(), rel.size() + 8), "CONTENT:" + rel);
        std::ofstream(path(rel), std::ios::binary).write(c.data(), c.size());
        chmod(path(rel).c_str(), 0644);
        know(rel, c, (path(rel)).starts_with(www + "/"));
    }
    void mkd(const std::string& rel) { mkdir(path(rel).c_str(), 0755); }
    void link(const std::string& rel, const std::string& to) {
        if (symlink(to.c_str(), path(rel).c_str())) abort();
    }
};

// What the kernel makes of a spelled path.
struct Truth {
    int err = 0;
    const Entry* e = nullptr;  // known regular file
    bool dir = false, other = false;
    bool leaves = false;  // some directory on the way is outside
};
Truth kernel(const Tree& t, const std::string& root, const std::string& rel) {
    Truth r;
    struct stat st;
    const std::string p = root + "/" + rel;
    if (p.find('\0') != std::string::npos) {
        r.err = EINVAL;
        return r;
    }
    for (size_t i = root.size(); i < p.size(); ++i)
        if (p[i] == '/' && stat(p.substr(0, i).c_str(), &st) == 0 && S_ISDIR(st.st_mode) && !t.inside_dirs.count({st.st_dev, st.st_ino})) r.leaves = true;
    if (stat(p.c_str(), &st)) {
        r.err = errno;
        return r;
    }
    if (S_ISDIR(st.st_mode)) {
        r.dir = true;
        if (!t.inside_dirs.count({st.st_dev, st.st_ino})) r.leaves = true;
        return r;
    }
    auto it = t.files.find({st.st_dev, st.st_ino});
    if (!S_ISREG(st.st_mode) || it == t.files.end()) r.other = true;
    else r.e = &it->second;
    return r;
}

std::string mime(const std::string& name) {
    static const std::map<std::string, std::string> m = {
        {"html", "text/html; charset=utf-8"}, {"htm", "text/html; charset=utf-8"}, {"css", "text/css; charset=utf-8"}, {"js", "application/javascript; charset=utf-8"},
        {"json", "application/json"}, {"xml", "application/xml"}, {"png", "image/png"}, {"jpg", "image/jpeg"}, {"jpeg", "image/jpeg"}, {"gif", "image/gif"},
        {"svg", "image/svg+xml"}, {"ico", "image/x-icon"}, {"txt", "text/plain; charset=utf-8"}, {"pdf", "application/pdf"}, {"zip", "application/zip"},
        {"woff", "font/woff"}, {"woff2", "font/woff2"}, {"ttf", "font/ttf"}, {"webp", "image/webp"}};
    const std::string base = name.substr(name.rfind('/') + 1);
    const auto dot = base.rfind('.');
    if (dot == std::string::npos) return "application/octet-stream";
    auto it = m.find(base.substr(dot + 1));
    return it == m.end() ? "application/octet-stream" : it->second;
}

struct Answer {
    int status;
    std::string body, ctype, clen;
    int ctypes = 0, clens = 0;
    std::string all;  // every header, for leak checks
};
Answer from(const ion::HttpResponse& r) {
    Answer a{r.status_code, std::string(r.body.begin(), r.body.end()), "", "", 0, 0, ""};
    for (auto& h : r.headers) {
        std::string n = h.name;
        std::transform(n.begin(), n.end(), n.begin(), ::tolower);
        a.all += n + ": " + h.value + "\n";
        if (n == "content-type") a.ctype = h.value, a.ctypes++;
        if (n == "content-length") a.clen = h.value, a.clens++;
    }
    return a;
}

enum Want { MustServe, MayServe, Not404only, NotFound, Forbidden };

// C21: nothing of any file outside, and no file at all that is not inside.
void secrecy(Chooser& c, const Tree& t, const Answer& a, bool head, const std::string& ctx) {
    for (auto& [id, e] : t.files) {
        if (e.inside || e.size < 16) continue;
        if (a.body.find(e.content.substr(0, 16)) != std::string::npos || a.body == e.content) {
            c.violation("content", "content of " + e.where + " outside the root sent: " + ctx);
            return;
        }
        if (a.clens && a.clen == std::to_string(e.size)) {
            c.violation("metadata", "size of " + e.where + " outside the root sent: " + ctx);
            return;
        }
    }
    if (a.status == 200) {
        bool known = false;
        for (auto& [id, e] : t.files)
            if (e.inside && (head ? a.clen == std::to_string(e.size) : a.body == e.content)) known = true;
        if (!known) c.violation("source", "the answer is not one of the files inside the root: " + ctx);
    }
}
// C22
void service(Chooser& c, const Tree& t, const Truth& k, bool dontcare, const Answer& a, bool head, const std::string& ctx) {
    auto exact = [&](const Entry& e) {
        if (!head && a.body != e.content) c.violation("bytes", e.where + ": " + std::to_string(a.body.size()) + " octets instead of the file's " + std::to_string(e.size) + ": " + ctx);
        else if (head && !a.body.empty()) c.violation("head-body", "HEAD answered with a body: " + ctx);
        else if (head && (a.clens != 1 || a.clen != std::to_string(e.size))) c.violation("head-length", "content-length '" + a.clen + "' instead of " + std::to_string(e.size) + ": " + ctx);
        else if (a.clens > 1 || (a.clens && a.clen != std::to_string(e.size))) c.violation("length", "content-length '" + a.clen + "': " + ctx);
        else if (a.ctypes != 1 || a.ctype != mime(e.where)) c.violation("type", "content-type '" + a.ctype + "' instead of '" + mime(e.where) + "': " + ctx);
    };
    const bool refused = a.status == 403 || a.status == 404;
    if (a.status != 200 && !refused) {
        c.violation("status", "status " + std::to_string(a.status) + ": " + ctx);
        return;
    }
    if (a.status != 200 && head && !a.body.empty()) c.violation("head-body", "HEAD answered with a body: " + ctx);
    if (dontcare) return;
    if (k.e && k.e->inside && k.e->readable && !k.leaves) {
        if (a.status != 200) c.violation("refused", "status " + std::to_string(a.status) + " for readable file " + k.e->where + ": " + ctx);
        else exact(*k.e);
    } else if (k.e && k.e->inside && k.e->readable) {
        if (a.status == 200) exact(*k.e);
    } else if (k.leaves || (k.e && !k.e->inside)) {
        if (!refused) c.violation("outside", "status " + std::to_string(a.status) + " for a path outside the root: " + ctx);
    } else if (k.e && !k.e->readable) {
        if (a.status != 404 && t.unpriv) c.violation("unreadable", "status " + std::to_string(a.status) + " for an unreadable file: " + ctx);
    } else if (k.dir || k.other) {
        if (a.status != 404) c.violation("not-a-file", "status " + std::to_string(a.status) + " for a directory or special file: " + ctx);
    } else if (k.err == ENOENT) {
        // "missing/.." has no meaning to the kernel but a usual one to people: either is right
        if (a.status == 200) return;
        if (a.status != 404 && ctx.find("..") == std::string::npos) c.violation("missing", "status " + std::to_string(a.status) + " for a missing file: " + ctx);
    }
}

void build_main(Tree& t) {
    t.file("secret.txt");
    t.mkd("out");
    t.file("out/f.txt");
    t.file("out/index.html");
    t.mkd("www2");
    t.file("www2/f.txt");
    t.file("wwwf.txt");
    t.file("www/index.html");
    t.file("www/f.txt");
    t.mkd("www/d");
    t.file("www/d/f.txt");
    t.file("www/d/index.html");
    t.mkd("www/d/d");
    t.file("www/d/d/f.txt");
    t.link("www/lin", "f.txt");
    t.link("www/lind", "d");
    t.link("www/lout", "../secret.txt");
    t.link("www/loutd", "../out");
    t.link("www/lup", "..");
    t.link("www/lself", ".");
    t.link("www/loop", "loop");
    t.link("www/labs", t.path("secret.txt"));
    t.link("www/labsin", t.www + "/d/f.txt");
    t.link("www/ldang", "nowhere");
    t.link("www/ldangout", "../nowhere");
    t.link("www/lchain", "lup/out");
    t.link("www/d/lout", "../../secret.txt");
    t.link("www/d/lup", "../..");
    t.link("www/lsib", "../www2");
    mkfifo(t.path("www/fifo").c_str(), 0644);
    t.file("www/noperm.txt");
    chmod(t.path("www/noperm.txt").c_str(), 0);
    for (auto& [id, e] : t.files)
        if (e.where == "www/noperm.txt") e.readable = false;
    t.mkd("www/nodir");
    t.file("www/nodir/f.txt");
    t.link("lroot", "www");
    t.link("lroot2", "lroot/d/..");
    t.note_dirs();
    chmod(t.path("www/nodir").c_str(), 0);
    t.drop();
}
const std::vector<std::string>& alphabet() {
    static const std::vector<std::string> a = {"f.txt", "d", "..", ".", "", "nope", "lin", "lind", "lout", "loutd", "lup", "lself", "loop", "labs", "labsin", "ldang", "ldangout", "lchain", "lsib", "www", "www2", "out", "secret.txt", "index.html", "fifo", "noperm.txt", "nodir"};
    return a;
}
const std::vector<std::string>& small_alphabet() {
    static const std::vector<std::string> a = {"f.txt", "d", "..", ".", "nope", "lind", "lout", "loutd", "lup", "lself", "lchain", "www", "lsib"};
    return a;
}
// sequence number -> path; n components from the alphabet
std::string spell(const std::vector<std::string>& al, int n, uint64_t i) {
    std::string s;
    for (int k = 0; k < n; ++k) {
        if (k) s += "/";
        s += al[i % al.size()];
        i /= al.size();
    }
    return s;
}
struct Root {
    std::string fs;      // as configured
    std::string prefix;  // URL
};
std::vector<Root> roots(const Tree& t) {
    std::vector<Root> v;
    for (std::string r : {t.www, t.www + "/", std::string("www"), std::string("./www/d/.."), t.path("lroot"), t.path("lroot2"), t.path("out/../www/.")}) v.push_back({r, "/s"});
    for (std::string p : {"/s/", "/", "", "/a/b"}) v.push_back({t.www, p});
    return v;
}
void one(Chooser& c, const Tree& t, const ion::StaticFileHandler& h, const Root& r, const std::string& rel, const std::string& query, bool sec) {
    std::string url = r.prefix + (r.prefix.ends_with("/") ? "" : "/") + rel + query;
    const Truth k = kernel(t, r.fs, rel);
    c.state(mix(hash_str(rel), k.e ? hash_str(k.e->where) : k.err + 1000 * k.dir));
    const bool dontcare = rel.empty() || rel[0] == '/' || rel.find('?') != std::string::npos || rel.find('\0') != std::string::npos;
    if (!h.matches(url)) {
        c.violation("match", "the mapping " + r.prefix + " does not match " + quote(url));
        return;
    }
    for (int head = 0; head < 2; ++head) {
        const Answer a = from(h.handle(url, head));
        const std::string ctx = std::string(head ? "HEAD " : "GET ") + quote(url) + " (root " + r.fs + ", prefix '" + r.prefix + "')";
        c.outcome(mix(a.status, hash_str(a.clen)));
        c.validated();
        c.step();
        if (sec) secrecy(c, t, a, head, ctx);
        else service(c, t, k, dontcare, a, head, ctx);
        if (c.violated()) return;
    }
}
// all paths of up to `depth` components
void paths(const Tree& t, const std::string& section, const std::vector<std::string>& al, int depth, const std::vector<Root>& rs, const std::vector<std::string>& queries, bool sec) {
    uint64_t total = 0;
    for (int n = 1; n <= depth; ++n) total += scn::ipow(al.size(), n);
    std::vector<ion::StaticFileHandler> hs;
    for (auto& r : rs) hs.emplace_back(r.prefix, r.fs);
    enumerate(section, total, [&](Chooser& c, uint64_t i) {
        int n = 1;
        while (i >= scn::ipow(al.size(), n)) i -= scn::ipow(al.size(), n++);
        const std::string rel = spell(al, n, i);
        for (size_t k = 0; k < rs.size() && !c.violated(); ++k)
            for (auto& q : queries)
                if (!c.violated()) one(c, t, hs[k], rs[k], rel, q, sec);
    });
}

// Requests over a directory tree that changes between them.
void histories(Tree& t, bool sec) {
    // operations on www/x.txt and www/xd/f.txt
    static const char* names[] = {"get", "head", "get-d", "write", "grow", "delete", "link-out", "link-in", "dir-real", "dir-out", "dir-gone", "chmod", "rewrite"};
    const int ops = 13, depth = thorough() ? 5 : 4;
    (void)names;
    t.undrop();
    t.mkd("www/h");
    t.file("www/h/keep.txt");
    t.mkd("hout");
    t.file("hout/f.txt");
    t.mkd("www/hreal");
    t.file("www/hreal/f.txt");
    t.note_dirs();
    const auto saved = t.files;
    enumerate(sec ? "histories" : "histories-service", scn::ipow(ops, depth), [&](Chooser& c, uint64_t i) {
        std::vector<int> seq;
        for (int k = 0; k < depth; ++k) seq.push_back(i % ops), i /= ops;
        if (seq.back() > 2 || std::count_if(seq.begin(), seq.end(), [](int o) { return o <= 2; }) < 1) return;
        t.undrop();
        t.files = saved;
        const std::string x = t.path("www/h/x.txt"), xd = t.path("www/h/xd");
        unlink(x.c_str());
        unlink(xd.c_str());
        ion::StaticFileHandler h("/s", t.www);
        unsigned gen = 0;
        std::string ctx = "after";
        auto write = [&](size_t size) {
            unlink(x.c_str());
            std::string s = pattern(size, 7777 + ++gen);
            std::ofstream(x, std::ios::binary).write(s.data(), s.size());
            chmod(x.c_str(), 0644);
            struct stat st;
            stat(x.c_str(), &st);
            t.files[{st.st_dev, st.st_ino}] = {"www/h/x.txt", s, s.size(), true, true};
        };
        for (int op : seq) {
            ctx += std::string(" ") + names[op];
            t.undrop();
            c.step();
            if (op == 3) write(50001 + gen);
            else if (op == 4) {
                struct stat st;
                if (stat(x.c_str(), &st) == 0) {  // in place
                    auto& e = t.files[{st.st_dev, st.st_ino}];
                    if (e.where == "www/h/x.txt") {
                        std::string more = pattern(333, 99 + ++gen);
                        std::ofstream(x, std::ios::binary | std::ios::app).write(more.data(), more.size());
                        e.content += more;
                        e.size += more.size();
                    }
                }
            } else if (op == 5) unlink(x.c_str());
            else if (op == 6) unlink(x.c_str()), (void)!symlink("../../secret.txt", x.c_str());
            else if (op == 7) unlink(x.c_str()), (void)!symlink("keep.txt", x.c_str());
            else if (op == 8) unlink(xd.c_str()), (void)!symlink("../hreal", xd.c_str());
            else if (op == 9) unlink(xd.c_str()), (void)!symlink("../../hout", xd.c_str());
            else if (op == 10) unlink(xd.c_str());
            else if (op == 11) {
                struct stat st;
                if (lstat(x.c_str(), &st) == 0 && S_ISREG(st.st_mode)) {
                    const bool r = st.st_mode & 4;
                    chmod(x.c_str(), r ? 0 : 0644);
                    t.files[{st.st_dev, st.st_ino}].readable = !r;
                }
            } else if (op == 12) {  // other octets, same file, size and times
                struct stat st;
                if (stat(x.c_str(), &st) == 0) {
                    auto& e = t.files[{st.st_dev, st.st_ino}];
                    if (e.where == "www/h/x.txt" && e.readable) {
                        e.content = pattern(e.size, 4444 + ++gen);
                        const int fd = open(x.c_str(), O_WRONLY);
                        (void)!pwrite(fd, e.content.data(), e.size, 0);
                        const timespec ts[2] = {st.st_atim, st.st_mtim};
                        futimens(fd, ts);
                        close(fd);
                    }
                }
            } else {
                t.drop();
                const std::string rel = op == 2 ? "h/xd/f.txt" : "h/x.txt";
                const Truth k = kernel(t, t.www, rel);
                const Answer a = from(h.handle("/s/" + rel, op == 1));
                c.validated();
                c.outcome(mix(a.status, hash_str(ctx)));
                if (sec) secrecy(c, t, a, op == 1, ctx);
                else service(c, t, k, false, a, op == 1, ctx);
                if (c.violated()) break;
            }
            c.state(hash_str(ctx));
        }
        t.undrop();
    });
    t.undrop();
    t.files = saved;
    t.drop();
}

// The same through the real server in the simulated kernel.
void served(const Tree& t, const std::string& section, const std::vector<std::string>& rels, bool sec, const std::string& prefix = "/s") {
    enumerate(section, rels.size(), [&](Chooser& c, uint64_t i) {
        const std::string& rel = rels[i];
        srv::Server s(c, srv::Server::cleartext(), false);
        s.server->router().add_static_handler(std::make_unique<ion::StaticFileHandler>(prefix, t.www));
        sim::ConnPtr k;
        const std::string url = prefix + "/" + rel;
        using h2::operator+;
        const h2::Bytes data = scn::hello() + scn::req(1, url, {}, true, "GET") + scn::req(3, url, {}, true, "HEAD") + h2::ping(1);
        s.script = {[&] { k = s.w.connect(0); }, [&] { s.w.send(k, data); }};
        s.run();
        if (s.check_sane(c)) return;
        const auto o = h2::parse(k->tx);
        if (!o.errors.empty() || o.answers.size() != 2) {
            c.violation("protocol", o.errors.empty() ? "answers missing for " + quote(url) : o.errors[0]);
            return;
        }
        const Truth kt = kernel(t, t.www, rel.substr(0, rel.find('?')));
        for (int head = 0; head < 2; ++head) {
            auto& r = o.answers[head];
            Answer a{0, std::string(r.body.begin(), r.body.end()), "", "", 0, 0, ""};
            for (auto& f : r.fields) {
                a.all += f.first + ": " + f.second + "\n";
                if (f.first == ":status") a.status = atoi(f.second.c_str());
                if (f.first == "content-type") a.ctype = f.second, a.ctypes++;
                if (f.first == "content-length") a.clen = f.second, a.clens++;
            }
            const std::string ctx = std::string(head ? "HEAD " : "GET ") + quote(url) + " through the server";
            c.validated();
            c.outcome(mix(a.status, hash_str(a.clen)));
            if (sec) secrecy(c, t, a, head, ctx);
            else service(c, t, kt, rel.empty() || rel[0] == '/' || rel[0] == '?', a, head, ctx);
            if (!c.violated() && !r.ended) c.violation("unfinished", "the response never ends: " + ctx);
            if (c.violated()) return;
        }
    });
}
std::vector<std::string> all_rels(const std::vector<std::string>& al, int depth) {
    std::vector<std::string> v;
    for (int n = 1; n <= depth; ++n)
        for (uint64_t i = 0; i < scn::ipow(al.size(), n); ++i) v.push_back(spell(al, n, i));
    return v;
}
// raw spellings that component sequences do not give
std::vector<std::string> odd(const Tree& t) {
    std::vector<std::string> v;
    const std::string z(1, '\0');
    for (const std::string& s : {t.path("secret.txt"), t.www + "/f.txt", std::string("/etc/passwd"), std::string("//etc/passwd"), std::string("/")}) v.push_back(s), v.push_back("/" + s), v.push_back("d/" + s), v.push_back("d//.." + s);
    for (std::string tail : {"f.txt", "../secret.txt", "lout", "d/f.txt", "loutd/f.txt", ""})
        for (const std::string& mid : {z, z + "/", z + "/../", std::string("/") + z + "/", z + ".txt"})
            for (std::string front : {"", "d", "lup", "f.txt", "lout", ".."}) v.push_back(front + mid + tail);
    for (std::string s : {"%2e%2e/secret.txt", "..%2fsecret.txt", "..\\secret.txt", "...", ".../f.txt", "..f.txt", "..../secret.txt", "~", "~root", "f.txt ", " f.txt", "F.TXT", "f.txt.", "d/../../www2/f.txt", "../www2/f.txt", "../wwwf.txt", "f.txt#x", "f.txt;x", "*", "f?txt",
                          "d/..?/../../secret.txt", "?../secret.txt", "\xff\xfe", "\xc0\xae\xc0\xae/secret.txt"})
        v.push_back(s);
    v.push_back(std::string(300, 'a'));
    v.push_back(std::string(5000, 'a'));
    std::string deep;
    for (int i = 0; i < 900; ++i) deep += "d/../";
    v.push_back(deep + "f.txt");
    v.push_back(deep + "../secret.txt");
    deep.clear();
    for (int i = 0; i < 60; ++i) deep += "../";
    v.push_back(deep + "etc/passwd");
    deep.clear();
    for (int i = 0; i < 45; ++i) deep += "lself/";
    v.push_back(deep + "f.txt");
    v.push_back(deep + "lup/secret.txt");
    return v;
}
void odd_paths(const Tree& t, const std::string& section, bool sec) {
    const auto v = odd(t);
    const auto rs = roots(t);
    enumerate(section, v.size() * rs.size(), [&](Chooser& c, uint64_t i) {
        const Root& r = rs[i % rs.size()];
        const std::string& rel = v[i / rs.size()];
        ion::StaticFileHandler h(r.prefix, r.fs);
        if (sec || rel.find('?') == std::string::npos) one(c, t, h, r, rel, "", sec);
    });
}
}  // namespace

MC_PROPERTY(C21) {
    Tree t;
    build_main(t);
    note(std::string("files with unreadable permissions ") + (t.unpriv ? "are" : "are NOT") + " unreadable to the checking user");
    note("all paths of up to 3 (thorough 4) components from an alphabet of 27 (files, directories, dot segments, empty segments, missing names, symbolic links to files/directories inside and outside, absolute, dangling, looping and chained, siblings of the root, fifo, unreadable) for the root spelled absolutely, and of up to 2 (thorough 3) for 11 root spellings/prefixes; of up to 5 (thorough 6) from an alphabet of 13; GET and HEAD");
    const auto rs = roots(t);
    paths(t, "paths", alphabet(), thorough() ? 4 : 3, {rs[0]}, {""}, true);
    paths(t, "roots", alphabet(), thorough() ? 3 : 2, rs, {"", "?q=../../secret.txt"}, true);
    paths(t, "deep", small_alphabet(), thorough() ? 6 : 4, {rs[0]}, {""}, true);
    odd_paths(t, "odd", true);
    served(t, "served", all_rels(alphabet(), 2), true);
    note("all sequences of 4 (thorough 5) operations over {GET, HEAD, GET through a directory link, write, grow, delete, replace by link out/in, redirect the directory link, toggle permission, rewrite in place with the same size and times}, ending in a request: the tree at the time of each request decides");
    histories(t, true);
    // the mapped directory is itself missing, a file, or a link elsewhere
    const std::vector<Root> bad = {{t.path("nowww"), "/s"}, {t.path("secret.txt"), "/s"}, {t.path("www/ldang"), "/s"}, {t.path("www/loop"), "/s"}};
    const auto al = alphabet();
    enumerate("bad-roots", bad.size() * al.size() * al.size(), [&](Chooser& c, uint64_t i) {
        const Root& r = bad[i % bad.size()];
        i /= bad.size();
        ion::StaticFileHandler h(r.prefix, r.fs);
        for (int head = 0; head < 2; ++head) {
            const Answer a = from(h.handle("/s/" + spell(al, 2, i), head));
            c.outcome(a.status);
            if (a.status != 403 && a.status != 404) c.violation("bad-root", "status " + std::to_string(a.status) + " from unusable root " + r.fs);
            secrecy(c, t, a, head, "unusable root " + r.fs);
        }
    });
}
MC_PROPERTY(C22) {
    Tree t;
    build_main(t);
    note(std::string("files with unreadable permissions ") + (t.unpriv ? "are" : "are NOT") + " unreadable to the checking user");
    const auto rs = roots(t);
    const std::vector<std::string> queries = {"", "?", "?a=b", "?x=/../y?z", "?/f.txt"};
    note("the same path spaces as C21; every answer must agree with what the kernel reaches for the spelled path");
    paths(t, "paths", alphabet(), thorough() ? 4 : 3, {rs[0]}, {""}, false);
    paths(t, "roots", alphabet(), 2, rs, queries, false);
    paths(t, "deep", small_alphabet(), thorough() ? 6 : 4, {rs[0]}, {""}, false);
    odd_paths(t, "odd", false);
    served(t, "served", all_rels(alphabet(), 2), false);
    histories(t, false);
    // bare prefix
    note("bare prefix, with and without slash and query, 7 spellings of the root x 4 prefixes, with and without index.html");
    t.undrop();
    Tree e;  // a root without index.html
    e.file("www/f.txt");
    e.mkd("www/d");
    e.file("www/d/index.html");
    e.note_dirs();
    t.drop();
    for (int has = 0; has < 2; ++has) {
        const Tree& tt = has ? t : e;
        const auto rr = roots(t);
        enumerate(has ? "bare" : "bare-without-index", rr.size() * queries.size() * 2 * 2, [&](Chooser& c, uint64_t i) {
            const bool head = i % 2;
            i /= 2;
            const bool slash = i % 2;
            i /= 2;
            const Root& r = rr[i / queries.size()];
            const std::string fsroot = has ? r.fs : e.www;
            std::string url = r.prefix;
            if (slash && !url.ends_with("/")) url += "/";
            url += queries[i % queries.size()];
            ion::StaticFileHandler h(r.prefix, fsroot);
            const Answer a = from(h.handle(url, head));
            c.validated();
            c.outcome(a.status);
            if (!h.matches(url)) c.violation("match", "the mapping " + r.prefix + " does not match " + url);
            else service(c, tt, kernel(tt, tt.www, "index.html"), false, a, head, std::string(head ? "HEAD " : "GET ") + quote(url) + " (bare prefix '" + r.prefix + "')");
        });
    }
    // every extension
    note("every known extension and near misses: in the root, in directories with dots, and through the server");
    t.undrop();
    std::vector<std::string> names;
    for (std::string x : {"html", "htm", "css", "js", "json", "xml", "png", "jpg", "jpeg", "gif", "svg", "ico", "txt", "pdf", "zip", "woff", "woff2", "ttf", "webp"}) {
        for (std::string n : {"e." + x, "." + x, "e.x." + x, "e." + x + ".bin", x, "e" + x, "e." + x + "x", "e." + x.substr(1), "e." + x + ".", "e.." + x, "e." + x + "." + x, "a b." + x, "e." + x + "~"}) names.push_back(n);
    }
    std::sort(names.begin(), names.end());
    names.erase(std::unique(names.begin(), names.end()), names.end());
    const std::vector<std::string> dirs = {"x", "x.css", "x.html.d", ".json"};
    std::vector<std::string> rels;
    for (auto& d : dirs) {
        t.mkd("www/" + d);
        for (auto& n : names) {
            t.file("www/" + d + "/" + n);
            rels.push_back(d + "/" + n);
        }
    }
    t.note_dirs();
    t.drop();
    enumerate("types", rels.size(), [&](Chooser& c, uint64_t i) {
        ion::StaticFileHandler h("/s", t.www);
        one(c, t, h, rs[0], rels[i], "", false);
        if (!c.violated()) one(c, t, h, rs[0], rels[i], "?v=1.css", false);
    });
    served(t, "types-served", rels, false);
    // sizes
    note("file sizes 0..64, around every power of two up to 128 KiB and multiples of 16384, 1, 3 and 16 MiB, with 5 GiB (HEAD only), directly and through the server");
    t.undrop();
    std::set<size_t> sizes;
    for (size_t n = 0; n <= 64; ++n) sizes.insert(n);
    for (size_t p = 128; p <= 131072; p *= 2)
        for (int d = -2; d <= 2; ++d) sizes.insert(p + d);
    for (size_t p = 16384; p <= 5 * 16384; p += 16384)
        for (int d = -2; d <= 2; ++d) sizes.insert(p + d);
    sizes.insert(1000000);
    sizes.insert(1 << 20);
    sizes.insert(3000001);
    sizes.insert((16 << 20) + 1);
    t.mkd("www/z");
    std::vector<std::string> zs;
    for (size_t n : sizes) {
        zs.push_back("z/" + std::to_string(n) + ".bin");
        t.file("www/" + zs.back(), n, true);
    }
    t.note_dirs();
    t.drop();
    enumerate("sizes", zs.size(), [&](Chooser& c, uint64_t i) {
        ion::StaticFileHandler h("/s", t.www);
        one(c, t, h, rs[0], zs[i], "", false);
    });
    served(t, "sizes-served", zs, false);
    t.undrop();
    const std::string big = t.path("www/big.bin");
    const size_t huge = 5ULL << 30;
    int fd = open(big.c_str(), O_CREAT | O_WRONLY, 0644);
    const bool ok = fd >= 0 && ftruncate(fd, huge) == 0;
    close(fd);
    t.drop();
    enumerate("huge", 1, [&](Chooser& c, uint64_t) {
        if (!ok) return;
        ion::StaticFileHandler h("/s", t.www);
        const Answer a = from(h.handle("/s/big.bin", true));
        c.validated();
        if (a.status != 200 || a.clen != std::to_string(huge)) c.violation("head-length", "content-length '" + a.clen + "' of a file of 5 GiB");
    });
}
