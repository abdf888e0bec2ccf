// Building blocks of client scenarios shared by the harnesses.
#pragma once
#include "srv.hpp"

namespace scn {
using namespace h2;
inline Bytes req(uint32_t sid, const std::string& path, const Fields& more = {}, bool es = true, const std::string& method = "GET") {
    ref::Encoder e;
    e.index = false;
    return headers(sid, e.encode(get(path, more, method)), es);
}
// Windows so large that flow control never matters, with room for further grants
inline Bytes hello() { return preface() + settings({{4, 0x7ff00000}}) + window_update(0, 0x7ff00000 - 65535); }
inline std::vector<Req> expected_requests(const Expect& e) {
    std::vector<Req> v;
    for (auto& a : e.answers)
        if (!a.bad) v.push_back(a.req);
    return v;
}
inline uint64_t ipow(uint64_t b, int e) {
    uint64_t r = 1;
    while (e-- > 0) r *= b;
    return r;
}
}  // namespace scn
