// Accounting of the heap memory the code under test holds: every allocation made while tracking is on
// and no Pause is in effect (the simulated kernel and the scenario's actions pause it).
#pragma once
#include <cstddef>

namespace mem {
void start();       // forgets everything and begins to count
void stop();
size_t live();      // octets allocated since start() and not freed
size_t peak();      // highest live()
void reset_peak();
extern int paused;
struct Pause {
    Pause() { ++paused; }
    ~Pause() { --paused; }
    Pause(const Pause&) = delete;
};
}  // namespace mem
