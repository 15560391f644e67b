// Real threads, one running at a time; the plan says when to switch.
#pragma once
#include "kernel.hpp"
#include <functional>

namespace sim {
struct Slice {
    int thread;
    i64 blocks;       // length in basic blocks
};
// Runs the bodies to their end and returns the number of switches.
// With a race detector (race.cpp), unsynchronised use of common memory is described
// in `shared`.
u64 run_threads(const std::vector<std::function<void()>>& bodies, const std::vector<Slice>& slices, std::string& shared);
int current_thread();            // -1 outside the scheduler
void race_begin();
const char* race_end();
void race_where(const char*);    // what the current thread is doing
void race_sync(const void*);
void race_forget(const void*, std::size_t);
void race_access(const void*, std::size_t, bool);
}
