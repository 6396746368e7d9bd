// Stateless model checking of C++ threads. The code under test is compiled with -fsanitize=thread (instrumentation only)
// and linked against sched.cpp, which implements the __tsan_* entry points: every atomic access of the unmodified code
// becomes a scheduling point of a cooperative scheduler, every load may return any value the memory model allows
// (per-location modification order, views, release/acquire bundles, fences), and plain accesses, memcpy and the heap are
// checked for data races with vector clocks and for use after free.
#pragma once
#include "mc.hpp"
#include <functional>
#include <vector>

namespace sched
{
// Runs the threads to completion under every schedule and read choice the engine enumerates; throws mc::Violation on a
// data race, use after free, double free or deadlock. A negative bound means no preemption bound.
void run(mc::Ctx& c, std::vector<std::function<void()>> threads, int preemption_bound = -1);
// Called before objects shared by the threads are created (enables heap tracking) and after they are gone.
void begin(mc::Ctx& c);
void end(mc::Ctx& c);
size_t live_blocks();     // heap blocks allocated since begin() and not freed
bool is_live(void* p);    // block that starts at p
size_t live_containing(void* p); // size of the live block that contains p, 0 if none
void forget_guards();     // makes function-local statics seen since begin() uninitialised again
int self();
// Harness bookkeeping inside a thread: accesses in its scope are not part of the program under test.
struct Quiet
{
    Quiet();
    ~Quiet();
};
// A step of the harness itself that other threads may run in between.
void point();
} // namespace sched
