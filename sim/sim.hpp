// Deterministic simulator core: every decision of a run goes through choose().
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>
#include <string_view>
#include <vector>

namespace sim
{
//=== supplied by each harness ===//
extern const char* const property_id;
extern const std::uint64_t step_limit; // simulated steps (basic blocks) allowed per run
void                     run_once();   // one simulated run, every decision made by choose()

//=== decisions ===//
// A value in [0, n). 0 must always be the simplest decision (no fault, shortest, first).
std::uint64_t choose(std::uint64_t n, const char* label);
// True with probability pct/100.
bool chance(unsigned pct, const char* label);
// A length in [0, max], skewed towards small values.
std::size_t small(std::size_t max, const char* label);
template <typename C>
auto& pick(C& c, const char* label)
{
    return c[std::size_t(choose(c.size(), label))];
}

//=== history ===//
// Appends to the run's history (hashed; kept as text only when a trace is wanted).
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void fault(const char* kind); // a fault of this kind was really injected
void probe(const char* name); // a situation worth reaching was reached
void state(std::uint64_t h);  // adds to the set of distinct states
std::uint64_t hash(std::string_view s, std::uint64_t h = 1469598103934665603ull);

// Records the violation and ends the process; never returns.
[[noreturn]] void violate(const char* sig, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));

//=== steps ===//
std::uint64_t steps();
std::uint64_t faults_so_far();

// Called on every basic block of instrumented code when not null (used by the task scheduler).
extern void (*step_hook)();

//=== heap ledger (global operator new/delete) ===//
// While tracking is on, allocations are in the ledger and may be made to fail.
struct heap_t
{
    bool          track    = false;
    std::uint64_t count    = 0; // tracked allocations in this run
    std::uint64_t live     = 0; // tracked blocks not yet freed
    std::uint64_t live_bytes = 0;
    std::uint64_t fail_at  = 0; // 1-based index of the tracked allocation that fails, 0 = none
    bool          fail_all_after = false;
    std::uint64_t failed   = 0;
};
extern heap_t heap;
void          heap_reset(); // start of a scenario: forget the ledger's counts
struct tracked
{
    bool old;
    tracked() : old(heap.track) { heap.track = true; }
    ~tracked() { heap.track = old; }
    tracked(const tracked&) = delete;
};
struct untracked
{
    bool old;
    untracked() : old(heap.track) { heap.track = false; }
    ~untracked() { heap.track = old; }
    untracked(const untracked&) = delete;
};

std::string printable(std::string_view s, std::size_t max = 400);
} // namespace sim
