// Core of the deterministic simulator: one stream of recorded choices decides everything that is
// not fixed by the code under test (inputs, call histories, event order, thread switches, faults).
#ifndef SIM_CORE_H
#define SIM_CORE_H

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------------------------------------
// Shared page between a run and its supervisor (survives a crash of the run).
constexpr size_t MAX_CHOICES = 1 << 21;
constexpr size_t MAX_COUNTERS = 192;
struct Counter {
    char name[56];
    uint64_t value;
};
struct Shared {
    uint64_t seed;           // seed of the run in progress
    uint32_t in_run;         // 1 while a run is in progress
    uint32_t failed;         // 1 once a violation has been recorded
    char kind[64];           // class of the violation; kept fixed while minimising
    char msg[4096];          // the violation in words
    uint64_t num_choices;    // choices consumed by the run in progress
    uint64_t hash;           // trace hash of the last finished run
    uint64_t runs, nontrivial, discarded, rechecked;
    uint64_t nondeterministic;
    uint64_t num_counters;
    Counter counters[MAX_COUNTERS];
    uint64_t samples;
    char sample_text[3][4096];
    uint32_t choices[MAX_CHOICES];
};
extern Shared *shared;

// ---------------------------------------------------------------------------------------------
// Choices.
struct Discard {};  // thrown by generators when a run cannot be continued meaningfully

/// Picks a value in [0, n). 0 is always the simplest option.
uint32_t pick(uint32_t n);
inline bool chance(uint32_t num, uint32_t den) {  // true with probability num/den; false is simplest
    return pick(den) >= den - num;
}
inline int range(int lo, int hi) {  // inclusive
    return lo + (int)pick((uint32_t)(hi - lo + 1));
}
template <typename T>
void shuffle(std::vector<T> &v) {
    for (size_t k = v.size(); k > 1; k--) {
        // choice 0 leaves the element in place
        size_t j = k - 1 - pick((uint32_t)k);
        std::swap(v[k - 1], v[j]);
    }
}

// ---------------------------------------------------------------------------------------------
// Outcome of a run.
[[noreturn]] void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void note(uint64_t value);  // mixes an observed value into the run's trace hash
void nontrivial();          // marks the run as non-trivial by the world's rule
void count(const char *name, uint64_t by = 1);
extern bool verbose;
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/// Adds to the short description of the run that is kept as a sample in the evidence.
void describe(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------------------------------------
// Event-order policy for the simultaneous-event seam in /repo.
enum Order { ORDER_DEFAULT, ORDER_RANDOM, ORDER_MOSTLY_DEFAULT, ORDER_OLDEST, ORDER_SEEDED };
void set_order(Order o);
Order pick_order();  // draws a policy and installs it
const char *order_name(Order o);
/// Ties are decided by a generator of their own, started from `seed`: two executions of the same
/// call under the same seed see the same decisions. Seed 0 means the shipped order.
void set_seeded_order(uint32_t seed);

// ---------------------------------------------------------------------------------------------
// Calls into the code under test: step budget, allocation faults, exception capture.
enum Status { OK, REJECTED, OUT_OF_MEMORY, OTHER_ERROR };
struct CallOutcome {
    Status status = OK;
    std::string what;
    uint64_t steps = 0;
    uint64_t allocs = 0;
};
struct AllocFault {
    int64_t fail_at = -1;      // index (0-based, within this call) of the first allocation that fails
    int64_t fail_count = 1;    // how many consecutive allocations fail
    uint64_t fired = 0;
};
extern uint64_t default_step_budget;
CallOutcome call(const std::function<void()> &f, AllocFault *fault = nullptr, uint64_t step_budget = 0);
const char *status_name(Status s);

// Allocation accounting (only for allocations made inside call()).
void track_allocations(bool on);
uint64_t live_blocks();
uint64_t live_bytes();

// ---------------------------------------------------------------------------------------------
// Threads: called at every instrumented basic block (null) and memory access (its address).
extern void (*yield_hook)(const void *);
/// For worlds that carry on in a forked process: the trace hash moves over by hand.
uint64_t current_hash();
void resume_hash(uint64_t h);

// ---------------------------------------------------------------------------------------------
// Worlds: one per property.
typedef void (*World)();
struct WorldReg {
    const char *name;
    World fn;
    const char *rule;  // what a run is and what makes it non-trivial
};
const std::vector<WorldReg> &worlds();

}  // namespace sim

#endif
