// Runtime of the simulator: choice stream, seams, supervision of runs, minimisation, replay.
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <new>
#include <sstream>
#include <unordered_set>

#include "core.h"
#include "pymatching/sparse_blossom/tracker/radix_heap_queue.h"

namespace sim {

Shared *shared = nullptr;
bool verbose = false;

// ------------------------------------------------------------------------------- choice stream
static bool replaying = false;
static std::vector<uint32_t> replay_choices;
static uint64_t rng_state[4];
static uint64_t trace_hash;
static bool run_nontrivial;
static std::string run_description;

static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t rng() {  // xoshiro256**
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    uint64_t result = rotl(rng_state[1] * 5, 7) * 9;
    uint64_t t = rng_state[1] << 17;
    rng_state[2] ^= rng_state[0];
    rng_state[3] ^= rng_state[1];
    rng_state[1] ^= rng_state[2];
    rng_state[0] ^= rng_state[3];
    rng_state[2] ^= t;
    rng_state[3] = rotl(rng_state[3], 45);
    return result;
}

uint32_t pick(uint32_t n) {
    if (n <= 1) {
        return 0;
    }
    size_t k = shared->num_choices;
    if (k >= MAX_CHOICES) {
        throw Discard{};
    }
    uint32_t v;
    if (replaying) {
        v = k < replay_choices.size() ? replay_choices[k] : 0;
        if (v >= n) {
            v = n - 1;
        }
    } else {
        v = (uint32_t)(((unsigned __int128)(rng() >> 32) * n) >> 32);
    }
    shared->choices[k] = v;
    shared->num_choices = k + 1;
    trace_hash = (trace_hash ^ v) * 0x100000001b3ull;
    return v;
}

void note(uint64_t value) {
    trace_hash = (trace_hash ^ value ^ 0x5bd1e995) * 0x100000001b3ull;
    trace_hash ^= trace_hash >> 29;
}
void nontrivial() {
    run_nontrivial = true;
}

void count(const char *name, uint64_t by) {
    for (size_t k = 0; k < shared->num_counters; k++) {
        if (!strcmp(shared->counters[k].name, name)) {
            shared->counters[k].value += by;
            return;
        }
    }
    if (shared->num_counters < MAX_COUNTERS) {
        auto &c = shared->counters[shared->num_counters++];
        snprintf(c.name, sizeof(c.name), "%s", name);
        c.value = by;
    }
}

void logf(const char *fmt, ...) {
    if (!verbose) {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stdout, fmt, ap);
    va_end(ap);
    fputc('\n', stdout);
    fflush(stdout);
}

void describe(const char *fmt, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (verbose) {
        fputs(buf, stdout);
        fputc('\n', stdout);
        fflush(stdout);
    }
    if (shared->samples < 3 && run_description.size() < 3000) {
        run_description += buf;
        run_description += "; ";
    }
}

struct ViolationThrown {};
static bool in_call = false;

[[noreturn]] void violation(const char *kind, const char *fmt, ...) {
    snprintf(shared->kind, sizeof(shared->kind), "%s", kind);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(shared->msg, sizeof(shared->msg), fmt, ap);
    va_end(ap);
    shared->failed = 1;
    shared->hash = trace_hash;
    if (verbose) {
        printf("VIOLATED [%s] %s\n", shared->kind, shared->msg);
        fflush(stdout);
    }
    _exit(10);
}

// --------------------------------------------------------------------------------- event order
static thread_local Order current_order = ORDER_DEFAULT;
static thread_local uint64_t tie_state = 0;
static size_t hook_pick(size_t n) {
    count("ties_decided");
    if (current_order == ORDER_SEEDED) {
        return (size_t)(splitmix(tie_state) % n);
    }
    if (shared->num_choices + 64 > MAX_CHOICES) {
        return n - 1;
    }
    switch (current_order) {
        case ORDER_RANDOM:
            return n - 1 - pick((uint32_t)n);
        case ORDER_MOSTLY_DEFAULT:
            return chance(1, 8) ? n - 1 - pick((uint32_t)n) : n - 1;
        case ORDER_OLDEST:
            return 0;
        default:
            return n - 1;
    }
}
void set_seeded_order(uint32_t seed) {
    tie_state = seed;
    set_order(seed ? ORDER_SEEDED : ORDER_DEFAULT);
}
void set_order(Order o) {
    current_order = o;
    pm::sim_hooks::pick_simultaneous_event = o == ORDER_DEFAULT ? nullptr : hook_pick;
}
const char *order_name(Order o) {
    static const char *names[] = {"default", "random", "mostly-default", "oldest-first", "seeded"};
    return names[o];
}
Order pick_order() {
    static const Order opts[] = {ORDER_DEFAULT, ORDER_RANDOM, ORDER_RANDOM, ORDER_MOSTLY_DEFAULT, ORDER_OLDEST};
    Order o = opts[pick(5)];
    set_order(o);
    return o;
}

// -------------------------------------------------------------------------- steps & allocations
uint64_t default_step_budget = 800'000'000;
static thread_local int64_t steps_left = INT64_MAX;
static thread_local bool sut_active = false;
static thread_local AllocFault *active_fault = nullptr;
static thread_local uint64_t call_allocs = 0;
static bool tracking = false;
constexpr uint64_t LIVE_LIMIT = 6ull << 30;

// Open-addressing table of live blocks allocated inside call().
struct Block {
    void *p;
    size_t n;
};
static Block *table = nullptr;
static size_t table_cap = 0, table_used = 0, table_tomb = 0;
static uint64_t tbl_blocks = 0, tbl_bytes = 0;
static void *const TOMB = (void *)1;
extern "C" void *__real_malloc(size_t);
extern "C" void __real_free(void *);
static size_t slot_of(void *p) {
    uint64_t h = (uint64_t)p * 0x9e3779b97f4a7c15ull;
    return (h >> 20) & (table_cap - 1);
}
static void table_insert(void *p, size_t n);
static void table_grow() {
    Block *old = table;
    size_t old_cap = table_cap;
    table_cap = old_cap ? old_cap * 2 : 1 << 14;
    table = (Block *)__real_malloc(table_cap * sizeof(Block));
    memset((void *)table, 0, table_cap * sizeof(Block));
    table_used = table_tomb = 0;
    tbl_blocks = tbl_bytes = 0;
    for (size_t k = 0; k < old_cap; k++) {
        if (old[k].p && old[k].p != TOMB) {
            table_insert(old[k].p, old[k].n);
        }
    }
    __real_free(old);
}
static void table_insert(void *p, size_t n) {
    if ((table_used + 1) * 2 > table_cap) {
        table_grow();
    }
    size_t s = slot_of(p);
    while (table[s].p && table[s].p != TOMB) {
        s = (s + 1) & (table_cap - 1);
    }
    if (!table[s].p) {
        table_used++;
    }
    table[s] = {p, n};
    tbl_blocks++;
    tbl_bytes += n;
}
static void table_erase(void *p) {
    if (!table_cap) {
        return;
    }
    size_t s = slot_of(p);
    while (table[s].p) {
        if (table[s].p == p) {
            tbl_blocks--;
            tbl_bytes -= table[s].n;
            table[s] = {TOMB, 0};
            return;
        }
        s = (s + 1) & (table_cap - 1);
    }
}
void track_allocations(bool on) {
    tracking = on;
    if (on && table) {
        memset((void *)table, 0, table_cap * sizeof(Block));
        table_used = tbl_blocks = tbl_bytes = 0;
    }
}
uint64_t live_blocks() {
    return tbl_blocks;
}
uint64_t live_bytes() {
    return tbl_bytes;
}

/// Returns true if this allocation has to fail.
static inline bool allocation_fails(size_t n) {
    if (!sut_active) {
        return false;
    }
    if (n > LIVE_LIMIT) {
        return true;
    }
    uint64_t k = call_allocs++;
    if (active_fault && active_fault->fail_at >= 0 && (int64_t)k >= active_fault->fail_at &&
        (int64_t)k < active_fault->fail_at + active_fault->fail_count) {
        active_fault->fired++;
        return true;
    }
    return false;
}
static void *sim_alloc(size_t n) {
    if (allocation_fails(n)) {
        return nullptr;
    }
    void *p = __real_malloc(n ? n : 1);
    if (p && sut_active) {
#ifndef SIM_ASAN
        memset(p, 0xC5, n);  // fresh memory never looks initialised
#endif
        if (tracking) {
            table_insert(p, n);
        }
    }
    return p;
}
static void sim_free(void *p) {
    if (!p) {
        return;
    }
    if (tracking) {
        table_erase(p);
    }
#ifndef SIM_ASAN
    if (sut_active) {
        memset(p, 0xDE, malloc_usable_size(p));  // freed memory never looks alive
    }
#endif
    __real_free(p);
}

const char *status_name(Status s) {
    static const char *names[] = {"ok", "rejected", "out-of-memory", "other-error"};
    return names[s];
}

CallOutcome call(const std::function<void()> &f, AllocFault *fault, uint64_t step_budget) {
    CallOutcome out;
    int64_t budget = (int64_t)(step_budget ? step_budget : default_step_budget);
    call_allocs = 0;
    active_fault = fault;
    steps_left = budget;
    sut_active = true;
    try {
        f();
    } catch (const std::invalid_argument &e) {
        sut_active = false;
        out.status = REJECTED;
        out.what = e.what();
    } catch (const std::bad_alloc &e) {
        sut_active = false;
        out.status = OUT_OF_MEMORY;
        out.what = e.what();
    } catch (const std::exception &e) {
        sut_active = false;
        out.status = OTHER_ERROR;
        out.what = e.what();
    } catch (const Discard &) {
        sut_active = false;
        active_fault = nullptr;
        steps_left = INT64_MAX;
        throw;
    }
    sut_active = false;
    active_fault = nullptr;
    out.steps = (uint64_t)(budget - steps_left);
    out.allocs = call_allocs;
    steps_left = INT64_MAX;
    count("calls");
    count("steps", out.steps);
    return out;
}
}  // namespace sim

namespace sim {
void (*yield_hook)(const void *) = nullptr;
uint64_t current_hash() {
    return trace_hash;
}
void resume_hash(uint64_t h) {
    trace_hash = h;
}
}  // namespace sim
// Memory-access yield points (clang builds).
#define ACCESS(NAME)                                              \
    extern "C" void __sanitizer_cov_##NAME(void *p) {             \
        if (__builtin_expect(sim::yield_hook != nullptr, 0)) {    \
            sim::yield_hook(p);                                   \
        }                                                         \
    }
ACCESS(load1)
ACCESS(load2)
ACCESS(load4)
ACCESS(load8)
ACCESS(load16)
ACCESS(store1)
ACCESS(store2)
ACCESS(store4)
ACCESS(store8)
ACCESS(store16)
extern "C" void __sanitizer_cov_trace_pc() {
    if (__builtin_expect(sim::yield_hook != nullptr, 0)) {
        sim::yield_hook(nullptr);
    }
    if (__builtin_expect(--sim::steps_left < 0, 0)) {
        sim::steps_left = INT64_MAX;
        sim::violation("no-progress", "a call did not finish within its step budget");
    }
}
extern "C" void *__wrap_malloc(size_t n) {
    return sim::sim_alloc(n);
}
extern "C" void __wrap_free(void *p) {
    sim::sim_free(p);
}
void *operator new(size_t n) {
    void *p = sim::sim_alloc(n);
    if (!p) {
        throw std::bad_alloc();
    }
    return p;
}
void *operator new[](size_t n) {
    return operator new(n);
}
void *operator new(size_t n, const std::nothrow_t &) noexcept {
    return sim::sim_alloc(n);
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
    return sim::sim_alloc(n);
}
void operator delete(void *p) noexcept {
    sim::sim_free(p);
}
void operator delete[](void *p) noexcept {
    sim::sim_free(p);
}
void operator delete(void *p, size_t) noexcept {
    sim::sim_free(p);
}
void operator delete[](void *p, size_t) noexcept {
    sim::sim_free(p);
}

// ------------------------------------------------------------------------------------ supervisor
namespace sim {

static World world_fn = nullptr;
static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

#ifndef WATCHDOG_S
#define WATCHDOG_S 25
#endif
/// CPU time of one run; only a backstop (for loops in code without step hooks), the step budget decides progress.
static void arm_watchdog(int seconds) {
    itimerval tv{};
    tv.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &tv, nullptr);
}

/// Runs the world once, in this process. Returns false if the run was discarded.
static bool run_once(uint64_t seed, bool replay) {
    arm_watchdog(WATCHDOG_S);
    replaying = replay;
    uint64_t x = seed;
    for (auto &s : rng_state) {
        s = splitmix(x);
    }
    trace_hash = 0xcbf29ce484222325ull;
    run_nontrivial = false;
    run_description.clear();
    shared->seed = seed;
    shared->num_choices = 0;
    shared->in_run = 1;
    set_order(ORDER_DEFAULT);
    default_step_budget = 800'000'000;
    bool ok = true;
    try {
        world_fn();
    } catch (const Discard &) {
        ok = false;
    }
    set_order(ORDER_DEFAULT);
    track_allocations(false);
    shared->hash = trace_hash;
    shared->in_run = 0;
    return ok;
}

struct RunResult {
    bool failed = false;
    std::string kind, msg;
    uint64_t hash = 0;
    std::vector<uint32_t> choices;
};

/// Waits for a child that runs the world; turns crashes into violations.
static RunResult wait_child(pid_t pid) {
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    RunResult r;
    r.choices.assign(shared->choices, shared->choices + std::min<uint64_t>(shared->num_choices, MAX_CHOICES));
    r.hash = shared->hash;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        return r;
    }
    r.failed = true;
    if (shared->failed) {
        r.kind = shared->kind;
        r.msg = shared->msg;
    } else if (WIFSIGNALED(st)) {
        int sig = WTERMSIG(st);
        if (sig == SIGALRM || sig == SIGVTALRM || sig == SIGPROF) {
            r.kind = "watchdog";
            r.msg = "the run exceeded the watchdog's CPU time";
        } else {
            r.kind = "crash";
            r.msg = std::string("the process died: ") + strsignal(sig);
        }
    } else {
        r.kind = "crash";
        r.msg = "the process ended with status " + std::to_string(WEXITSTATUS(st)) +
                " inside a run (memory error report or abnormal exit)";
    }
    return r;
}

static void child_setup(bool quiet) {
    if (quiet) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 2);
        close(fd);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

/// Replays a list of choices in a forked child. A prelude is a list of seeds run first in the same
/// process; it is only used when code under test keeps state from one graph to the next.
static std::vector<uint64_t> prelude;
static RunResult run_replay_forked(const std::vector<uint32_t> &choices, bool quiet = true) {
    shared->failed = 0;
    shared->in_run = 0;
    shared->num_choices = 0;
    shared->hash = 0;
    pid_t pid = fork();
    if (pid == 0) {
        child_setup(quiet);
        bool v = verbose;
        verbose = false;
        for (uint64_t s : prelude) {
            run_once(s, false);
        }
        verbose = v;
        replay_choices = choices;
        run_once(0, true);
        _exit(0);
    }
    return wait_child(pid);
}

static std::vector<uint32_t> minimise(std::vector<uint32_t> best, const std::string &kind, double seconds, uint64_t &tries) {
    double end = now() + seconds;
    auto attempt = [&](const std::vector<uint32_t> &c) {
        tries++;
        RunResult r = run_replay_forked(c);
        if (r.failed && r.kind == kind) {
            // Keep what was actually consumed.
            std::vector<uint32_t> used = r.choices;
            if (used.size() > c.size()) {
                used.resize(c.size());
            }
            while (!used.empty() && used.back() == 0) {
                used.pop_back();
            }
            best = used;
            return true;
        }
        return false;
    };
    while (!best.empty() && best.back() == 0) {
        best.pop_back();
    }
    bool improved = true;
    while (improved && now() < end) {
        improved = false;
        // Delete chunks.
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for (size_t i = best.size(); i > 0 && now() < end;) {
                size_t start = i >= len ? i - len : 0;
                if (start + 1 > best.size()) {
                    i = best.size();
                    continue;
                }
                auto c = best;
                c.erase(c.begin() + start, c.begin() + std::min(start + len, c.size()));
                if (attempt(c)) {
                    improved = true;
                    i = std::min(start, best.size());
                } else {
                    i = start;
                }
            }
            if (len == 1 || now() >= end) {
                break;
            }
        }
        // Zero chunks.
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for (size_t start = 0; start < best.size() && now() < end; start += len) {
                auto c = best;
                bool any = false;
                for (size_t k = start; k < std::min(start + len, c.size()); k++) {
                    any |= c[k] != 0;
                    c[k] = 0;
                }
                if (any && attempt(c)) {
                    improved = true;
                }
            }
            if (len == 1 || now() >= end) {
                break;
            }
        }
        // Lower values.
        for (size_t k = 0; k < best.size() && now() < end; k++) {
            uint32_t lo = 0;
            while (k < best.size() && best[k] > lo && now() < end) {
                auto c = best;
                c[k] = lo + (best[k] - lo) / 2;
                if (attempt(c)) {
                    improved = true;
                } else {
                    lo = lo + (k < best.size() ? (best[k] - lo) / 2 : 0) + 1;
                }
            }
        }
    }
    return best;
}

static std::string json_escape(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += (char)c;
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof(b), "\\u%04x", c);
            r += b;
        } else {
            r += (char)c;
        }
    }
    return r;
}

static int cmd_explore(
    const std::string &world, uint64_t seed_base, uint64_t worker, uint64_t workers, double seconds, uint64_t max_runs,
    const std::string &out_prefix, double shrink_seconds) {
    double start = now();
    std::unordered_set<uint64_t> distinct;
    uint64_t next = worker;
    RunResult failure;
    // The child explores; if it dies it takes the distinct-hash set with it, so hashes go to a file.
    std::string hash_path = out_prefix + ".hashes";
    shared->failed = 0;
    pid_t pid = fork();
    if (pid == 0) {
        child_setup(true);
        FILE *hf = fopen(hash_path.c_str(), "wb");
        uint64_t n = 0;
        while (now() - start < seconds && n < max_runs) {
            uint64_t seed = seed_base * 0x1000003ull + next;
            next += workers;
            bool ok = run_once(seed, false);
            n++;
            shared->runs++;
            if (!ok) {
                shared->discarded++;
                continue;
            }
            if (run_nontrivial) {
                shared->nontrivial++;
                if (distinct.size() < 500000 && distinct.insert(shared->hash).second) {
                    fwrite(&shared->hash, 8, 1, hf);
                }
                if (shared->samples < 3) {
                    snprintf(
                        shared->sample_text[shared->samples], sizeof(shared->sample_text[0]), "seed %llu: %s",
                        (unsigned long long)seed, run_description.c_str());
                    shared->samples++;
                }
            }
            if (n % 50 == 1) {
                // Same seed again, and its recorded choices again: the trace must be identical.
                uint64_t h = shared->hash;
                std::vector<uint32_t> rec(shared->choices, shared->choices + shared->num_choices);
                run_once(seed, false);
                bool same = shared->hash == h;
                replay_choices = rec;
                run_once(seed, true);
                same &= shared->hash == h;
                shared->rechecked++;
                if (!same) {
                    shared->nondeterministic++;
                }
            }
        }
        fclose(hf);
        _exit(0);
    }
    failure = wait_child(pid);
    uint64_t fail_seed = shared->seed;
    double explore_wall = now() - start;
    Shared &snap_hdr = *(Shared *)__real_malloc(sizeof(Shared));
    memcpy((void *)&snap_hdr, shared, offsetof(Shared, choices));

    bool reproduced = false;
    uint64_t tries = 0;
    std::vector<uint32_t> minimal;
    RunResult final_result;
    if (failure.failed && snap_hdr.in_run) {
        // Gate: the recorded choices must reproduce the same class of violation, twice, in fresh processes.
        RunResult a = run_replay_forked(failure.choices);
        RunResult b = run_replay_forked(failure.choices);
        tries += 2;
        // If not, state from earlier runs in the process may matter: replay growing prefixes of them.
        for (uint64_t n = 1; !(a.failed && b.failed) && n <= 4096 && now() - start < seconds + 60; n *= 4) {
            prelude.clear();
            uint64_t avail = (fail_seed - seed_base * 0x1000003ull) / workers;
            for (uint64_t k = std::min(n, avail); k >= 1; k--) {
                prelude.push_back(fail_seed - k * workers);
            }
            a = run_replay_forked(failure.choices);
            b = run_replay_forked(failure.choices);
            tries += 2;
            if (n >= avail) {
                break;
            }
        }
        if (a.failed && b.failed && a.kind == failure.kind && b.kind == failure.kind) {
            reproduced = true;
            minimal = failure.kind == "watchdog" ? failure.choices
                                                : minimise(failure.choices, failure.kind, shrink_seconds, tries);
            if (failure.kind != "watchdog")
                final_result = run_replay_forked(minimal);
            if (!(final_result.failed && final_result.kind == failure.kind)) {
                minimal = failure.choices;
                final_result = a;
            }
        }
    }
    std::ofstream o(out_prefix + ".json");
    o << "{\"world\":\"" << world << "\",\"runs\":" << snap_hdr.runs << ",\"nontrivial\":" << snap_hdr.nontrivial
      << ",\"discarded\":" << snap_hdr.discarded << ",\"rechecked\":" << snap_hdr.rechecked
      << ",\"nondeterministic\":" << snap_hdr.nondeterministic << ",\"wall\":" << explore_wall << ",\"counters\":{";
    for (size_t k = 0; k < snap_hdr.num_counters; k++) {
        o << (k ? "," : "") << "\"" << json_escape(snap_hdr.counters[k].name) << "\":" << snap_hdr.counters[k].value;
    }
    o << "},\"samples\":[";
    for (size_t k = 0; k < snap_hdr.samples; k++) {
        o << (k ? "," : "") << "\"" << json_escape(snap_hdr.sample_text[k]) << "\"";
    }
    o << "],\"failed\":" << (failure.failed ? "true" : "false");
    if (failure.failed) {
        o << ",\"in_run\":" << (snap_hdr.in_run ? "true" : "false") << ",\"seed\":" << fail_seed << ",\"kind\":\""
          << json_escape(failure.kind) << "\",\"msg\":\"" << json_escape(failure.msg)
          << "\",\"reproduced\":" << (reproduced ? "true" : "false") << ",\"tries\":" << tries
          << ",\"original_len\":" << failure.choices.size();
        if (reproduced) {
            o << ",\"final_msg\":\"" << json_escape(final_result.msg) << "\",\"final_hash\":\"" << final_result.hash
              << "\",\"prelude\":[";
            for (size_t k = 0; k < prelude.size(); k++) {
                o << (k ? "," : "") << prelude[k];
            }
            o << "],\"choices\":[";
            for (size_t k = 0; k < minimal.size(); k++) {
                o << (k ? "," : "") << minimal[k];
            }
            o << "]";
        }
    }
    o << "}\n";
    return 0;
}

/// Replays a file of choices (whitespace-separated numbers, "p<seed>" for the prelude), verbosely.
/// Exit 10 on violation.
static int cmd_replay(const std::string &path, bool quiet) {
    std::ifstream in(path);
    std::vector<uint32_t> c;
    std::string tok;
    while (in >> tok) {
        if (tok[0] == 'p') {
            prelude.push_back(strtoull(tok.c_str() + 1, nullptr, 10));
        } else {
            c.push_back((uint32_t)strtoull(tok.c_str(), nullptr, 10));
        }
    }
    verbose = !quiet;
    RunResult r = run_replay_forked(c, false);
    printf("RESULT %s hash=%llu kind=%s msg=%s\n", r.failed ? "violation" : "held", (unsigned long long)r.hash,
           r.kind.c_str(), r.msg.c_str());
    return r.failed ? 10 : 0;
}

}  // namespace sim

int main(int argc, char **argv) {
    using namespace sim;
    // Same address-space layout in every process, where the sandbox allows it.
    if (!getenv("SIM_NO_REEXEC")) {
        setenv("SIM_NO_REEXEC", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1) {
            execv("/proc/self/exe", argv);
        }
    }
    shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::map<std::string, std::string> a;
    for (int k = 2; k + 1 < argc; k += 2) {
        a[argv[k]] = argv[k + 1];
    }
    std::string cmd = argc > 1 ? argv[1] : "";
    for (auto &w : worlds()) {
        if (a["--world"] == w.name) {
            world_fn = w.fn;
        }
    }
    if (cmd == "rule") {
        for (auto &w : worlds()) {
            if (a["--world"] == w.name) {
                puts(w.rule);
            }
        }
        return 0;
    }
    if (!world_fn) {
        fprintf(stderr, "unknown world\n");
        return 2;
    }
    auto num = [&](const char *k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
    if (cmd == "explore") {
        return cmd_explore(
            a["--world"], (uint64_t)num("--seed", 1), (uint64_t)num("--worker", 0), (uint64_t)num("--workers", 1),
            num("--seconds", 10), (uint64_t)num("--max-runs", 1e15), a["--out"], num("--shrink", 40));
    }
    if (cmd == "replay") {
        return cmd_replay(a["--file"], a["--quiet"] == "1");
    }
    if (cmd == "one") {
        verbose = true;
        run_once((uint64_t)num("--seed", 1), false);
        printf("hash=%llu choices=%llu\n", (unsigned long long)shared->hash, (unsigned long long)shared->num_choices);
        return 0;
    }
    return 2;
}
