// World C07: threads with a decoder each. Real threads, one runs at a time; a baton decides at every
// basic block and memory access of the code under test who runs next. Each run happens in a process
// of its own in which no function-local static has been initialised yet.
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>

#include "dem.h"
#include "refgraph.h"
#include "sut.h"

extern char __data_start, _end;

namespace sim {

// ------------------------------------------------------------------------------------ programs
enum OpKind { OP_DECODE, OP_PATH, OP_EDIT, OP_QUERY, OP_REBUILD, OP_COPY };
struct Op {
    OpKind kind;
    Api api = API_OBS;
    std::vector<uint64_t> dets;
    size_t src = 0, dst = 0;
    Edit edit;
    uint32_t tie_seed = 0;
    int64_t fail_alloc = -1;
};
struct Program {
    MGraph g;
    MDem dem;
    bool from_dem = false;
    int style = 0;
    std::vector<Op> ops;
};
constexpr int MAX_THREADS = 4, MAX_OPS = 12;
struct Record {
    uint64_t hash;
    char text[256];
};
struct Board {  // shared between the forked processes
    uint64_t yields[MAX_THREADS];
    Record solo[MAX_THREADS][MAX_OPS];
    uint64_t num_solo[MAX_THREADS];
    uint32_t finished;
};
static Board *board = nullptr;

static uint64_t fnv(const std::string &s) {
    uint64_t h = 0xcbf29ce484222325ull;
    for (unsigned char c : s) {
        h = (h ^ c) * 0x100000001b3ull;
    }
    return h;
}

static std::unique_ptr<pm::UserGraph> build(const Program &p) {
    if (!p.from_dem) {
        return build_graph(p.g, p.style);
    }
    std::unique_ptr<pm::UserGraph> r;
    CallOutcome c = call([&] {
        r.reset(new pm::UserGraph(pm::detector_error_model_to_user_graph(
            stim::DetectorErrorModel(p.dem.text), true, pm::NUM_DISTINCT_WEIGHTS)));
    });
    if (c.status != OK) {
        violation("build-failed", "loading a valid error model failed: %s\n%s", c.what.c_str(), p.dem.text.c_str());
    }
    return r;
}

/// Runs a program in the calling thread; `emit` gets one line per operation.
template <typename F>
static void run_program(const Program &p, const F &emit) {
    std::unique_ptr<pm::UserGraph> ug = build(p);
    size_t num_obs = ug->get_num_observables();
    emit("built " + std::to_string(ug->get_num_nodes()) + " nodes " + std::to_string(ug->get_num_edges()) + " edges");
    for (auto &op : p.ops) {
        set_seeded_order(op.tie_seed);
        AllocFault f;
        f.fail_at = op.fail_alloc;
        std::string line;
        switch (op.kind) {
            case OP_DECODE: {
                pm::Mwpm *m = nullptr;
                bool search = op.api != API_OBS && op.api != API_OBS64 && op.api != API_PAIRS;
                CallOutcome c = call([&] {
                    m = search || num_obs > 64 ? &ug->get_mwpm_with_search_graph() : &ug->get_mwpm();
                });
                if (c.status != OK) {
                    line = "decoder: " + c.what;
                    break;
                }
                num_obs = ug->get_num_observables();
                Result r = decode(*m, num_obs, op.api, op.dets, f.fail_at >= 0 ? &f : nullptr);
                line = std::string(api_name(op.api)) + dets_str(op.dets) + " -> " + r.str() + " " + std::to_string(r.raw_weight);
                for (auto x : r.pair_masks) {
                    line += " " + std::to_string(x);
                }
                break;
            }
            case OP_PATH: {
                std::vector<size_t> nodes;
                CallOutcome c = call([&] { ug->get_nodes_on_shortest_path_from_source(op.src, op.dst, nodes); });
                line = std::string("path -> ") + status_name(c.status);
                for (auto x : nodes) {
                    line += " " + std::to_string(x);
                }
                break;
            }
            case OP_EDIT: {
                CallOutcome c = apply_edit(*ug, op.edit, f.fail_at >= 0 ? &f : nullptr);
                num_obs = ug->get_num_observables();
                line = op.edit.str() + " -> " + status_name(c.status) + " " + c.what.substr(0, 60);
                break;
            }
            case OP_QUERY: {
                CallOutcome c = call([&] {
                    line = "nodes " + std::to_string(ug->get_num_nodes()) + " edges " + std::to_string(ug->get_num_edges()) +
                           " detectors " + std::to_string(ug->get_num_detectors()) + " obs " +
                           std::to_string(ug->get_num_observables());
                    for (auto &e : ug->edges) {
                        char b[96];
                        snprintf(b, sizeof(b), " %zd-%zd:%.9g/%.9g", (ssize_t)e.node1, (ssize_t)e.node2, e.weight,
                                 e.error_probability);
                        line += b;
                    }
                });
                break;
            }
            case OP_REBUILD:
                call([&] { ug.reset(); });
                ug = build(p);
                line = "rebuilt";
                break;
            case OP_COPY: {
                // A second decoder of the same thread, used once.
                auto other = build(p);
                pm::Mwpm *m = nullptr;
                CallOutcome c = call([&] { m = &other->get_mwpm_with_search_graph(); });
                Result r = decode(*m, other->get_num_observables(), op.api, op.dets);
                line = std::string("other decoder: ") + api_name(op.api) + dets_str(op.dets) + " -> " + r.str();
                call([&] { other.reset(); });
                break;
            }
        }
        set_order(ORDER_DEFAULT);
        count("fault:allocation_failed", f.fired);
        emit(line);
    }
    call([&] { ug.reset(); });
    emit("destroyed");
}

// ----------------------------------------------------------------------------------- scheduler
struct Thread {
    sem_t go;
    bool done = false;
};
static Thread threads[MAX_THREADS];
static int num_threads = 0;
static sem_t all_done;
static thread_local int self = -1;
static uint64_t my_yields_solo = 0;
static bool scheduling = false;
static uint64_t countdown = 0;
static int policy = 0;
static int mean_bits = 0;
static std::vector<uint64_t> change_points;  // policy 1: switch at these points of simulated progress
static uint64_t progress = 0;
static uint64_t switches = 0;
static int hot_denominator = 0;

static int pick_other() {
    int alive[MAX_THREADS], n = 0;
    for (int k = 1; k <= num_threads; k++) {
        int t = (self + k + num_threads) % num_threads;
        if (t != self && !threads[t].done) {
            alive[n++] = t;
        }
    }
    return n ? alive[pick((uint32_t)n)] : -1;
}
static void refill() {
    if (policy == 1) {
        while (!change_points.empty() && change_points.back() <= progress) {
            change_points.pop_back();
        }
        countdown = change_points.empty() ? UINT64_MAX : change_points.back() - progress;
        return;
    }
    countdown = 1 + pick(1u << (1 + pick((uint32_t)mean_bits)));
}
static void switch_to(int t) {
    switches++;
    count("thread_switches");
    int me = self;
    sem_post(&threads[t].go);
    while (sem_wait(&threads[me].go) != 0) {
    }
}
static void yield(const void *addr) {
    if (self < 0) {
        return;
    }
    if (!scheduling) {
        my_yields_solo++;
        return;
    }
    progress++;
    bool hot = hot_denominator && addr >= (const void *)&__data_start && addr < (const void *)&_end;
    if (__builtin_expect(--countdown > 0 && !hot, 1)) {
        return;
    }
    if (hot) {
        count("accesses_to_global_data");
        if (switches > 20000 || pick((uint32_t)hot_denominator) == 0) {
            if (countdown == 0) {
                countdown = 1;
            }
            return;
        }
    }
    int t = pick_other();
    refill();
    if (t >= 0) {
        switch_to(t);
    }
}
/// The running thread cannot go on until another has moved.
static void wait_for_others(const char *what) {
    static uint64_t fruitless = 0;
    int t = pick_other();
    if (t < 0 || ++fruitless > 200000) {
        violation("deadlock", "a thread waits for %s that nobody will release", what);
    }
    refill();
    switch_to(t);
}

static const std::vector<Program> *progs = nullptr;
static void *thread_main(void *arg) {
    int me = (int)(intptr_t)arg;
    while (sem_wait(&threads[me].go) != 0) {
    }
    self = me;
    size_t k = 0;
    run_program((*progs)[me], [&](const std::string &line) {
        // Only the baton holder is here.
        if (verbose) {
            int s = self;
            self = -1;
            logf("  thread %d: %s", me, line.c_str());
            self = s;
        }
        note(fnv(line) + (uint64_t)me);
        if (k >= board->num_solo[me] || board->solo[me][k].hash != fnv(line)) {
            violation("interference", "thread %d, operation %zu: \"%s\" instead of \"%s\" when alone (graph %s)", me, k,
                      line.substr(0, 700).c_str(), k < board->num_solo[me] ? board->solo[me][k].text : "nothing",
                      (*progs)[me].from_dem ? (*progs)[me].dem.text.c_str() : (*progs)[me].g.str().c_str());
        }
        k++;
    });
    // From here on only the scheduler runs.
    threads[me].done = true;
    int t = pick_other();
    self = -1;
    if (t >= 0) {
        sem_post(&threads[t].go);
    } else {
        sem_post(&all_done);
    }
    return nullptr;
}

// Blocking primitives of the code under test give the baton away instead of blocking.
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (self < 0 || !scheduling) {
        return __real_pthread_mutex_lock(m);
    }
    int r;
    while ((r = pthread_mutex_trylock(m)) == EBUSY) {
        wait_for_others("a mutex");
    }
    return r;
}
extern "C" int __real___cxa_guard_acquire(uint8_t *);
extern "C" void __real___cxa_guard_release(uint8_t *);
extern "C" void __real___cxa_guard_abort(uint8_t *);
static uint8_t *initialising[64];
extern "C" int __wrap___cxa_guard_acquire(uint8_t *g) {
    if (self >= 0 && scheduling) {
        while (std::find(initialising, initialising + 64, g) != initialising + 64) {
            wait_for_others("an initialisation");
        }
    }
    int r = __real___cxa_guard_acquire(g);
    if (r && self >= 0 && scheduling) {
        *std::find(initialising, initialising + 63, nullptr) = g;
    }
    return r;
}
static void initialised(uint8_t *g) {
    for (auto &x : initialising) {
        if (x == g) {
            x = nullptr;
        }
    }
}
extern "C" void __wrap___cxa_guard_release(uint8_t *g) {
    initialised(g);
    __real___cxa_guard_release(g);
}
extern "C" void __wrap___cxa_guard_abort(uint8_t *g) {
    initialised(g);
    __real___cxa_guard_abort(g);
}

// --------------------------------------------------------------------------------------- world
static Program gen_program() {
    Program p;
    if (chance(1, 3)) {
        DemOptions o;
        o.correlations = true;
        o.max_obs = chance(1, 4) ? 70 : 3;
        o.max_dets = 6;
        p.dem = gen_dem(o);
        p.g = dem_to_graph(p.dem);
        p.from_dem = true;
    } else {
        GenOptions o;
        o.max_nodes = chance(1, 4) ? 14 : 7;
        o.max_edges = 2 * o.max_nodes;
        o.max_obs = chance(1, 4) ? 70 : 5;
        o.gauge = true;
        o.allow_fractional = chance(1, 4);
        p.g = gen_graph(o);
        p.style = pick(3);
    }
    int n = range(1, 8);
    RefGraph ref;
    ref.n = p.g.n;
    ref.palette = p.g.palette;
    for (int k = 0; k < n; k++) {
        Op op;
        op.tie_seed = chance(1, 3) ? 1 + pick(1u << 20) : 0;
        int what = (int)pick(16);
        if (what < 10) {
            op.kind = OP_DECODE;
            static const Api apis[] = {API_OBS, API_EDGES, API_PAIRS, API_OBS_CORR, API_EDGES_CORR, API_OBS64, API_OBS};
            op.api = apis[pick(7)];
            if (op.api == API_OBS64 && p.g.num_obs > 64) {
                op.api = API_OBS;
            }
            op.dets = gen_syndrome(p.g, 8);
            if (chance(1, 12)) {
                op.dets.push_back((uint64_t)p.g.n + 5);
            }
            if (chance(1, 10)) {
                op.fail_alloc = (int64_t)pick(12);
            }
        } else if (what < 12) {
            op.kind = OP_PATH;
            op.src = chance(1, 5) ? SIZE_MAX : pick(p.g.n);
            op.dst = chance(1, 5) ? SIZE_MAX : pick(p.g.n);
        } else if (what < 14) {
            op.kind = OP_EDIT;
            op.edit.kind = (int)pick(3);
            op.edit.u = (int)pick(p.g.n);
            op.edit.v = (int)pick(p.g.n);
            op.edit.w = range(-3, 9);
            op.edit.p = chance(1, 2) ? -1 : 0.1;
            op.edit.strategy = (int)pick(5);
            op.edit.boundary = {(size_t)pick(p.g.n)};
        } else if (what == 14) {
            op.kind = OP_QUERY;
        } else if (chance(1, 2)) {
            op.kind = OP_REBUILD;
        } else {
            op.kind = OP_COPY;
            op.api = chance(1, 2) ? API_OBS : API_EDGES;
            op.dets = gen_syndrome(p.g, 8);
        }
        p.ops.push_back(op);
    }
    return p;
}

static void wait_for(pid_t pid, const char *what) {
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        return;
    }
    if (WIFEXITED(st) && shared->failed) {
        _exit(10);
    }
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) {
        // Blocked on something the scheduler does not know: no verdict.
        count("undecided_blocked_runs");
        throw Discard{};
    }
    violation("crash", "%s: the process died: %s", what,
              WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "memory error report or abnormal exit");
}

void world_c07() {
    if (!board) {
        board = (Board *)mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    int T = chance(1, 3) ? range(2, 4) : 2;
    std::vector<Program> ps;
    for (int t = 0; t < T; t++) {
        if (t && chance(1, 4)) {
            ps.push_back(ps[pick((uint32_t)t)]);  // the same program twice
        } else {
            ps.push_back(gen_program());
        }
    }
    for (int t = 0; t < T; t++) {
        describe("thread %d: %s, %zu operations", t, ps[t].from_dem ? ps[t].dem.text.c_str() : ps[t].g.str().c_str(), ps[t].ops.size());
    }
    // Alone.
    memset((void *)board, 0, sizeof(Board));
    uint64_t longest = 0, total = 0;
    for (int t = 0; t < T; t++) {
        pid_t pid = fork();
        if (pid == 0) {
            alarm(60);
            self = t;
            yield_hook = yield;
            my_yields_solo = 0;
            run_program(ps[t], [&](const std::string &line) {
                uint64_t &k = board->num_solo[t];
                if (k < MAX_OPS) {
                    board->solo[t][k].hash = fnv(line);
                    snprintf(board->solo[t][k].text, sizeof(board->solo[t][k].text), "%s", line.c_str());
                    k++;
                }
            });
            yield_hook = nullptr;
            board->yields[t] = my_yields_solo;
            _exit(0);
        }
        wait_for(pid, "a program running alone");
        longest = std::max(longest, board->yields[t]);
        total += board->yields[t];
    }
    if (total > 4000000) {
        throw Discard{};
    }
    count("yield_points", total);
    // Together.
    policy = (int)pick(3) == 2;
    hot_denominator = chance(3, 4) ? 2 + (int)pick(3) : 0;
    if (policy == 1) {
        int d = range(1, 8);
        change_points.clear();
        for (int k = 0; k < d; k++) {
            change_points.push_back(1 + pick((uint32_t)std::max<uint64_t>(2, total)));
        }
        std::sort(change_points.rbegin(), change_points.rend());
    } else {
        // Switch every 2^1 .. 2^mean_bits points, but not more than some thousand times in all.
        int lo = 1;
        while ((total >> lo) > 4000) {
            lo++;
        }
        mean_bits = lo + 1 + (int)pick(10);
    }
    describe("policy %s", policy ? "few switches" : "random quanta");
    pid_t pid = fork();
    if (pid == 0) {
        alarm(60);
        progs = &ps;
        num_threads = T;
        switches = progress = 0;
        sem_init(&all_done, 0, 0);
        std::vector<pthread_t> ids(T);
        for (int t = 0; t < T; t++) {
            threads[t].done = false;
            sem_init(&threads[t].go, 0, 0);
            pthread_create(&ids[t], nullptr, thread_main, (void *)(intptr_t)t);
        }
        scheduling = true;
        refill();
        int first = (int)pick((uint32_t)T);
        yield_hook = yield;
        sem_post(&threads[first].go);
        while (sem_wait(&all_done) != 0) {
        }
        yield_hook = nullptr;
        for (auto id : ids) {
            pthread_join(id, nullptr);
        }
        shared->hash = current_hash();
        board->finished = (uint32_t)std::min<uint64_t>(switches, 1u << 30);
        _exit(0);
    }
    wait_for(pid, "threads running together");
    resume_hash(shared->hash);
    if (board->finished) {
        nontrivial();
    }
}

}  // namespace sim
