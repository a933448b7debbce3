// Worlds about simulated time: C10 (event queue and wake-ups), C12 (progress), C17 (weights at every
// scale and distance).
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>

#include "pymatching/sparse_blossom/tracker/queued_event_tracker.h"
#include "pymatching/sparse_blossom/tracker/radix_heap_queue.h"
#include <sys/resource.h>

#include "sut.h"

namespace sim {

// ----------------------------------------------------------------------------------------- C10
typedef pm::cyclic_time_int ctime_int;
constexpr int64_t REACH = (int64_t)0x7FFFFFFF;  // furthest an event may lie ahead of the clock

static int64_t gen_delay() {
    switch (pick(9)) {
        case 0:
            return 0;
        case 1:
            return range(0, 3);
        case 2:
            return range(0, 40);
        case 3:
            return (int64_t)1 << pick(31);
        case 4:
            return ((int64_t)1 << pick(31)) - 1;
        case 5:
            return (int64_t)pick(1u << 24);
        case 6:
            return (int64_t)pick((uint32_t)REACH);
        case 7:
            return REACH - (int64_t)pick(4);
        default:
            return 2 * (int64_t)pick(200);
    }
}

static char targets[256];
static pm::FloodCheckEvent make_event(int id, int64_t t) {
    ctime_int ct{t};
    switch (id % 3) {
        case 0:
            return pm::FloodCheckEvent((pm::DetectorNode *)(void *)&targets[id], ct);
        case 1:
            return pm::FloodCheckEvent((pm::GraphFillRegion *)(void *)&targets[id], ct);
        default:
            return pm::FloodCheckEvent((pm::SearchDetectorNode *)(void *)&targets[id], ct);
    }
}
static int event_id(const pm::FloodCheckEvent &e) {
    void *p = nullptr;
    int want = -1;
    switch (e.tentative_event_type) {
        case pm::LOOK_AT_NODE:
            p = (void *)e.data_look_at_node;
            want = 0;
            break;
        case pm::LOOK_AT_SHRINKING_REGION:
            p = (void *)e.data_look_at_shrinking_region;
            want = 1;
            break;
        case pm::LOOK_AT_SEARCH_NODE:
            p = (void *)e.data_look_at_search_node;
            want = 2;
            break;
        default:
            return -1;
    }
    int64_t id = (char *)p - targets;
    return id >= 0 && id < 256 && id % 3 == want ? (int)id : -1;
}

template <bool V>
static int64_t advance_clock(pm::radix_heap_queue<V> &q) {
    // Moves the clock of an empty queue to a drawn origin the only way a clock moves: by events.
    static const int64_t origins[] = {0, 1 << 24, (1ll << 31), (1ll << 32), (1ll << 33), 3ll << 31, 5ll << 32, 1ll << 36};
    int64_t target = origins[pick(8)];
    int64_t off = chance(1, 2) ? 0 : chance(1, 2) ? (int64_t)pick(64) : (int64_t)pick(1u << 20);
    target = std::max<int64_t>(0, target - off);
    int64_t now = 0;
    while (now < target) {
        int64_t step = std::min<int64_t>(REACH - 1, target - now);
        now += step;
        q.enqueue(make_event(0, now));
        auto e = q.dequeue();
        if (event_id(e) != 0 || e.time != ctime_int{now} || q.cur_time != now) {
            violation("wrong-clock", "a single event for time %lld left the clock at %lld", (long long)now,
                      (long long)q.cur_time);
        }
    }
    return now;
}

/// Times within half a turn of each other compare, add up and widen as the 64-bit times they stand for.
static void check_times(int64_t a, int64_t b) {
    typedef pm::cyclic_time_int C;
    C x{a}, y{b};
    bool ok = (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) &&
              (x == y) == (a == b) && (x != y) == (a != b) && y.widen_from_nearby_reference(a) == b &&
              x.widen_from_nearby_reference(b) == a && x + C{b - a} == y && y - C{b - a} == x;
    x += b - a;
    if (!ok || x != y) {
        violation("wrong-time", "the times %lld and %lld do not compare, add up or widen as they should", (long long)a, (long long)b);
    }
}

template <bool V>
static void queue_world() {
    pm::radix_heap_queue<V> q;
    std::multimap<int64_t, int> ref;  // scheduled time -> id
    int64_t now = 0;
    CallOutcome c = call([&] { now = advance_clock(q); });
    int ops = chance(1, 200) ? range(300, 1500) : range(2, 60);
    size_t room = ops > 60 ? 2000 : 250;
    if (chance(1, 300)) {
        // A crowded queue, filled without a choice per event.
        size_t n = chance(1, 12) ? 65500 + pick(1000) : 200 + pick(400);
        uint32_t lcg = 1 + pick(1000000), spread = 1u << pick(31);
        for (size_t k = 0; k < n; k++) {
            lcg = lcg * 1664525u + 1013904223u;
            int64_t t = now + (lcg >> 1) % spread;
            int id = (int)(lcg >> 16) % 250;
            c = call([&] { q.enqueue(make_event(id, t)); });
            if (c.status != OK) {
                violation("rejected-event", "event %zu was refused: %s", k, c.what.c_str());
            }
            ref.insert({t, id});
        }
        room = n + 200;
        count(n > 1000 ? "queues_of_65500_events" : "queues_of_hundreds_of_events");
    }
    describe("queue at clock %lld, %d operations", (long long)now, ops);
    uint32_t bias = 1 + pick(4);
    bool wrapped = false;
    for (int k = 0; k < ops || !ref.empty(); k++) {
        bool drain = k >= ops;
        if (!drain && (ref.empty() || chance(bias, 5)) && ref.size() < room) {
            int64_t d = gen_delay();
            int id = pick(250);
            // Everything in the queue stays within reach of the clock, as the queue requires.
            int64_t t = now + d;
            logf("enqueue %d at %lld", id, (long long)t);
            check_times(now, t);
            check_times(t, now);
            c = call([&] { q.enqueue(make_event(id, t)); });
            if (c.status != OK) {
                violation("rejected-event", "an event %lld after the clock %lld was refused: %s", (long long)d,
                          (long long)now, c.what.c_str());
            }
            ref.insert({t, id});
            count("events_scheduled");
            if ((t >> 32) != (now >> 32)) {
                wrapped = true;
            }
        } else if (V && !drain && chance(1, 12)) {
            // The validating queue refuses events before the clock.
            int64_t t = now - 1 - (chance(1, 2) ? (int64_t)pick(4) : (int64_t)pick((uint32_t)REACH - 4));
            c = call([&] { q.enqueue(make_event(0, t)); });
            count("events_before_the_clock_refused");
            if (c.status != REJECTED) {
                violation("accepted-past-event", "the validating queue took an event for %lld at clock %lld", (long long)t,
                          (long long)now);
            }
        } else if (!drain && chance(1, 25)) {
            logf("clear");
            call([&] { q.clear(); });
            ref.clear();
            count("queue_clears");
        } else if (!drain && chance(1, 60)) {
            logf("reset");
            call([&] { q.reset(); });
            ref.clear();
            now = 0;
        } else {
            std::unique_ptr<pm::FloodCheckEvent> e;
            c = call([&] { e.reset(new pm::FloodCheckEvent(q.dequeue())); });
            if (c.status != OK) {
                violation("unexpected-error", "removing an event failed: %s", c.what.c_str());
            }
            if (ref.empty()) {
                if (e->tentative_event_type != pm::NO_FLOOD_CHECK_EVENT) {
                    violation("event-from-nowhere", "an empty queue returned an event");
                }
                continue;
            }
            int64_t t = ref.begin()->first;
            int id = event_id(*e);
            logf("dequeue -> %d at clock %lld (expected time %lld)", id, (long long)q.cur_time, (long long)t);
            if (id < 0 || e->time != ctime_int{t} || q.cur_time != t) {
                violation("out-of-order", "the next event is due at %lld but the queue returned one for %u at clock %lld",
                          (long long)t, e->time.value, (long long)q.cur_time);
            }
            auto r = ref.equal_range(t);
            auto it = r.first;
            while (it != r.second && it->second != id) {
                ++it;
            }
            if (it == r.second) {
                violation("not-exactly-once", "event %d was returned at %lld, where it is not (or no longer) scheduled", id,
                          (long long)t);
            }
            ref.erase(it);
            now = t;
            nontrivial();
            note((uint64_t)id);
            note((uint64_t)t);
            count("events_delivered");
        }
        if (chance(1, ref.size() > 1000 ? 20000 : ref.size() > 100 ? 200 : 12)) {
            std::vector<pm::FloodCheckEvent> listed;
            call([&] { listed = q.to_vector(); });
            count("queue_listings");
            auto left = ref;
            auto next = ref.begin();
            bool ok = listed.size() == ref.size();
            for (size_t i = 0; ok && i < listed.size(); i++, ++next) {
                ok = listed[i].time == ctime_int{next->first};
                auto r = left.equal_range(next->first);
                auto it = r.first;
                while (it != r.second && it->second != event_id(listed[i])) {
                    ++it;
                }
                ok = ok && it != r.second;
                if (ok) {
                    left.erase(it);
                }
            }
            if (!ok) {
                violation("wrong-listing", "at clock %lld the queue lists %zu events that are not the %zu scheduled, in order",
                          (long long)now, listed.size(), ref.size());
            }
        }
        if (q.size() != ref.size() || q.empty() != ref.empty()) {
            violation("wrong-size", "the queue reports %zu events, %zu are scheduled", q.size(), ref.size());
        }
    }
    if (wrapped) {
        count("queue_runs_across_32_bit_wrap");
    }
}

template <bool V>
static void tracker_world() {
    pm::radix_heap_queue<V> q;
    int64_t now = 0;
    call([&] { now = advance_clock(q); });
    int n = range(1, 6);
    std::vector<pm::QueuedEventTracker> tr(n);
    std::vector<int64_t> want(n, -1);
    size_t asked = 0, removed = 0;
    int ops = range(2, 60);
    describe("%d trackers at clock %lld, %d operations", n, (long long)now, ops);
    auto act = [&](int x) {
        if (chance(1, 5)) {
            call([&] { tr[x].set_no_desired_event(); });
            want[x] = -1;
            logf("%d: no desired time", x);
            count("wakeups_cancelled");
        } else {
            int64_t t = now + gen_delay();
            logf("%d: wants %lld (now %lld)", x, (long long)t, (long long)now);
            CallOutcome c = call([&] { tr[x].set_desired_event(make_event(x, t), q); });
            if (c.status != OK) {
                violation("rejected-event", "asking for time %lld at clock %lld failed: %s", (long long)t, (long long)now,
                          c.what.c_str());
            }
            want[x] = t;
            asked++;
            count("wakeups_asked");
        }
    };
    int k = 0;
    int idle = 0;
    while (true) {
        bool drain = k >= ops;
        if (!drain && chance(1, 2)) {
            k++;
            act(pick(n));
            continue;
        }
        if (!drain && chance(1, 50)) {
            k++;
            call([&] {
                q.clear();
                for (auto &t : tr) {
                    t.clear();
                }
            });
            std::fill(want.begin(), want.end(), -1);
            asked = removed = 0;
            continue;
        }
        if (q.empty()) {
            for (int x = 0; x < n; x++) {
                if (want[x] >= 0) {
                    violation("lost-wakeup", "object %d asked to be looked at at %lld but nothing is scheduled any more", x,
                              (long long)want[x]);
                }
            }
            if (drain) {
                break;
            }
            k++;
            continue;
        }
        int id = -1;
        bool keep = false;
        CallOutcome c = call([&] {
            auto e = q.dequeue();
            id = event_id(e);
            if (id >= 0 && id < n) {
                keep = tr[id].dequeue_decision(e, q);
            }
        });
        if (c.status != OK || id < 0 || id >= n) {
            violation("unexpected-error", "removing an event failed: %s", c.what.c_str());
        }
        removed++;
        if (removed + q.size() > asked) {
            // However stale, events must not multiply.
            violation("event-storm", "%zu requests have put %zu events into the queue", asked, removed + q.size());
        }
        now = q.cur_time;
        logf("clock %lld: %d -> %s", (long long)now, id, keep ? "look" : "skip");
        for (int x = 0; x < n; x++) {
            if (want[x] >= 0 && want[x] < now) {
                violation("late-wakeup", "the clock is at %lld but object %d, which asked for %lld, was not looked at",
                          (long long)now, x, (long long)want[x]);
            }
        }
        note((uint64_t)id * 2 + keep);
        note((uint64_t)now);
        if (keep) {
            if (want[id] != now) {
                violation("stale-wakeup", "object %d was looked at at %lld; it last asked for %s%lld", id, (long long)now,
                          want[id] < 0 ? "nothing " : "", (long long)want[id]);
            }
            want[id] = -1;
            nontrivial();
            count("wakeups_delivered");
            if (!drain && chance(1, 3)) {
                act(id);  // reschedule while being looked at
            }
            idle = 0;
        } else if (++idle > 100000) {
            violation("event-storm", "no progress after 100000 discarded events");
        }
        k += drain ? 0 : 1;
    }
}

void world_c10() {
    pick_order();
    switch (pick(6)) {
        case 0:
            queue_world<true>();
            break;
        case 1:
            tracker_world<true>();
            break;
        case 2:
        case 3:
            queue_world<false>();
            break;
        default:
            tracker_world<false>();
    }
    set_order(ORDER_DEFAULT);
}

// ------------------------------------------------------------------------------------ far graphs
/// Graphs whose distances go beyond 32-bit time once discretised: long chains, rings, ladders and
/// trees of heavy edges.
static MGraph gen_far(int max_nodes, bool integral, bool negative) {
    MGraph g;
    g.integral = integral;
    static const char *names[] = {"far-chain", "far-ring", "far-ladder", "far-comb"};
    int shape = pick(4);
    g.shape = names[shape];
    int n = range(4, max_nodes);
    uint32_t spread = pick(4);
    auto weight = [&]() {
        double w;
        if (integral) {
            int hi = (1 << 24) - 1;
            w = spread == 0 ? hi : spread == 1 ? hi - (int)pick(1000) : (double)range(1, hi);
        } else {
            w = spread == 0 ? 2.5 : spread == 1 ? 2.5 + pick(1000) / 1024.0 / 7 : (1 + pick(1u << 20)) / 1048576.0 * 9.7;
        }
        if (negative && chance(1, 12)) {
            w = -w;
            g.has_negative = true;
        }
        return w;
    };
    auto add = [&](int u, int v) {
        g.edges.push_back({u, v, weight(), -1, 0, {}});
    };
    if (shape == 0 || shape == 1) {
        g.n = n;
        for (int i = 0; i + 1 < n; i++) {
            add(i, i + 1);
        }
        if (shape == 1) {
            add(n - 1, 0);
        }
    } else if (shape == 2) {
        g.n = n / 2 * 2;
        for (int i = 0; i < g.n; i += 2) {
            add(i, i + 1);
            if (i + 2 < g.n) {
                add(i, i + 2);
                add(i + 1, i + 3);
            }
        }
    } else {
        g.n = n;
        int spine = std::max(2, n * 3 / 4);
        for (int i = 0; i + 1 < spine; i++) {
            add(i, i + 1);
        }
        for (int i = spine; i < n; i++) {
            add((int)pick(spine), i);
        }
    }
    if (chance(2, 3)) {
        add(0, BOUNDARY);
        if (chance(1, 2)) {
            add(shape == 1 ? g.n / 2 : g.n - 1, BOUNDARY);
        }
    }
    g.num_obs = 1;
    g.palette.assign(1, Bits(1, (uint8_t)1));
    for (auto &e : g.edges) {
        if (chance(1, 4)) {
            e.pal = 1;
            e.obs = {0};
        }
    }
    return g;
}

static std::vector<uint64_t> far_syndrome(const MGraph &g) {
    std::vector<uint64_t> d;
    int k = 1 + pick(6);
    for (int i = 0; i < k; i++) {
        uint64_t x = chance(1, 3) ? (chance(1, 2) ? 0 : g.n - 1) : pick(g.n);
        if (std::find(d.begin(), d.end(), x) == d.end()) {
            d.push_back(x);
        }
    }
    return d;
}

// ----------------------------------------------------------------------------------------- C12
/// Steps a call may take. The constants are about 20 times what the largest ratio ever seen on the
/// unchanged tree needs; a lost wake-up, an event storm or work proportional to a weight exceeds them.
static uint64_t decode_budget(const MGraph &g, size_t events) {
    uint64_t n = (uint64_t)g.n + 4, m = g.edges.size() + 4, k = events + 4;
    return 300'000 + 600 * (n + m) * k + 4000 * (n + m) + 400 * k * k * k;
}
static uint64_t build_budget(const MGraph &g) {
    uint64_t n = (uint64_t)g.n + 4, m = g.edges.size() + 4;
    uint64_t obs = 0;
    for (auto &e : g.edges) {
        obs += e.obs.size();
    }
    return 300'000 + 4000 * (n + m) + 400 * obs + 40 * (n + m) * (n + m);
}
static void note_ratio(const char *name, uint64_t steps, uint64_t budget) {
    // Counters only add up; buckets of the used share of the budget are enough.
    static const struct {
        double below;
        const char *tag;
    } b[] = {{0.001, "<0.1%"}, {0.01, "<1%"}, {0.05, "<5%"}, {0.1, "<10%"}, {0.5, "<50%"}, {2, "<100%"}};
    double r = (double)steps / (double)budget;
    for (auto &x : b) {
        if (r < x.below) {
            count((std::string("budget_used_") + name + x.tag).c_str());
            return;
        }
    }
}

/// Deployments run decodes on threads with small stacks; what a decode needs must not grow with the graph.
struct SmallStack {
    rlimit before;
    explicit SmallStack(rlim_t bytes) {
        getrlimit(RLIMIT_STACK, &before);
        rlimit l = before;
        l.rlim_cur = std::min(bytes, before.rlim_max);
        setrlimit(RLIMIT_STACK, &l);
    }
    ~SmallStack() {
        setrlimit(RLIMIT_STACK, &before);
    }
};

/// Long alternating trees: matched pairs in rows, a lone event at the start of each row, and every pair
/// that is pushed on pushes the next one, until the last pair meets the boundary (or a lone event).
static void deep_tree_run() {
    MGraph g;
    g.shape = "rows of pairs";
    g.num_obs = 1;
    g.palette.assign(1, Bits(1, (uint8_t)1));
    int len = 1 << range(4, 13);
    len = range(len, 2 * len - 1);
    int rows = chance(1, 2) ? 1 : range(2, 3);
    int end = pick(2);  // 0: boundary, 1: another lone event
    double w = 4'000'000;
    std::vector<uint64_t> dets;
    auto edge = [&](int u, int v, double weight) { g.edges.push_back({u, v, weight, -1, 0, {}}); };
    bool shared_root = rows > 1 && end == 0 && chance(1, 2);
    for (int r = 0; r < rows; r++) {
        int root = shared_root && r ? 0 : g.n++;
        int prev = root;
        for (int k = 0; k < len; k++) {
            int a = g.n++, b = g.n++;
            edge(prev, a, prev == root ? w * 3 / 2 + 2 * r : w + 2);
            edge(a, b, w);
            prev = b;
        }
        if (end == 0) {
            edge(prev, BOUNDARY, w / 2 + 10);
        } else if (end == 1) {
            edge(prev, g.n++, w * 3 / 2);
        }
    }
    for (int v = 0; v < g.n; v++) {
        dets.push_back(v);
    }
    if (chance(1, 3)) {
        std::reverse(dets.begin(), dets.end());
    }
    uint64_t n = (uint64_t)g.n, budget = 300'000 + 20'000 * n;
    default_step_budget = budget;
    describe("%d rows of %d pairs, end %d, shared root %d", rows, len, end, shared_root);
    logf("%d rows of %d pairs, end %d, shared root %d", rows, len, end, shared_root);
    auto ug = build_graph(g, 0);
    pm::Mwpm *m = nullptr;
    CallOutcome c = call([&] { m = &ug->get_mwpm_with_search_graph(); });
    if (c.status != OK) {
        violation("build-failed", "building a decoder for rows of pairs failed: %s", c.what.c_str());
    }
    pick_order();
    SmallStack small(1 << 20);
    for (int k = range(1, 2); k > 0; k--) {
        static const Api apis[] = {API_OBS, API_EDGES, API_PAIRS, API_OBS64};
        Api api = apis[pick(4)];
        Result r = decode(*m, g.num_obs, api, dets, nullptr, budget);
        note_ratio("deep", r.out.steps, budget);
        note(r.out.steps);
        if (r.out.status != OK) {
            violation("unfinished", "%s of %d rows of %d pairs (end %d, shared root %d): %s", api_name(api), rows, len, end,
                      shared_root, r.out.what.c_str());
        }
        count("deep_trees");
    }
    nontrivial();
}

void world_c12() {
    if (chance(1, 300)) {
        deep_tree_run();
        set_order(ORDER_DEFAULT);
        return;
    }
    MGraph g;
    int kind = pick(6);
    bool far = kind >= 3;
    if (far) {
        g = gen_far(chance(1, 4) ? 700 : 300, chance(1, 3), chance(1, 4));
    } else {
        GenOptions o;
        o.max_obs = 3;
        o.max_palette = 1;
        o.allow_fractional = chance(1, 3);
        if (kind == 0) {
            o.max_nodes = 6;
            o.max_edges = 12;
        } else {
            o.large = true;
            o.max_nodes = kind == 1 ? 60 : 400;
        }
        g = gen_graph(o);
    }
    describe("%s", g.str().c_str());
    Oracle oracle(g);
    default_step_budget = build_budget(g);
    auto ug = build_graph(g, pick(3));
    pm::Mwpm *m = nullptr;
    CallOutcome c = call([&] { m = &ug->get_mwpm_with_search_graph(); });
    note_ratio("build", c.steps, default_step_budget);
    if (c.status != OK) {
        violation("build-failed", "building a decoder failed: %s; graph %s", c.what.c_str(), g.str().c_str());
    }
    int ops = range(1, 4);
    for (int k = 0; k < ops; k++) {
        Order ord = pick_order();
        if (chance(1, 4)) {
            size_t a = pick(g.n), b = chance(1, 3) ? SIZE_MAX : chance(1, 2) ? g.n - 1 : pick(g.n);
            std::vector<size_t> nodes;
            uint64_t budget = decode_budget(g, 2);
            logf("path %zu -> %zd", a, (ssize_t)b);
            c = call([&] { ug->get_nodes_on_shortest_path_from_source(a, b, nodes); }, nullptr, budget);
            note_ratio("path", c.steps, budget);
            bool known = !g.boundary.count((int)a) && !(b != SIZE_MAX && g.boundary.count((int)b));
            if (known && c.status != OK && oracle.distance((int)a, b == SIZE_MAX ? BOUNDARY : (int)b) < (double)INF) {
                violation("unfinished", "the path %zu -> %zd of %s was not found: %s", a, (ssize_t)b, g.str().c_str(),
                          c.what.c_str());
            }
            note((uint64_t)c.status);
            note(c.steps);
            nontrivial();
            continue;
        }
        auto dets = far ? far_syndrome(g) : gen_syndrome(g, 60);
        static const Api apis[] = {API_OBS, API_EDGES, API_PAIRS, API_OBS64};
        Api api = apis[pick(4)];
        if (api == API_PAIRS && g.has_negative) {
            api = API_OBS;
        }
        Answer a;
        a.feasible = oracle.feasible(dets);
        size_t events = dets.size();
        if (g.has_negative) {
            events += g.edges.size();  // detection events that undo negative edges
        }
        uint64_t budget = decode_budget(g, events);
        logf("%s %s order=%s", api_name(api), dets_str(dets).c_str(), order_name(ord));
        Result r = decode(*m, g.num_obs, api, dets, nullptr, budget);
        note_ratio("decode", r.out.steps, budget);
        note(r.out.steps);
        if (a.feasible && r.out.status != OK) {
            violation("unfinished", "decoding %s (%s) did not reach a solution: %s; graph %s", dets_str(dets).c_str(),
                      api_name(api), r.out.what.c_str(), g.str().c_str());
        }
        if (!a.feasible && r.out.status == OK) {
            violation("unfinished", "decoding %s (%s) ended without error and there is no solution; graph %s",
                      dets_str(dets).c_str(), api_name(api), g.str().c_str());
        }
        if (r.flood_time > (1ll << 32)) {
            count("decodes_beyond_32_bit_time");
        } else if (r.flood_time > (1ll << 31)) {
            count("decodes_beyond_31_bit_time");
        }
        describe("%s %s steps=%llu", api_name(api), dets_str(dets).c_str(), (unsigned long long)r.out.steps);
        nontrivial();
    }
    set_order(ORDER_DEFAULT);
}

// ----------------------------------------------------------------------------------------- C17
void world_c17() {
    bool far = chance(1, 2);
    MGraph g;
    if (far) {
        g = gen_far(chance(1, 5) ? 600 : 250, chance(1, 6), chance(1, 4));
    } else {
        GenOptions o;
        o.allow_fractional = true;
        o.max_obs = 2;
        o.max_palette = 1;
        if (chance(1, 3)) {
            o.large = true;
            o.max_nodes = 40;
        } else {
            o.max_nodes = 7;
            o.max_edges = 12;
        }
        g = gen_graph(o);
    }
    if (g.edges.empty()) {
        throw Discard{};
    }
    // Scale: from tiny to the largest weight that is accepted.
    constexpr double MAXW = (double)((1 << 24) - 1);
    double mx = 0;
    for (auto &e : g.edges) {
        mx = std::max(mx, std::abs(e.w));
    }
    int scale = pick(6);
    double f = 1;
    if (!g.integral && mx > 0) {
        static const double fs[] = {1, 1e-3, 1e-30, 1e-200, 1e4, 0};
        f = fs[scale];
        if (f == 0 || f * mx > MAXW) {
            f = MAXW / mx;
        }
        for (auto &e : g.edges) {
            e.w = std::max(-MAXW, std::min(MAXW, e.w * f));
        }
    }
    // One much heavier edge makes the others small compared with the discretisation.
    if (!g.integral && chance(1, 4)) {
        auto &e = g.edges[pick((uint32_t)g.edges.size())];
        if (e.w > 0) {
            e.w = std::min(MAXW, e.w * 1000);
        }
    }
    mx = 0;
    bool exact = true;
    double total = 0;
    for (auto &e : g.edges) {
        mx = std::max(mx, std::abs(e.w));
        exact = exact && std::round(e.w) == e.w;
        total += std::abs(e.w);
    }
    g.integral = exact;
    describe("%s", g.str().c_str());
    if (chance(1, 10)) {
        // A weight that is too large.
        static const double over[] = {MAXW + 1, MAXW + 0.5, 1e9, 4294967296.0, 4294967297.0, 2147483648.5, 1e18, 1e300, INFINITY};
        MGraph h = g;
        auto &e = h.edges[pick((uint32_t)h.edges.size())];
        double w = over[pick(9)];
        e.w = chance(1, 3) ? -w : w;
        std::unique_ptr<pm::UserGraph> ug;
        bool search = chance(1, 2);
        CallOutcome c = call([&] {
            ug = std::make_unique<pm::UserGraph>((size_t)h.n, h.num_obs);
            for (auto &x : h.edges) {
                if (x.v == BOUNDARY) {
                    ug->add_or_merge_boundary_edge((size_t)x.u, x.obs, x.w, x.p);
                } else {
                    ug->add_or_merge_edge((size_t)x.u, (size_t)x.v, x.obs, x.w, x.p);
                }
            }
            if (search) {
                ug->get_mwpm_with_search_graph();
            } else {
                ug->get_mwpm();
            }
        });
        count("fault:overweight_edge");
        nontrivial();
        note((uint64_t)c.status);
        if (c.status != REJECTED) {
            violation("not-rejected", "a decoder was built although edge %d-%d has weight %g: %s", e.u, e.v, e.w,
                      status_name(c.status));
        }
        return;
    }
    Oracle oracle(g);
    auto ug = build_graph(g, pick(3));
    static const uint32_t levels[] = {1u << 24, 1u << 24, 1u << 24, 1u << 16, 1000};
    uint32_t lv = levels[pick(5)];
    std::unique_ptr<pm::Mwpm> own;
    pm::Mwpm *m = nullptr;
    CallOutcome c = call([&] {
        if (lv == 1u << 24 && chance(1, 2)) {
            m = &ug->get_mwpm_with_search_graph();
        } else {
            own = std::make_unique<pm::Mwpm>(ug->to_mwpm(lv, true));
            m = own.get();
        }
    });
    if (c.status != OK) {
        violation("build-failed", "building a decoder failed: %s; graph %s", c.what.c_str(), g.str().c_str());
    }
    // Rounding of one edge: half a level, where the heaviest edge has lv-1 levels.
    double per_edge = exact ? 0 : 0.5 * mx / (double)(lv - 1);
    double tol = exact ? 0 : per_edge * (double)g.edges.size() * (1 + 1e-6) + 1e-11 * total;
    int shots = range(1, 4);
    for (int k = 0; k < shots; k++) {
        Order ord = pick_order();
        auto dets = far ? far_syndrome(g) : gen_syndrome(g, 12);
        Answer a = oracle.solve(dets);
        static const Api apis[] = {API_OBS, API_OBS64, API_EDGES};
        Api api = apis[pick(3)];
        logf("%s %s order=%s levels=%u", api_name(api), dets_str(dets).c_str(), order_name(ord), lv);
        Result r = decode(*m, g.num_obs, api, dets);
        logf("   -> %s (minimum %.17g)", r.str().c_str(), a.weight);
        describe("%s %s -> %s", api_name(api), dets_str(dets).c_str(), r.str().c_str());
        check_status(g, a, api, dets, r);
        if (!a.feasible || r.out.status != OK) {
            continue;
        }
        nontrivial();
        if (r.flood_time > (1ll << 32)) {
            count("decodes_beyond_32_bit_time");
        } else if (r.flood_time > (1ll << 31)) {
            count("decodes_beyond_31_bit_time");
        }
        if (api == API_EDGES) {
            // The weight of the returned edges in the user's own weights.
            std::map<std::pair<int, int>, double> es;
            for (auto &e : g.edges) {
                bool bu = g.is_boundary(e.u), bv = g.is_boundary(e.v);
                std::pair<int, int> key = bu && bv ? std::make_pair(-1, -1)
                                          : bu     ? std::make_pair(e.v, -1)
                                          : bv     ? std::make_pair(e.u, -1)
                                                   : std::make_pair(std::min(e.u, e.v), std::max(e.u, e.v));
                auto [it, fresh] = es.insert({key, e.w});
                if (!fresh) {
                    it->second = std::min(it->second, e.w);
                }
            }
            double w = 0;
            bool ok = true;
            for (auto [u, v] : r.edges) {
                auto it = es.find(u == -1 ? std::make_pair((int)v, -1)
                                  : v == -1 ? std::make_pair((int)u, -1)
                                            : std::make_pair((int)std::min(u, v), (int)std::max(u, v)));
                ok = ok && it != es.end();
                w += ok ? it->second : 0;
            }
            if (!ok || !(std::abs(w - a.weight) <= 2 * tol)) {
                violation("wrong-weight", "edges returned for %s weigh %.17g, minimum is %.17g (%u levels): %s; graph %s",
                          dets_str(dets).c_str(), w, a.weight, lv, r.str().c_str(), g.str().c_str());
            }
        } else if (!(std::abs(r.weight - a.weight) <= tol)) {
            violation("wrong-weight", "decode (%s, %u levels) of %s reports weight %.17g, minimum is %.17g, rounding allows %.3g; graph %s",
                      api_name(api), lv, dets_str(dets).c_str(), r.weight, a.weight, tol, g.str().c_str());
        }
    }
    set_order(ORDER_DEFAULT);
}

}  // namespace sim
