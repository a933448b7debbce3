// Worlds about histories on one decoder: C04 (earlier calls), C05 (bad syndromes), C06 (allocation
// failures), C11 (path queries), C13 (memory).
#include <algorithm>
#include <cmath>

#include "dem.h"
#include "refgraph.h"
#include "sut.h"

namespace sim {

// ------------------------------------------------------------------------------- shared pieces
struct Scenario {
    MGraph g;
    MDem dem;
    bool from_dem = false;
    int style = 0;
    std::unique_ptr<pm::UserGraph> build() const {
        if (!from_dem) {
            return build_graph(g, style);
        }
        std::unique_ptr<pm::UserGraph> r;
        CallOutcome c = call([&] {
            r.reset(new pm::UserGraph(pm::detector_error_model_to_user_graph(
                stim::DetectorErrorModel(dem.text), true, pm::NUM_DISTINCT_WEIGHTS)));
        });
        if (c.status != OK) {
            violation("build-failed", "loading a valid error model failed: %s\n%s", c.what.c_str(), dem.text.c_str());
        }
        return r;
    }
    const std::string str() const {
        return from_dem ? "model {" + dem.text + "}" : g.str();
    }
};

static Scenario gen_scenario(int max_nodes, bool allow_large, bool allow_dem = true) {
    Scenario s;
    if (allow_dem && chance(1, 3)) {
        DemOptions o;
        o.correlations = true;
        o.max_obs = chance(1, 3) ? 130 : 3;
        if (allow_large && chance(1, 3)) {
            o.chain = true;
            o.max_dets = 30;
            o.generic = chance(1, 2);
        } else {
            o.max_dets = std::max(3, max_nodes);
            o.max_edges = 2 * o.max_dets;
            o.max_errors = 3 * o.max_dets;
        }
        s.dem = gen_dem(o);
        s.g = dem_to_graph(s.dem);
        s.from_dem = true;
        return s;
    }
    GenOptions o;
    o.max_nodes = max_nodes;
    o.max_edges = 2 * max_nodes + 2;
    o.max_obs = 130;
    o.gauge = true;
    if (chance(1, 6)) {
        o.max_obs = 300;
    }
    if (allow_large && chance(1, 4)) {
        o.large = true;
        o.max_nodes = chance(1, 40) ? 600 : chance(1, 3) ? 120 : 30;
    }
    o.allow_fractional = chance(1, 8);
    s.g = gen_graph(o);
    s.style = pick(3);
    return s;
}

static Api pick_api(const Scenario &s) {
    static const Api plain[] = {API_OBS, API_EDGES, API_PAIRS, API_OBS64, API_OBS_CORR, API_EDGES_CORR, API_OBS64_CORR};
    while (true) {
        Api a = plain[pick(7)];
        if ((a == API_OBS64 || a == API_OBS64_CORR) && s.g.num_obs > 64) {
            continue;
        }
        return a;
    }
}
static bool needs_search(Api a) {
    return a != API_OBS && a != API_OBS64 && a != API_PAIRS;
}
static bool is_corr(Api a) {
    return a == API_OBS_CORR || a == API_OBS64_CORR || a == API_EDGES_CORR;
}

static pm::Mwpm *get_decoder(pm::UserGraph &ug, bool search, const char *what, AllocFault *fault = nullptr,
                             CallOutcome *co = nullptr) {
    pm::Mwpm *m = nullptr;
    CallOutcome c = call([&] { m = search ? &ug.get_mwpm_with_search_graph() : &ug.get_mwpm(); }, fault);
    if (co) {
        *co = c;
    } else if (c.status != OK) {
        violation("build-failed", "building the decoder %s failed: %s", what, c.what.c_str());
    }
    return m;
}

struct PathResult {
    CallOutcome out;
    std::vector<size_t> nodes;
};
static PathResult path_query(pm::UserGraph &ug, size_t src, size_t dst, AllocFault *fault = nullptr) {
    PathResult r;
    count("path_queries");
    r.out = call([&] { ug.get_nodes_on_shortest_path_from_source(src, dst, r.nodes); }, fault);
    note((uint64_t)r.out.status);
    for (auto x : r.nodes) {
        note(x);
    }
    return r;
}
static std::string nodes_str(const std::vector<size_t> &v) {
    std::string s = "[";
    for (auto x : v) {
        s += std::to_string(x) + " ";
        if (s.size() > 300) {
            s += "...";
            break;
        }
    }
    return s + "]";
}

static std::vector<uint64_t> gen_out_of_range(const MGraph &g) {
    auto d = gen_syndrome(g, 6);
    static const uint64_t far[] = {0, 1, 63, 64, 1000003, (1ull << 32), (1ull << 31), (1ull << 63), ~0ull - 1};
    uint64_t bad = (uint64_t)g.n + far[pick(9)];
    if (chance(1, 3)) {
        // One that is inside the graph when cut to fewer bits.
        static const int bits[] = {8, 16, 31, 32, 48, 63};
        bad = (1ull << bits[pick(6)]) + pick((uint32_t)g.n);
    }
    if (bad < (uint64_t)g.n || chance(1, 12)) {
        bad = ~0ull;
    }
    size_t where = pick((uint32_t)d.size() + 1);
    d.insert(d.begin() + where, bad);
    return d;
}

/// Result of the same call on a decoder that was never used before.
static Result fresh_decode(const Scenario &s, Api api, const std::vector<uint64_t> &dets, uint32_t tie_seed, bool search) {
    auto ug = s.build();
    pm::Mwpm *m = get_decoder(*ug, search, "(fresh)");
    set_seeded_order(tie_seed);
    Result r = decode(*m, s.g.num_obs, api, dets);
    set_order(ORDER_DEFAULT);
    return r;
}

/// Same call on the decoder with a history; must agree with the fresh one.
static void compare_with_fresh(
    const Scenario &s, pm::Mwpm &m, Api api, const std::vector<uint64_t> &dets, bool search, const char *history) {
    uint32_t tie_seed = chance(1, 2) ? 0 : 1 + pick(1000);
    set_seeded_order(tie_seed);
    Result r = decode(m, s.g.num_obs, api, dets);
    set_order(ORDER_DEFAULT);
    Result f = fresh_decode(s, api, dets, tie_seed, search);
    logf("   compare %s %s tie=%u: used %s / fresh %s", api_name(api), dets_str(dets).c_str(), tie_seed, r.str().c_str(),
         f.str().c_str());
    bool same = tie_seed == 0 ? r.same_as(f) : r.out.status == f.out.status && r.raw_weight == f.raw_weight;
    if (!same) {
        violation("depends-on-history", "after %s, %s of %s gives %s; a new decoder gives %s; graph %s", history,
                  api_name(api), dets_str(dets).c_str(), r.str().c_str(), f.str().c_str(), s.str().c_str());
    }
}

// ------------------------------------------------------------------------------ long histories
/// A few calls over and over, by the hundred or by the ten thousand: whatever a decoder counts or
/// stamps must not show when it runs over. The order of the calls comes from a small generator of
/// its own, so that a long history costs only a few choices.
void endure(bool rejections, bool paths) {
    Scenario s = gen_scenario(3 + (int)pick(10), false);
    describe("%s", s.str().c_str());
    struct Step {
        bool path;
        Api api;
        bool search;
        std::vector<uint64_t> dets;
        size_t a, b;
        Result r;
        PathResult p;
    };
    bool very_long = chance(1, 8);
    uint32_t pattern = pick(6), lcg = 1 + pick(1000000);
    bool there_and_back = pattern > 2;
    size_t total, period = 0, k1 = 0, k2 = 0;
    std::vector<Step> steps;
    if (there_and_back) {
        // Some calls, the same call many times, and those calls again in reverse: between the two uses of
        // each lie numbers of calls around a power of two.
        steps.resize(range(3, 12));
        k1 = steps.size() - 1;
        static const size_t wrap[] = {256, 128, 512, 1024}, long_wrap[] = {65536, 32768, 65536, 65536};
        size_t n = (very_long ? long_wrap : wrap)[pick(4)] / (chance(1, 3) ? 2 + pick(3) : 1);
        k2 = n - std::min<size_t>(n, pick((uint32_t)(2 * k1 + 2)));
        total = 2 * k1 + k2;
    } else {
        total = very_long ? 65000 + pick(2500) : 200 + pick(500);
        static const uint32_t periods[] = {127, 128, 129, 255, 256, 257, 511, 512, 513};
        static const uint32_t long_periods[] = {32767, 32768, 65534, 65535, 65536, 65537, 32769, 16384, 4096};
        period = very_long ? long_periods[pick(9)] : periods[pick(9)];
        total = std::max<size_t>(total, period + 40);
        steps.resize(range(2, 5));
    }
    bool mostly_paths = paths && chance(1, 2);
    for (auto &x : steps) {
        x.path = mostly_paths || (paths && chance(1, 2));
        x.api = pick_api(s);
        x.search = needs_search(x.api) || chance(1, 3);
        x.dets = rejections && chance(1, 6) ? gen_out_of_range(s.g) : gen_syndrome(s.g, 1 + (int)pick(very_long ? 4 : 10));
        x.a = pick(s.g.n);
        x.b = chance(1, 5) ? SIZE_MAX : pick(s.g.n);
        if (x.path) {
            auto fg = s.build();
            x.p = path_query(*fg, x.a, x.b);
        } else {
            x.r = fresh_decode(s, x.api, x.dets, 0, x.search);
        }
        describe("%s %s", x.path ? "path" : api_name(x.api), dets_str(x.dets).c_str());
    }
    describe("%zu calls, pattern %u, period %zu, %zu", total, pattern, period, k2);
    auto ug = s.build();
    size_t since = 0;  // calls since the rare one
    for (size_t k = 0; k < total; k++) {
        lcg = lcg * 1664525u + 1013904223u;
        uint32_t r = lcg >> 16;
        size_t which;
        if (there_and_back) {
            which = k < k1 ? k + 1 : k < k1 + k2 ? 0 : 2 * k1 + k2 - k;
        } else if (pattern == 0) {
            which = r % steps.size();
        } else if (pattern == 1) {  // one call is rare
            which = k % period == 0 ? 0 : 1 + r % (steps.size() - 1);
        } else {  // all the same but for a few
            which = since >= period || r % 8192 == 0 ? r / 16 % steps.size() : 1;
        }
        since = which == 1 ? since + 1 : 0;
        auto &x = steps[which];
        if (x.path) {
            auto p = path_query(*ug, x.a, x.b);
            if (p.out.status != x.p.out.status || p.nodes != x.p.nodes) {
                violation("depends-on-history", "after %zu calls the path %zu->%zd is %s %s; a new graph gives %s %s; graph %s",
                          k, x.a, (ssize_t)x.b, status_name(p.out.status), nodes_str(p.nodes).c_str(),
                          status_name(x.p.out.status), nodes_str(x.p.nodes).c_str(), s.str().c_str());
            }
        } else {
            pm::Mwpm *m = get_decoder(*ug, x.search, "(used)");
            Result d = decode(*m, s.g.num_obs, x.api, x.dets);
            if (!d.same_as(x.r)) {
                violation("depends-on-history", "after %zu calls, %s of %s gives %s; a new decoder gives %s; graph %s", k,
                          api_name(x.api), dets_str(x.dets).c_str(), d.str().c_str(), x.r.str().c_str(), s.str().c_str());
            }
        }
    }
    count(very_long ? "histories_of_65000_calls" : "histories_of_hundreds_of_calls");
    nontrivial();
}

// ----------------------------------------------------------------------------------------- C04
void world_c04() {
    if (chance(1, 250)) {
        endure(true, chance(1, 2));
        return;
    }
    Scenario s = gen_scenario(7, true);
    auto ug = s.build();
    int ops = range(2, 14);
    describe("%s", s.str().c_str());
    std::string history = "building";
    for (int k = 0; k < ops; k++) {
        int kind = pick(12);
        if (kind < 8) {
            Api api = pick_api(s);
            bool search = needs_search(api) || chance(1, 3);
            auto dets = chance(1, 8) ? gen_out_of_range(s.g) : gen_syndrome(s.g, 30);
            pm::Mwpm *m = get_decoder(*ug, search, "(used)");
            compare_with_fresh(s, *m, api, dets, search, history.c_str());
            history = std::string(api_name(api)) + dets_str(dets) + (history.size() > 300 ? "" : ", " + history);
            if (k > 0) {
                nontrivial();
            }
        } else if (kind < 10) {
            size_t a = pick(s.g.n), b = chance(1, 3) ? SIZE_MAX : pick(s.g.n);
            uint32_t tie = chance(1, 2) ? 0 : 1 + pick(1000);
            set_seeded_order(tie);
            auto r = path_query(*ug, a, b);
            set_order(ORDER_DEFAULT);
            auto fg = s.build();
            set_seeded_order(tie);
            auto f = path_query(*fg, a, b);
            set_order(ORDER_DEFAULT);
            if (r.out.status != f.out.status || (tie == 0 && r.nodes != f.nodes)) {
                violation("depends-on-history", "after %s, the path %zu->%zd is %s %s; a new graph gives %s %s; graph %s",
                          history.c_str(), a, (ssize_t)b, status_name(r.out.status), nodes_str(r.nodes).c_str(),
                          status_name(f.out.status), nodes_str(f.nodes).c_str(), s.str().c_str());
            }
            history = "path, " + history.substr(0, 300);
        } else if (kind == 10) {
            call([&] { ug->update_mwpm(); });
            history = "rebuild, " + history.substr(0, 300);
        } else if (chance(1, 2)) {
            // Decoders and graphs are returned by value, so they move.
            bool whole = chance(1, 2);
            pm::Mwpm *m = get_decoder(*ug, chance(1, 2), "(used)");
            auto c = call([&] {
                if (whole) {
                    ug = std::make_unique<pm::UserGraph>(std::move(*ug));
                } else {
                    pm::Mwpm elsewhere(std::move(*m));
                    *m = std::move(elsewhere);
                }
            });
            if (c.status != OK) {
                violation("unexpected-error", "moving failed: %s; %s", c.what.c_str(), s.str().c_str());
            }
            history = "move, " + history.substr(0, 300);
        } else {
            // An explicit copy of the decoder built separately from the same graph must not matter.
            auto c = call([&] {
                pm::Mwpm other = ug->to_mwpm(pm::NUM_DISTINCT_WEIGHTS, true);
                std::vector<int64_t> e;
                pm::decode_detection_events_to_edges(other, {}, e);
            });
            if (c.status != OK) {
                violation("unexpected-error", "decoding no detection events failed: %s; %s", c.what.c_str(), s.str().c_str());
            }
            history = "second decoder, " + history.substr(0, 300);
        }
        describe("op %d", kind);
    }
}

// ----------------------------------------------------------------------------------------- C05
void world_c05() {
    if (chance(1, 300)) {
        endure(true, false);
        return;
    }
    Scenario s = gen_scenario(6, true);
    Oracle oracle(s.g);
    auto ug = s.build();
    describe("%s", s.str().c_str());
    int ops = range(2, 12);
    std::string history = "building";
    int rejected = 0;
    for (int k = 0; k < ops; k++) {
        Api api = pick_api(s);
        bool search = needs_search(api) || chance(1, 3);
        pm::Mwpm *m = get_decoder(*ug, search, "(used)");
        if (chance(1, 3)) {
            auto dets = gen_out_of_range(s.g);
            pick_order();
            Result r = decode(*m, s.g.num_obs, api, dets);
            set_order(ORDER_DEFAULT);
            count("fault:detection_event_out_of_range");
            if (r.out.status == OK) {
                violation("not-rejected", "%s accepted %s on a graph with %d nodes: %s; graph %s", api_name(api),
                          dets_str(dets).c_str(), s.g.n, r.str().c_str(), s.str().c_str());
            }
            if (r.out.status == OUT_OF_MEMORY) {
                violation("unexpected-error", "%s of %s ran out of memory", api_name(api), dets_str(dets).c_str());
            }
            rejected++;
            history = "rejected index" + dets_str(dets) + ", " + history.substr(0, 300);
        } else if (chance(1, 2)) {
            auto dets = gen_syndrome(s.g, 30);
            Answer a = oracle.solve(dets);
            pick_order();
            Result r = decode(*m, s.g.num_obs, api, dets);
            set_order(ORDER_DEFAULT);
            bool pairs_negative = api == API_PAIRS && s.g.has_negative;
            bool error = r.out.status != OK;
            if (r.out.status == OUT_OF_MEMORY || (error && a.feasible && !pairs_negative)) {
                violation("wrongly-rejected", "%s of decodable %s failed (%s) after %s; graph %s", api_name(api),
                          dets_str(dets).c_str(), r.out.what.c_str(), history.c_str(), s.str().c_str());
            }
            if (!error && !a.feasible) {
                violation("not-rejected", "%s accepted undecodable %s: %s; graph %s", api_name(api), dets_str(dets).c_str(),
                          r.str().c_str(), s.str().c_str());
            }
            if (error) {
                count("fault:undecodable_syndrome");
                rejected++;
            } else if (!is_corr(api)) {
                check_weight(s.g, a, api, dets, r);
            }
            history = std::string(error ? "rejected " : "") + api_name(api) + dets_str(dets) + ", " + history.substr(0, 300);
        } else {
            auto dets = gen_syndrome(s.g, 30);
            compare_with_fresh(s, *m, api, dets, search, history.c_str());
            history = api_name(api) + dets_str(dets) + ", " + history.substr(0, 300);
            if (rejected) {
                nontrivial();
            }
        }
    }
}

// ----------------------------------------------------------------------------------------- C11
/// One path query, judged against the model graph.
void check_path(const MGraph &g, Oracle &oracle, pm::UserGraph &ug, int a, int b) {
    Order ord = pick_order();
    bool ab = g.is_boundary(a), bb = g.is_boundary(b);
    double best = (double)INF;
    if (!(ab && bb)) {
        if (a == b) {
            best = 0;
        } else {
            best = ab ? oracle.distance(b, BOUNDARY) : oracle.distance(a, bb ? BOUNDARY : b);
        }
    }
    auto r = path_query(ug, a == BOUNDARY ? SIZE_MAX : a, b == BOUNDARY ? SIZE_MAX : b);
    double nc = 0;
    if (!g.integral) {
        nc = get_decoder(ug, true, "")->flooder.graph.normalising_constant;
    }
    double tol = g.integral ? 0 : 2 * weight_tolerance(g, nc);
    logf("path %d -> %d order=%s: %s %s (distance %g)", a, b, order_name(ord), status_name(r.out.status),
         nodes_str(r.nodes).c_str(), best);
    auto bad = [&](const char *why) {
        violation("bad-path", "path query %d -> %d gave %s %s, %s (shortest distance %.17g); order %s; graph %s", a, b,
                  status_name(r.out.status), nodes_str(r.nodes).c_str(), why, best, order_name(ord), g.str().c_str());
    };
    if (best >= (double)INF) {
        if (r.out.status == OK) {
            bad("but there is no path");
        }
        if (r.out.status == OUT_OF_MEMORY) {
            bad("out of memory");
        }
        count("path_queries_without_path");
        return;
    }
    if (r.out.status != OK) {
        bad("but there is a path");
    }
    nontrivial();
    if (r.nodes.empty()) {
        bad("which is empty");
    }
    if (!ab && r.nodes.front() != (size_t)a) {
        bad("which does not start at the source");
    }
    if (!bb && r.nodes.back() != (size_t)b) {
        bad("which does not end at the destination");
    }
    double w = 0;
    std::map<std::pair<int, int>, double> lightest;
    for (auto &x : g.edges) {
        auto [it, is_new] = lightest.insert({std::minmax(x.u, x.v), std::abs(x.w)});
        if (!is_new) {
            it->second = std::min(it->second, std::abs(x.w));
        }
    }
    for (size_t i = 0; i < r.nodes.size(); i++) {
        if (r.nodes[i] >= (size_t)g.n || g.is_boundary((int)r.nodes[i])) {
            bad("which leaves the graph");
        }
        if (i + 1 < r.nodes.size()) {
            auto it = lightest.find(std::minmax((int)r.nodes[i], (int)r.nodes[i + 1]));
            double e = it == lightest.end() ? (double)INF : it->second;
            if (e >= (double)INF) {
                bad("which uses an edge that does not exist");
            }
            w += e;
        }
    }
    auto boundary_step = [&](int node) {
        double e = (double)INF;
        for (auto &x : g.edges) {
            bool bu = g.is_boundary(x.u), bv = g.is_boundary(x.v);
            if (bu != bv && (bu ? x.v : x.u) == node) {
                e = std::min(e, std::abs(x.w));
            }
        }
        if (e >= (double)INF) {
            bad("whose boundary end has no edge to the boundary");
        }
        w += e;
    };
    if (ab) {
        boundary_step((int)r.nodes.front());
    }
    if (bb) {
        boundary_step((int)r.nodes.back());
    }
    if (!(std::abs(w - best) <= tol)) {
        char why[64];
        snprintf(why, sizeof(why), "which weighs %.17g", w);
        bad(why);
    }
    set_order(ORDER_DEFAULT);
}

void world_c11() {
    if (chance(1, 400)) {
        endure(false, true);
        return;
    }
    if (chance(1, 300)) {
        if (chance(1, 2)) {
            GenOptions o;
            o.large = true;
            o.max_nodes = 600;
            MGraph g = gen_graph(o);
            auto ug = build_graph(g, (int)pick(3));
            Oracle oracle(g);
            describe("%s of %d nodes", g.shape.c_str(), g.n);
            for (int k = range(1, 4); k > 0; k--) {
                check_path(g, oracle, *ug, chance(1, 6) ? BOUNDARY : (int)pick((uint32_t)g.n), chance(1, 4) ? BOUNDARY : (int)pick((uint32_t)g.n));
            }
            count("large_graphs");
            set_order(ORDER_DEFAULT);
            return;
        }
        // A path longer than 255 or 65535 steps.
        int n = chance(1, 20) ? 66000 + (int)pick(3000) : 250 + (int)pick(300);
        MGraph g;
        g.shape = "row";
        g.n = n;
        int w0 = range(1, 9), w1 = range(1, 9), detour = (int)pick((uint32_t)n);
        for (int i = 0; i + 1 < n; i++) {
            g.edges.push_back({i, i + 1, (double)(i % 2 ? w0 : w1), -1, 0, {}});
        }
        if (chance(1, 2) && detour + 2 < n) {
            g.edges.push_back({detour, detour + 2, (double)(w0 + w1 + range(-1, 1)), -1, 0, {}});
        }
        if (chance(1, 2)) {
            g.edges.push_back({0, BOUNDARY, (double)range(1, 9), -1, 0, {}});
        }
        auto ug = build_graph(g, 0);
        Oracle oracle(g);
        describe("row of %d nodes", n);
        count(n > 65535 ? "paths_over_65535_steps" : "paths_over_250_steps");
        int from = chance(1, 2) ? 0 : n - 1 - (int)pick(5);
        int to = chance(1, 3) ? BOUNDARY : chance(1, 2) ? n - 1 : (int)pick((uint32_t)n);
        if (chance(1, 2)) {
            std::swap(from, to);
        }
        check_path(g, oracle, *ug, from, to);
        check_path(g, oracle, *ug, (int)pick((uint32_t)n), (int)pick((uint32_t)n));
        set_order(ORDER_DEFAULT);
        return;
    }
    Scenario s = gen_scenario(8, true, false);
    Oracle oracle(s.g);
    auto ug = s.build();
    describe("%s", s.str().c_str());
    int ops = range(1, 10);
    const MGraph &g = s.g;
    for (int k = 0; k < ops; k++) {
        if (chance(1, 5)) {
            // Decodes in between must not be disturbed.
            Api api = pick_api(s);
            pm::Mwpm *m = get_decoder(*ug, needs_search(api), "(used)");
            auto dets = chance(1, 6) ? gen_out_of_range(g) : gen_syndrome(g, 20);
            compare_with_fresh(s, *m, api, dets, needs_search(api), "path queries");
            continue;
        }
        if (chance(1, 20)) {
            pick_order();
            size_t bad = (size_t)g.n + (chance(1, 2) ? 0 : 12345);
            bool first = chance(1, 2);
            auto r = path_query(*ug, first ? bad : 0, first ? 0 : bad);
            if (r.out.status == OK) {
                violation("not-rejected", "a path query with node %zu was accepted on a graph with %d nodes", bad, g.n);
            }
            continue;
        }
        int a = chance(1, 6) ? BOUNDARY : (int)pick(g.n);
        check_path(g, oracle, *ug, a, chance(1, 4) ? BOUNDARY : (int)pick(g.n));
    }
    set_order(ORDER_DEFAULT);
}

// ----------------------------------------------------------------------------------------- C06
static AllocFault draw_fault(uint64_t allocs) {
    AllocFault f;
    if (allocs == 0) {
        allocs = 1;
    }
    // Early and late allocations matter as much as those in the middle.
    uint32_t where = pick(4);
    uint32_t n = (uint32_t)std::min<uint64_t>(allocs, 1000000);
    f.fail_at = where == 0 ? pick(std::min<uint32_t>(n, 8)) : where == 1 ? n - 1 - pick(std::min<uint32_t>(n, 8)) : pick(n);
    uint32_t len = pick(4);
    f.fail_count = len < 2 ? 1 : len == 2 ? 2 + pick(4) : 1000000000;
    return f;
}
static void count_fault(const AllocFault &f) {
    if (f.fired) {
        count(f.fail_count == 1 ? "fault:allocation_failed_once"
              : f.fail_count < 100 ? "fault:allocation_failed_burst"
                                   : "fault:allocation_failed_until_end_of_call");
    }
}

void world_c06() {
    int kind = pick(3);
    if (kind == 0) {
        // Decodes and path queries on one decoder.
        Scenario s = gen_scenario(6, true);
        auto ug = s.build();
        describe("%s", s.str().c_str());
        int ops = range(1, 6);
        for (int k = 0; k < ops; k++) {
            Api api = pick_api(s);
            bool search = needs_search(api) || chance(1, 3);
            bool bad = chance(1, 10);
            auto dets = bad ? gen_out_of_range(s.g) : gen_syndrome(s.g, 30);
            if (chance(1, 6)) {
                size_t a = pick(s.g.n), b = chance(1, 3) ? SIZE_MAX : pick(s.g.n);
                auto fg = s.build();
                auto f = path_query(*fg, a, b);
                AllocFault fault = draw_fault(f.out.allocs);
                auto r = path_query(*ug, a, b, &fault);
                count_fault(fault);
                logf("path query with fault at %ld x%ld fired %lu: %s", (long)fault.fail_at, (long)fault.fail_count,
                     (unsigned long)fault.fired, status_name(r.out.status));
                if (!fault.fired || r.out.status == OK) {
                    if (r.out.status != f.out.status || r.nodes != f.nodes) {
                        violation("wrong-after-failure", "path %zu->%zd gives %s %s, expected %s %s; graph %s", a, (ssize_t)b,
                                  status_name(r.out.status), nodes_str(r.nodes).c_str(), status_name(f.out.status),
                                  nodes_str(f.nodes).c_str(), s.str().c_str());
                    }
                }
            } else {
                Result f = fresh_decode(s, api, dets, 0, search);
                AllocFault bf;
                if (chance(1, 4)) {
                    // Fail inside (re)building the decoder as well.
                    auto twin = s.build();
                    CallOutcome c;
                    get_decoder(*twin, search, "", nullptr, &c);
                    bf = draw_fault(c.allocs);
                    get_decoder(*ug, search, "", &bf, &c);
                    count_fault(bf);
                    if (c.status != OK && !bf.fired) {
                        violation("build-failed", "building the decoder failed: %s", c.what.c_str());
                    }
                }
                pm::Mwpm *m = get_decoder(*ug, search, "after a failed build");
                AllocFault fault = draw_fault(f.out.allocs);
                Result r = decode(*m, s.g.num_obs, api, dets, &fault);
                count_fault(fault);
                logf("%s %s with fault at %ld x%ld fired %lu: %s", api_name(api), dets_str(dets).c_str(),
                     (long)fault.fail_at, (long)fault.fail_count, (unsigned long)fault.fired, r.str().c_str());
                if (!fault.fired || r.out.status == OK) {
                    if (!r.same_as(f)) {
                        violation("wrong-after-failure", "%s of %s gives %s, a new decoder gives %s; graph %s", api_name(api),
                                  dets_str(dets).c_str(), r.str().c_str(), f.str().c_str(), s.str().c_str());
                    }
                } else {
                    nontrivial();
                }
            }
            // The next call must be answered as if nothing had happened.
            Api api2 = pick_api(s);
            bool search2 = needs_search(api2) || search;
            auto dets2 = chance(1, 2) ? gen_decodable(s.g, 30) : gen_syndrome(s.g, 30);
            pm::Mwpm *m = get_decoder(*ug, search2, "(used)");
            compare_with_fresh(s, *m, api2, dets2, search2, "a call that failed for lack of memory");
            describe("%s %s", api_name(api), dets_str(dets).c_str());
        }
    } else if (kind == 1) {
        // Graph edits.
        RefGraph ref;
        auto ug = std::make_unique<pm::UserGraph>();
        int ops = range(1, 14);
        for (int k = 0; k < ops; k++) {
            Edit e = gen_edit(ref);
            AllocFault fault;
            uint32_t n = 1u << pick(5);
            fault.fail_at = pick(n);
            fault.fail_count = chance(1, 3) ? 1000000000 : 1;
            RefGraph after = ref;
            bool ok = after.apply(e);
            CallOutcome c = apply_edit(*ug, e, chance(2, 3) ? &fault : nullptr);
            count_fault(fault);
            logf("%s fault %ld fired %lu -> %s", e.str().c_str(), (long)fault.fail_at, (unsigned long)fault.fired,
                 status_name(c.status));
            if (fault.fired && c.status != OK) {
                nontrivial();
                check_graph(*ug, ref, "after an edit that failed for lack of memory");
                // The edit may be repeated.
                c = apply_edit(*ug, e, nullptr);
            }
            if ((c.status == OK) != ok) {
                violation("wrong-edit", "edit %s gave %s (%s)", e.str().c_str(), status_name(c.status), c.what.c_str());
            }
            if (ok) {
                ref = after;
            }
            check_graph(*ug, ref, "after an edit");
            describe("%s", e.str().c_str());
        }
        if (ref.decodable()) {
            MGraph g = ref.to_model();
            Oracle oracle(g);
            pm::Mwpm *m = get_decoder(*ug, false, "after failed edits");
            auto dets = gen_syndrome(g, 20);
            Answer a = oracle.solve(dets);
            Result r = decode(*m, g.num_obs, API_OBS, dets);
            check_status(g, a, API_OBS, dets, r);
            if (a.feasible) {
                check_weight(g, a, API_OBS, dets, r);
            }
        }
    } else {
        // Loading an error model and building a decoder from it.
        DemOptions o;
        o.correlations = chance(1, 2);
        o.max_obs = chance(1, 3) ? 130 : 3;
        MDem d = gen_dem(o);
        MGraph g = dem_to_graph(d);
        Oracle oracle(g);
        stim::DetectorErrorModel dem(d.text);
        describe("{%s}", d.text.c_str());
        auto load = [&](AllocFault *f, std::unique_ptr<pm::UserGraph> &ug) {
            return call([&] {
                ug.reset(new pm::UserGraph(pm::detector_error_model_to_user_graph(dem, o.correlations, pm::NUM_DISTINCT_WEIGHTS)));
            }, f);
        };
        std::unique_ptr<pm::UserGraph> a, b;
        CallOutcome c = load(nullptr, a);
        if (c.status != OK) {
            violation("build-failed", "loading a valid error model failed: %s {%s}", c.what.c_str(), d.text.c_str());
        }
        AllocFault fault = draw_fault(c.allocs);
        CallOutcome c2 = load(&fault, b);
        count_fault(fault);
        if (fault.fired) {
            nontrivial();
        }
        if (c2.status != OK && !fault.fired) {
            violation("build-failed", "loading failed: %s", c2.what.c_str());
        }
        // Another model, graph or decoder is not affected.
        CallOutcome c3;
        {
            auto twin = std::make_unique<pm::UserGraph>();
            get_decoder(*a, true, "", nullptr, &c3);
            a.reset();
            load(nullptr, a);
        }
        AllocFault bf = draw_fault(c3.allocs);
        CallOutcome c4;
        get_decoder(*a, true, "", &bf, &c4);
        count_fault(bf);
        if (c4.status != OK && !bf.fired) {
            violation("build-failed", "building failed: %s", c4.what.c_str());
        }
        pm::Mwpm *m = get_decoder(*a, true, "after a failed build");
        auto dets = gen_syndrome(g, 20);
        Answer an = oracle.solve(dets);
        Result r = decode(*m, g.num_obs, API_OBS, dets);
        check_status(g, an, API_OBS, dets, r);
        if (an.feasible) {
            check_weight(g, an, API_OBS, dets, r);
            check_obs(g, an, API_OBS, dets, r);
        }
    }
}

// ----------------------------------------------------------------------------------------- C13
struct MemOp {
    int kind;
    Api api;
    bool search;
    std::vector<uint64_t> dets;
    size_t a, b;
    uint32_t tie;
    AllocFault fault;
};

void world_c13() {
    track_allocations(true);
    std::string desc;
    bool faults = chance(1, 3);
    {
        Scenario s = gen_scenario(7, chance(1, 3));
        auto ug = s.build();
        desc = s.str();
        describe("%s", desc.c_str());
        int n = range(1, 8);
        std::vector<MemOp> ops;
        for (int k = 0; k < n; k++) {
            MemOp o{};
            o.kind = pick(8);
            o.api = pick_api(s);
            o.search = needs_search(o.api) || chance(1, 3);
            o.dets = chance(1, 6) ? gen_out_of_range(s.g) : gen_syndrome(s.g, 30);
            o.a = pick(s.g.n);
            o.b = chance(1, 3) ? SIZE_MAX : pick(s.g.n);
            o.tie = chance(1, 2) ? 0 : 1 + pick(1000);
            if (faults && chance(1, 2)) {
                o.fault = draw_fault(60);
            }
            ops.push_back(o);
        }
        int reps = chance(1, 60) ? 300 : 12;
        uint64_t base = 0, last = 0;
        int growing = 0;  // repetitions in a row
        for (int r = 0; r < reps; r++) {
            for (auto &o : ops) {
                AllocFault f = o.fault;
                AllocFault *fp = f.fail_at >= 0 ? &f : nullptr;
                if (o.kind < 5) {
                    CallOutcome c;
                    pm::Mwpm *m = get_decoder(*ug, o.search, "", fp, &c);
                    if (c.status == OK) {
                        set_seeded_order(o.tie);
                        f.fired = 0;
                        decode(*m, s.g.num_obs, o.api, o.dets, fp);
                        set_order(ORDER_DEFAULT);
                    }
                } else if (o.kind == 5) {
                    set_seeded_order(o.tie);
                    path_query(*ug, o.a, o.b, fp);
                    set_order(ORDER_DEFAULT);
                } else if (o.kind == 6) {
                    call([&] { ug->update_mwpm(); }, fp);
                } else {
                    // Merging into an existing edge and putting it back leaves the graph as it was.
                    auto &e = s.g.edges.empty() ? *(new MEdge{0, BOUNDARY, 1, -1, 0, {}}) : s.g.edges[o.a % s.g.edges.size()];
                    call([&] {
                        auto st = o.tie % 2 ? pm::KEEP_ORIGINAL : pm::DISALLOW;
                        if (e.v == BOUNDARY) {
                            ug->add_or_merge_boundary_edge(e.u, e.obs, e.w, e.p, st);
                        } else {
                            ug->add_or_merge_edge(e.u, e.v, e.obs, e.w, e.p, st);
                        }
                    }, fp);
                }
                count_fault(f);
            }
            uint64_t now = live_bytes();
            logf("repetition %d: %lu bytes in %lu blocks", r, (unsigned long)now, (unsigned long)live_blocks());
            if (r == 3) {
                base = now;
            }
            growing = now > last ? growing + 1 : 0;
            last = now;
            if (growing > 60) {
                violation("memory-grows", "memory grew in each of %d repetitions of the same %zu operations, some of which fail for lack of memory: %lu bytes; graph %s",
                          growing, ops.size(), (unsigned long)now, desc.c_str());
            }
            if (!faults && r > 3 && now > base) {
                violation("memory-grows", "repeating the same %zu operations grows memory: %lu bytes after 4 repetitions, %lu after %d; graph %s",
                          ops.size(), (unsigned long)base, (unsigned long)now, r + 1, desc.c_str());
            }
        }
        nontrivial();
        note(base);
        call([&] { ug.reset(); });
    }
    if (live_blocks() != 0) {
        violation("leak", "%lu blocks (%lu bytes) are still allocated after everything was destroyed; graph %s",
                  (unsigned long)live_blocks(), (unsigned long)live_bytes(), desc.c_str());
    }
    track_allocations(false);
}

}  // namespace sim
