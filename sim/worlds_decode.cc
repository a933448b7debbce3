// Worlds for single decodes under every order of simultaneous events: C01 (weight), C02
// (observables), C03 (edges and pairs), C17 (fractional weights).
#include <algorithm>
#include <cmath>
#include <tuple>

#include "sut.h"

namespace sim {

static GenOptions draw_options(int what) {
    GenOptions o;
    int size = pick(10);
    if (size < 5) {
        o.max_nodes = 5;
        o.max_edges = 9;
    } else if (size < 8) {
        o.max_nodes = 9;
        o.max_edges = 18;
    } else if (size < 9) {
        o.large = true;
        o.max_nodes = 40;
    } else {
        o.large = true;
        o.max_nodes = chance(1, 25) ? 800 : 250;
    }
    if (what == 1) {
        o.max_obs = 2;
        o.max_palette = 1;
    } else if (what == 2) {
        o.max_obs = chance(1, 8) ? 1000 : 200;
        o.max_palette = 3;
        o.gauge = true;
    } else if (what == 3) {
        o.max_obs = 80;
        o.gauge = true;
        o.max_palette = chance(1, 2) ? 0 : 1;
    }
    return o;
}

struct Decoder {
    std::unique_ptr<pm::UserGraph> graph;
    std::unique_ptr<pm::Mwpm> own;
    pm::Mwpm *m = nullptr;
    bool has_search = false;
};

static Decoder make_decoder(const MGraph &g, bool need_search) {
    Decoder d;
    int style = pick(3);
    d.graph = build_graph(g, style);
    int how = pick(3);
    CallOutcome c = call([&] {
        if (how == 0 && !need_search) {
            d.m = &d.graph->get_mwpm();
        } else if (how <= 1) {
            d.m = &d.graph->get_mwpm_with_search_graph();
            d.has_search = true;
        } else {
            d.own = std::make_unique<pm::Mwpm>(d.graph->to_mwpm(pm::NUM_DISTINCT_WEIGHTS, need_search));
            d.m = d.own.get();
            d.has_search = need_search;
        }
    });
    if (c.status != OK) {
        violation("build-failed", "building a decoder failed: %s; graph %s", c.what.c_str(), g.str().c_str());
    }
    return d;
}

/// Some other call before the one that is judged; what it returns is another property's business.
static void earlier_use(Decoder &d, const MGraph &g, int max_events) {
    count("other_calls_in_between");
    int what = pick(4);
    if (what == 0 && !d.own && d.graph->get_num_nodes() >= 2) {
        size_t a = pick((uint32_t)d.graph->get_num_nodes());
        size_t b = chance(1, 3) ? SIZE_MAX : pick((uint32_t)d.graph->get_num_nodes());
        std::vector<size_t> nodes;
        logf("in between: path query %zu %zd", a, (ssize_t)b);
        call([&] { d.graph->get_nodes_on_shortest_path_from_source(a, b, nodes); });
        note(nodes.size());
        return;
    }
    auto dets = gen_syndrome(g, max_events);
    if (what == 1) {
        dets.push_back((uint64_t)g.n + pick(3));
        shuffle(dets);
    }
    static const Api apis[] = {API_EDGES, API_PAIRS, API_OBS};
    Api api = apis[pick(3)];
    logf("in between: %s %s", api_name(api), dets_str(dets).c_str());
    decode(*d.m, g.num_obs, api, dets);
}

static void decode_world(int what) {
    GenOptions o = draw_options(what);
    bool crowd = chance(1, 200);
    Crowd many;
    MGraph g;
    std::unique_ptr<Oracle> base_oracle;
    if (crowd) {
        o.large = false;
        o.max_nodes = range(2, 6);
        o.max_edges = 9;
        o.max_obs = std::min<size_t>(o.max_obs, chance(1, 4) ? 100 : 10);
        many = gen_crowd(o, chance(1, 25) ? 66000 : 100 + pick(1900));
        g = many.all;
        base_oracle = std::make_unique<Oracle>(many.base);
        count(g.n > 65536 ? "graphs_over_65536_nodes" : "graphs_of_many_copies");
    } else {
        o.allow_fractional = what != 3 && chance(1, 8);
        g = gen_graph(o);
    }
    Oracle oracle(g);
    if (crowd) {
        oracle.shortcut = [&](int u, int v) {
            auto [cu, x] = many.origin(u);
            if (v == BOUNDARY) {
                return base_oracle->distance(x, BOUNDARY);
            }
            auto [cv, y] = many.origin(v);
            return cu == cv ? base_oracle->distance(x, y) : (double)INF;
        };
    }
    Decoder d = make_decoder(g, what == 3);
    int shots = range(1, o.large || crowd ? 4 : 8);
    describe("%s", crowd ? g.shape.c_str() : g.str().c_str());
    int max_events = o.large ? (o.max_nodes > 250 ? 130 : o.max_nodes > 50 ? 60 : 24) : 30;
    if (o.large && chance(1, 400)) {
        max_events = 270;
        count("large_graphs_with_up_to_270_events");
    }
    for (int k = 0; k < shots; k++) {
        Order ord = pick_order();
        if (!crowd && chance(1, 4)) {
            earlier_use(d, g, max_events);
        }
        std::vector<uint64_t> dets;
        Answer a;
        if (crowd) {
            std::tie(dets, a) = many.draw(*base_oracle);
        } else {
            dets = gen_syndrome(g, max_events);
            a = oracle.solve(dets);
        }
        Api api = API_OBS;
        if (what == 3) {
            api = chance(1, 2) ? API_PAIRS : API_EDGES;
        } else if (g.num_obs <= 64 && chance(1, 3)) {
            api = API_OBS64;
        }
        logf("shot %d: %s order=%s events=%s", k, api_name(api), order_name(ord), dets_str(dets).c_str());
        uint64_t before = shared->num_choices;
        Result r = decode(*d.m, g.num_obs, api, dets);
        logf("   -> %s   (minimum %s%.17g)", r.str().c_str(), a.feasible ? "" : "none ", a.weight);
        if (shared->num_choices > before || a.events >= 2) {
            nontrivial();
        }
        describe("%s %s order=%s -> %s", api_name(api), dets_str(dets).c_str(), order_name(ord), r.str().c_str());
        if (r.out.status != OK && what != 1) {
            // Rejection belongs to C05; here it only matters that a decodable syndrome is decoded.
            if (a.feasible && !(api == API_PAIRS && g.has_negative)) {
                check_status(g, a, api, dets, r);
            }
            continue;
        }
        if (what == 1) {
            check_status(g, a, api, dets, r);
        }
        if (r.out.status != OK || !a.feasible) {
            continue;
        }
        if (a.events >= 2) {
            count("decodes_with_two_or_more_events");
        }
        if (what == 1) {
            check_weight(g, a, api, dets, r);
        } else if (what == 2) {
            check_obs(g, a, api, dets, r);
            count(g.num_obs > 64 ? "predictions_over_64_observables" : "predictions_up_to_64_observables");
        } else if (api == API_EDGES) {
            check_edges(g, a, dets, r);
        } else {
            check_pairs(g, oracle, a, dets, r);
        }
        if (g.has_negative) {
            count("decodes_with_negative_weights");
        }
    }
    set_order(ORDER_DEFAULT);
}

void world_c01() {
    decode_world(1);
}
void world_c02() {
    decode_world(2);
}
void world_c03() {
    decode_world(3);
}

// Oracle self-test: the three oracles agree with each other (not a property; run by setup).
void world_selftest() {
    GenOptions o;
    o.max_nodes = 8;
    o.max_edges = 12;
    o.max_obs = 2;
    MGraph g = gen_graph(o);
    Oracle a(g), b(g);
    if (!a.use_enumeration) {
        throw Discard{};
    }
    b.use_enumeration = false;
    auto dets = gen_syndrome(g, 8);
    Answer x = a.solve(dets), y = b.solve(dets);
    nontrivial();
    bool enum_feasible = x.weight < (double)INF;
    if (x.feasible != y.feasible || (x.feasible && (x.weight != y.weight || !enum_feasible))) {
        violation("oracle", "enumeration %g and dynamic programming %g disagree on %s, %s", x.weight, y.weight,
                  dets_str(dets).c_str(), g.str().c_str());
    }
    for (int m = 0; m < 8 && x.feasible; m++) {
        if ((y.mask_weight[m] == y.weight) && x.mask_weight[m] != x.weight) {
            violation("oracle", "masks disagree");
        }
    }
    // Weighted blossom against dynamic programming on a random cost matrix.
    int n = 2 * range(1, 5);
    int hi = chance(1, 2) ? 5 : 1000;
    std::vector<std::vector<int64_t>> c(n, std::vector<int64_t>(n, INF));
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < i; j++) {
            c[i][j] = c[j][i] = chance(1, 5) ? INF : range(0, hi);
        }
    }
    std::vector<int64_t> best((size_t)1 << n, INF);
    best[0] = 0;
    for (uint32_t s = 1; s < (1u << n); s++) {
        int i = __builtin_ctz(s);
        for (uint32_t r = s & (s - 1); r; r &= r - 1) {
            int j = __builtin_ctz(r);
            if (c[i][j] < INF) {
                best[s] = std::min(best[s], best[s & ~(1u << i) & ~(1u << j)] + c[i][j]);
            }
        }
    }
    int64_t w = min_weight_perfect_matching(c);
    if (w != std::min(INF, best[(1u << n) - 1])) {
        violation("oracle", "weighted blossom %lld and dynamic programming %lld disagree", (long long)w,
                  (long long)best[(1u << n) - 1]);
    }
}

}  // namespace sim
