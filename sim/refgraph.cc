#include "refgraph.h"

#include <algorithm>
#include <cmath>

namespace sim {

static const char *strategy_names[] = {"disallow", "independent", "smallest-weight", "keep-original", "replace"};

std::string Edit::str() const {
    char b[160];
    if (kind == 0 || kind == 1) {
        snprintf(b, sizeof(b), "add %d-%s w=%.17g p=%g %s obs=[", u, kind == 1 ? "B" : std::to_string(v).c_str(), w, p,
                 strategy_names[strategy]);
        std::string s = b;
        for (auto o : obs) {
            s += std::to_string(o) + " ";
        }
        return s + "]";
    }
    if (kind == 2) {
        std::string s = "set_boundary{";
        for (auto x : boundary) {
            s += std::to_string(x) + " ";
        }
        return s + "}";
    }
    return "set_min_num_observables(" + std::to_string(num_obs) + ")";
}

RefEdge *RefGraph::find(int u, int v) {
    for (auto &e : edges) {
        if ((e.u == u && e.v == v) || (e.u == v && e.v == u)) {
            return &e;
        }
    }
    return nullptr;
}

static long double lse(long double a, long double b) {
    long double m = std::max(a, b), d = std::fabs(a - b);
    return m + std::log1p(std::exp(-d));
}
/// Log-likelihood ratio of the parity of two independent mechanisms.
static double combine(double a, double b) {
    return (double)(lse(0, (long double)a + b) - lse(a, b));
}
static bool valid_p(double p) {
    return p >= 0 && p <= 1;
}

bool RefGraph::apply(const Edit &e) {
    auto grow = [&](size_t k) { n = std::max(n, (int)k + 1); };
    auto see = [&](const std::vector<size_t> &obs) {
        for (auto o : obs) {
            num_obs = std::max(num_obs, o + 1);
        }
    };
    if (e.kind == 2) {
        boundary = e.boundary;
        for (auto b : boundary) {
            grow(b);
        }
        return true;
    }
    if (e.kind == 3) {
        num_obs = std::max(num_obs, e.num_obs);
        return true;
    }
    int v = e.kind == 1 ? BOUNDARY : e.v;
    RefEdge *old = find(e.u, v);
    if (!old) {
        grow(e.u);
        if (v != BOUNDARY) {
            grow(v);
        }
        edges.push_back({e.u, v, e.w, e.p, e.pal, e.obs});
        see(e.obs);
        return true;
    }
    switch (e.strategy) {
        case pm::DISALLOW:
            return false;
        case pm::KEEP_ORIGINAL:
            return true;
        case pm::SMALLEST_WEIGHT:
            if (e.w >= old->w) {
                return true;
            }
            [[fallthrough]];
        case pm::REPLACE:
            old->w = e.w;
            old->p = e.p;
            old->pal = e.pal;
            old->obs = e.obs;
            see(e.obs);
            return true;
        case pm::INDEPENDENT:
            old->w = combine(old->w, e.w);
            old->p = valid_p(old->p) && valid_p(e.p) ? old->p * (1 - e.p) + e.p * (1 - old->p) : -1;
            merged = true;
            return true;
    }
    return true;
}

bool RefGraph::decodable() const {
    for (auto &e : edges) {
        if (std::abs(e.w) > 16777215.0) {
            return false;
        }
    }
    return true;
}

MGraph RefGraph::to_model() {
    MGraph g;
    g.shape = "edited";
    g.n = n;
    g.num_obs = num_obs;
    g.palette = palette;
    for (auto &b : g.palette) {
        b.resize(std::max(num_obs, b.size()), 0);
    }
    for (auto b : boundary) {
        g.boundary.insert((int)b);
    }
    g.integral = !merged;
    ambiguous_observables = false;
    // Several routes from a node to the boundary count as the lightest of them.
    std::map<int, std::vector<size_t>> routes;
    std::vector<char> drop(edges.size(), 0);
    for (size_t k = 0; k < edges.size(); k++) {
        auto &e = edges[k];
        bool bu = g.is_boundary(e.u), bv = g.is_boundary(e.v);
        if (bu && bv) {
            drop[k] = 1;
        } else if (bu || bv) {
            routes[bu ? e.v : e.u].push_back(k);
        }
        if (std::round(e.w) != e.w) {
            g.integral = false;
        }
    }
    double heaviest = 0;
    for (auto &e : edges) {
        heaviest = std::max(heaviest, std::abs(e.w));
    }
    double tie = 1e-3 + 2 * heaviest / ((1 << 24) - 1);  // weights that may be equal once rounded
    for (auto &[node, ks] : routes) {
        size_t best = ks[0];
        bool negative = false;
        for (auto k : ks) {
            negative |= edges[k].w < 1e-6;
            if (edges[k].w < edges[best].w) {
                best = k;
            }
        }
        if (ks.size() > 1 && negative) {
            for (auto k : ks) {
                if (k != best) {
                    drop[k] = 1;
                    if (std::abs(edges[k].w - edges[best].w) < tie) {
                        ambiguous_observables = true;
                    }
                }
            }
        }
    }
    for (size_t k = 0; k < edges.size(); k++) {
        auto &e = edges[k];
        if (drop[k]) {
            continue;
        }
        g.edges.push_back({e.u, e.v, e.w, e.p, e.pal, e.obs});
        if (e.w < 0) {
            g.has_negative = true;
        }
    }
    // Discarded edges still bound the weights' scale; keep the count for the tolerance.
    return g;
}

static std::vector<size_t> pattern(const RefGraph &r, int pal) {
    std::vector<size_t> o;
    for (size_t i = 0; i < r.palette[0].size(); i++) {
        int x = 0;
        for (int k = 0; k < 3; k++) {
            x ^= (pal >> k & 1) & r.palette[k][i];
        }
        if (x) {
            o.push_back(i);
        }
    }
    return o;
}

Edit gen_edit(RefGraph &ref) {
    if (ref.palette.empty()) {
        size_t size = chance(1, 3) ? 66 : 3;
        for (int k = 0; k < 3; k++) {
            Bits b(size, 0);
            b[pick((uint32_t)size)] = 1;
            if (chance(1, 3)) {
                b[pick((uint32_t)size)] = 1;
            }
            ref.palette.push_back(b);
        }
    }
    Edit e;
    uint32_t k = pick(12);
    e.kind = k < 7 ? 0 : k < 10 ? 1 : k < 11 ? 2 : 3;
    if (e.kind <= 1) {
        int lim = ref.n < 3 ? 3 : ref.n < 7 ? ref.n + 1 : 7;
        e.u = pick(lim);
        e.v = pick(lim);
        if (e.u == e.v && chance(4, 5)) {
            e.v = (e.u + 1) % lim;
        }
        uint32_t ws = pick(60) / 3;
        if (ws < 14) {
            e.w = range(0, 6);
        } else if (ws < 16) {
            e.w = -range(1, 4);
        } else if (ws < 17) {
            e.w = range(0, 1 << 24) - 1;
        } else if (ws < 19 || pick(3)) {
            e.w = (double)range(1, 4000) / 256.0;
        } else {
            e.w = 16777216.0 * (chance(1, 2) ? 1 : 3);
        }
        static const double ps[] = {0.1, -1, 0.3, 0, 1, 0.5, 2};
        e.p = ps[pick(7)];
        e.pal = pick(8);
        e.obs = pattern(ref, e.pal);
        static const int st[] = {pm::DISALLOW, pm::REPLACE, pm::SMALLEST_WEIGHT, pm::INDEPENDENT, pm::KEEP_ORIGINAL};
        e.strategy = st[pick(5)];
    } else if (e.kind == 2) {
        int m = pick(4);
        for (int i = 0; i < m; i++) {
            e.boundary.insert(pick(9));
        }
    } else {
        static const size_t ns[] = {0, 1, 4, 64, 65, 70};
        e.num_obs = ns[pick(6)];
    }
    return e;
}

CallOutcome apply_edit(pm::UserGraph &ug, const Edit &e, AllocFault *fault) {
    count("edits");
    return call(
        [&] {
            switch (e.kind) {
                case 0:
                    ug.add_or_merge_edge(e.u, e.v, e.obs, e.w, e.p, (pm::MERGE_STRATEGY)e.strategy);
                    break;
                case 1:
                    ug.add_or_merge_boundary_edge(e.u, e.obs, e.w, e.p, (pm::MERGE_STRATEGY)e.strategy);
                    break;
                case 2:
                    ug.set_boundary(e.boundary);
                    break;
                default:
                    ug.set_min_num_observables(e.num_obs);
            }
        },
        fault);
}

void check_graph(pm::UserGraph &ug, RefGraph &ref, const char *when) {
    auto expect = [&](const char *what, double got, double want) {
        if (!(std::abs(got - want) <= 1e-9 * (1 + std::abs(want)))) {
            violation("wrong-graph", "%s: %s is %.17g, should be %.17g", when, what, got, want);
        }
    };
    expect("the number of nodes", (double)ug.get_num_nodes(), ref.n);
    expect("the number of edges", (double)ug.get_num_edges(), (double)ref.edges.size());
    expect("the number of observables", (double)ug.get_num_observables(), (double)ref.num_obs);
    expect("the number of detectors", (double)ug.get_num_detectors(), (double)ref.n - (double)ref.boundary.size());
    if (ug.get_boundary() != ref.boundary) {
        violation("wrong-graph", "%s: the boundary is wrong", when);
    }
    bool all_p = true;
    double mx = 0;
    for (auto &e : ref.edges) {
        all_p &= valid_p(e.p);
        mx = std::max(mx, std::abs(e.w));
    }
    expect("whether all edges have error probabilities", ug.all_edges_have_error_probabilities(), all_p);
    expect("the largest weight", ug.max_abs_weight(), mx);
    for (int i = 0; i < ref.n; i++) {
        expect("whether a node is a boundary node", ug.is_boundary_node(i), (double)ref.boundary.count(i));
        RefEdge *b = ref.find(i, BOUNDARY);
        expect("whether a node has a boundary edge", ug.has_boundary_edge(i), b != nullptr);
        for (int j = 0; j < ref.n; j++) {
            RefEdge *e = ref.find(i, j);
            expect("whether an edge exists", ug.has_edge(i, j), e != nullptr);
            if (e) {
                double w = 0;
                expect("whether an edge has a weight", ug.get_edge_or_boundary_edge_weight(i, j, w), 1);
                expect("the weight of an edge", w, e->w);
            }
        }
        if (b) {
            double w = 0;
            expect("whether a boundary edge has a weight", ug.get_edge_or_boundary_edge_weight(i, SIZE_MAX, w), 1);
            expect("the weight of a boundary edge", w, b->w);
        }
    }
    for (size_t out : {(size_t)ref.n, (size_t)ref.n + 1000, SIZE_MAX - 1}) {
        double w = 0;
        expect("whether a node outside the graph has edges",
               ug.has_edge(out, 0) || ug.has_boundary_edge(out) || ug.get_edge_or_boundary_edge_weight(out, 0, w) ||
                   (ref.n > 0 && ug.has_edge(0, out)),
               0);
    }
    size_t k = 0;
    for (auto &e : ug.edges) {
        int u = (int)e.node1, v = e.node2 == SIZE_MAX ? BOUNDARY : (int)e.node2;
        RefEdge *r = ref.find(u, v);
        if (!r) {
            violation("wrong-graph", "%s: the list of edges contains (%d,%d), which was never added", when, u, v);
        }
        expect("a listed weight", e.weight, r->w);
        expect("a listed error probability", e.error_probability, r->p);
        auto a = e.observable_indices, b = r->obs;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        if (a != b) {
            violation("wrong-graph", "%s: edge (%d,%d) has the wrong observables", when, u, v);
        }
        k++;
    }
    expect("the number of listed edges", (double)k, (double)ref.edges.size());
}

// ----------------------------------------------------------------------------------------- C08
void world_c08() {
    RefGraph ref;
    std::unique_ptr<pm::UserGraph> ug;
    int n0 = chance(1, 2) ? 0 : range(1, 5);
    size_t o0 = chance(1, 2) ? 0 : range(1, 4);
    call([&] {
        ug = n0 == 0 && o0 == 0 ? std::make_unique<pm::UserGraph>() : std::make_unique<pm::UserGraph>((size_t)n0, o0);
    });
    ref.n = n0;
    ref.num_obs = o0;
    int ops = range(2, 24);
    bool decoded = false;
    std::string hist;
    int burst_at = chance(1, 150) ? range(2, 12) : -1;
    for (int k = 0; k < ops; k++) {
        if (k == burst_at && !ref.edges.empty()) {
            // Very many edits with no decode in between: whatever counts them must not run over.
            static const size_t wraps[] = {256, 512, 128, 65536};
            size_t n = wraps[chance(1, 12) ? 3 : pick(3)] - 3 + pick(7);
            RefEdge old = ref.edges[pick((uint32_t)ref.edges.size())];
            Edit e;
            e.kind = old.v == BOUNDARY ? 1 : 0;
            e.u = old.u;
            e.v = old.v;
            e.p = old.p;
            e.pal = old.pal;
            e.obs = old.obs;
            e.strategy = pm::REPLACE;
            int cycle = range(1, 3), w0 = range(0, 20);
            for (size_t i = 0; i < n; i++) {
                e.w = w0 + (double)(i % (size_t)cycle);
                CallOutcome c = apply_edit(*ug, e, nullptr);
                if (!ref.apply(e) || c.status != OK) {
                    violation("wrong-edit", "edit %s (%zu of many) gave %s (%s) after %s", e.str().c_str(), i,
                              status_name(c.status), c.what.c_str(), hist.c_str());
                }
            }
            hist += std::to_string(n) + " times like " + e.str() + "; ";
            describe("%zu edits like %s", n, e.str().c_str());
            count("bursts_of_edits");
            check_graph(*ug, ref, "after many edits");
            continue;
        }
        if (k == 0 || chance(3, 5)) {
            Edit e = gen_edit(ref);
            RefGraph before = ref;
            bool ok = ref.apply(e);
            CallOutcome c = apply_edit(*ug, e, nullptr);
            logf("%s -> %s", e.str().c_str(), status_name(c.status));
            describe("%s", e.str().c_str());
            hist += e.str() + "; ";
            if ((c.status == OK) != ok) {
                violation("wrong-edit", "edit %s gave %s (%s) after %s", e.str().c_str(), status_name(c.status),
                          c.what.c_str(), hist.c_str());
            }
            if (!ok) {
                ref = before;
                count("edits_rejected");
            }
            check_graph(*ug, ref, "after an edit");
            continue;
        }
        MGraph g = ref.to_model();
        Oracle oracle(g);
        if (g.n && ref.decodable() && chance(1, 8)) {
            int a = chance(1, 6) ? BOUNDARY : (int)pick(g.n);
            check_path(g, oracle, *ug, a, chance(1, 4) ? BOUNDARY : (int)pick(g.n));
            continue;
        }
        auto dets = g.n ? gen_syndrome(g, 12) : std::vector<uint64_t>{};
        static const Api apis[] = {API_OBS, API_EDGES, API_PAIRS, API_OBS64, API_OBS_CORR, API_EDGES_CORR};
        Api api = apis[pick(6)];
        if (api == API_OBS64 && ref.num_obs > 64) {
            api = API_OBS;
        }
        int how = pick(3);
        bool search = (api != API_OBS && api != API_OBS64 && api != API_PAIRS) || how == 1;
        pm::Mwpm *m = nullptr;
        pm::Mwpm own;
        CallOutcome c = call([&] {
            if (how == 2) {
                own = ug->to_mwpm(pm::NUM_DISTINCT_WEIGHTS, search);
                m = &own;
            } else {
                m = search ? &ug->get_mwpm_with_search_graph() : &ug->get_mwpm();
            }
        });
        if (!ref.decodable()) {
            if (c.status == OK) {
                violation("not-rejected", "a decoder was built although a weight exceeds the maximum; %s", hist.c_str());
            }
            count("builds_rejected_overweight");
            continue;
        }
        if (c.status != OK) {
            violation("build-failed", "building the decoder failed (%s) after %s", c.what.c_str(), hist.c_str());
        }
        pick_order();
        Answer a = oracle.solve(dets);
        Result r = decode(*m, ref.num_obs, api, dets);
        set_order(ORDER_DEFAULT);
        logf("%s of %s -> %s (min %g)", api_name(api), dets_str(dets).c_str(), r.str().c_str(), a.weight);
        if (api == API_PAIRS && g.has_negative) {
            continue;
        }
        if (api == API_OBS_CORR || api == API_EDGES_CORR) {
            // Without error-model correlations the second pass sees the same weights.
            api = api == API_OBS_CORR ? API_OBS : API_EDGES;
        }
        check_status(g, a, api, dets, r);
        if (!a.feasible || r.out.status != OK) {
            continue;
        }
        decoded = true;
        if (k > 1) {
            nontrivial();
        }
        check_weight(g, a, api, dets, r);
        if (r.has_obs && !ref.ambiguous_observables) {
            check_obs(g, a, api, dets, r);
        }
        if (r.has_edges) {
            check_edges(g, a, dets, r);
        }
        if (r.has_pairs) {
            check_pairs(g, oracle, a, dets, r);
        }
    }
    (void)decoded;
}

}  // namespace sim
