// World C09: correlated (two-pass) decoding against an independent statement of what it means.
#include <algorithm>
#include <cmath>

#include "corr.h"
#include "dem.h"
#include "sut.h"

namespace sim {

static std::unique_ptr<pm::UserGraph> load(const MDem &d, bool correlations) {
    std::unique_ptr<pm::UserGraph> r;
    CallOutcome c = call([&] {
        r.reset(new pm::UserGraph(pm::detector_error_model_to_user_graph(
            stim::DetectorErrorModel(d.text), correlations, pm::NUM_DISTINCT_WEIGHTS)));
    });
    if (c.status != OK) {
        violation("build-failed", "loading a valid error model failed: %s\n%s", c.what.c_str(), d.text.c_str());
    }
    return r;
}

MGraph reweighted(const MGraph &g, const std::vector<Implied> &imp, const std::vector<char> &in_first_pass) {
    MGraph h = g;
    for (auto &i : imp) {
        if (in_first_pass[i.cause] && h.edges[i.effect].u != h.edges[i.effect].v) {
            h.edges[i.effect].w = std::min(h.edges[i.effect].w, i.w);
        }
    }
    return h;
}

/// Every edge set that reproduces the syndrome with a weight within `tol` of the minimum.
std::vector<std::vector<char>> first_passes(const MGraph &g, const std::vector<uint64_t> &dets, double tol) {
    size_t E = g.edges.size();
    uint32_t target = 0;
    for (auto d : dets) {
        if (!g.boundary.count((int)d)) {
            target ^= 1u << d;
        }
    }
    std::vector<uint32_t> syn(E);
    for (size_t k = 0; k < E; k++) {
        syn[k] = 1u << g.edges[k].u;
        if (g.edges[k].v != BOUNDARY) {
            syn[k] ^= 1u << g.edges[k].v;
        }
    }
    std::vector<std::pair<double, uint32_t>> all;
    double best = 1e300;
    for (uint32_t s = 0; s < (1u << E); s++) {
        uint32_t y = 0;
        double w = 0;
        for (size_t k = 0; k < E; k++) {
            if (s >> k & 1) {
                y ^= syn[k];
                w += g.edges[k].w;
            }
        }
        if (y == target) {
            all.push_back({w, s});
            best = std::min(best, w);
        }
    }
    std::vector<std::vector<char>> r;
    for (auto &[w, s] : all) {
        if (w <= best + tol) {
            std::vector<char> in(E);
            for (size_t k = 0; k < E; k++) {
                in[k] = s >> k & 1;
            }
            r.push_back(in);
        }
    }
    return r;
}

/// Empty string if `r` is what a second pass on `h` may return.
static std::string mismatch(const MGraph &h, const std::vector<uint64_t> &dets, const Result &r) {
    Oracle o(h);
    Answer a = o.solve(dets);
    double tol = weight_tolerance(h, r.nc);
    char b[256];
    if (r.has_weight && !(std::abs(r.weight - a.weight) <= tol)) {
        snprintf(b, sizeof(b), "weight %.12g instead of %.12g", r.weight, a.weight);
        return b;
    }
    if (r.has_obs && !obs_allowed(h, dets, a, r.obs, 2 * tol)) {
        return "observables " + bits_str(r.obs) + " of no minimum-weight explanation";
    }
    if (r.has_edges) {
        std::vector<char> s(h.n, 0);
        for (auto d : dets) {
            s[d] ^= !h.boundary.count((int)d);
        }
        double w = 0;
        std::vector<char> seen(h.edges.size(), 0);
        for (auto [u, v] : r.edges) {
            int k = find_edge(h, (int)u, (int)v);
            if (k < 0 || seen[k]) {
                return "an edge that is repeated or not in the graph";
            }
            seen[k] = 1;
            w += h.edges[k].w;
            s[h.edges[k].u] ^= 1;
            if (h.edges[k].v != BOUNDARY) {
                s[h.edges[k].v] ^= 1;
            }
        }
        for (auto x : s) {
            if (x) {
                return "edges that do not reproduce the syndrome";
            }
        }
        if (!(std::abs(w - a.weight) <= 2 * tol)) {
            snprintf(b, sizeof(b), "edges of weight %.12g instead of %.12g", w, a.weight);
            return b;
        }
    }
    return "";
}

static void merge_boundary(MGraph &h) {
    for (auto &e : h.edges) {
        bool bu = h.is_boundary(e.u), bv = h.is_boundary(e.v);
        if (bu && bv) {
            e.v = e.u;
            e.w = 50;
        } else if (bu || bv) {
            e.u = bu ? e.v : e.u;
            e.v = BOUNDARY;
        }
    }
}
/// Per node with boundary edges, their positions, lightest first.
static std::vector<std::vector<int>> boundary_routes(const MGraph &h) {
    std::map<int, std::vector<int>> m;
    for (size_t k = 0; k < h.edges.size(); k++) {
        if (h.edges[k].v == BOUNDARY) {
            m[h.edges[k].u].push_back((int)k);
        }
    }
    std::vector<std::vector<int>> r;
    for (auto &[u, v] : m) {
        std::stable_sort(v.begin(), v.end(), [&](int a, int b) { return h.edges[a].w < h.edges[b].w; });
        r.push_back(v);
    }
    return r;
}

/// The graph as the decoder sees it. Edges keep their positions: an edge to a node of the boundary is a boundary
/// edge, and an edge between two such nodes becomes a loop that no optimum uses.
static MGraph seen_by_decoder(const MGraph &g) {
    MGraph h = g;
    h.has_negative = false;
    merge_boundary(h);
    // Of several routes to the boundary only the lightest counts, with what it implies.
    for (auto &routes : boundary_routes(h)) {
        for (size_t k = 1; k < routes.size(); k++) {
            MEdge &e = h.edges[routes[k]];
            e.v = e.u;
            e.w = 50;
        }
    }
    for (auto &e : h.edges) {
        h.has_negative |= e.w < 0;
    }
    return h;
}
/// Is it a matter of convention what a node with several routes to the boundary does? (Routes of nearly equal weight,
/// or rules that could make another route the lightest.)
static bool ambiguous_boundary(const MGraph &g, const std::vector<Implied> &imp) {
    MGraph h = g;
    merge_boundary(h);
    for (auto &routes : boundary_routes(h)) {
        if (routes.size() < 2) {
            continue;
        }
        if (h.edges[routes[1]].w - h.edges[routes[0]].w < 0.05) {
            return true;
        }
        for (auto &i : imp) {
            if (std::count(routes.begin() + 1, routes.end(), i.effect) &&
                (h.edges[routes[0]].w < 0 || i.w < h.edges[routes[0]].w + 0.05)) {
                return true;
            }
        }
        count("correlated_nodes_with_several_boundary_routes");
    }
    return false;
}

static std::vector<size_t> obs_of_palette(const MGraph &g, int pal) {
    std::vector<size_t> r;
    for (size_t i = 0; i < g.num_obs; i++) {
        int x = 0;
        for (size_t k = 0; k < g.palette.size(); k++) {
            x ^= (pal >> k & 1) & g.palette[k][i];
        }
        if (x) {
            r.push_back(i);
        }
    }
    return r;
}

/// One edit of a graph that was loaded with correlations. The weights that edges imply for each other stay.
static void edit_correlated(pm::UserGraph &ug, MGraph &g, const std::vector<Implied> &imp) {
    int kind = pick(6);
    auto rejected_or_ok = [&](const char *what, Status want, const CallOutcome &c) {
        if (c.status != want) {
            violation(want == OK ? "unexpected-error" : "not-rejected", "%s: %s (%s); {%s}", what, status_name(c.status),
                      c.what.c_str(), g.str().c_str());
        }
    };
    auto weight = [&] { return chance(1, 4) ? (double)pick(5) : 0.05 + 6.0 * pick(1 << 16) / (1 << 16); };
    auto set = [&](MEdge &e, pm::MERGE_STRATEGY s, double w) {
        return call([&] {
            double p = 1 / (1 + std::exp(w));
            if (e.v == BOUNDARY) {
                ug.add_or_merge_boundary_edge((size_t)e.u, e.obs, w, p, s);
            } else if (chance(1, 2)) {
                ug.add_or_merge_edge((size_t)e.v, (size_t)e.u, e.obs, w, p, s);
            } else {
                ug.add_or_merge_edge((size_t)e.u, (size_t)e.v, e.obs, w, p, s);
            }
        });
    };
    if (kind == 0 || kind == 1) {
        if (g.edges.size() >= 13 && g.n <= 9) {
            return;
        }
        MEdge e;
        e.u = (int)pick((uint32_t)g.n + (g.n < 8));
        e.v = chance(1, 3) ? BOUNDARY : (int)pick((uint32_t)g.n);
        if (e.u == e.v || find_edge(g, e.u, e.v) >= 0) {
            return;
        }
        e.w = weight();
        if (chance(1, 3)) {
            e.w = -e.w;
        }
        e.p = -1;
        e.pal = g.palette.empty() ? 0 : (int)pick(1u << g.palette.size());
        e.obs = obs_of_palette(g, e.pal);
        MGraph g2 = g;
        g2.n = std::max(g.n, e.u + 1);
        g2.edges.push_back(e);
        if (ambiguous_boundary(g2, imp)) {
            return;
        }
        rejected_or_ok("adding an edge", OK, set(e, pm::DISALLOW, e.w));
        g = g2;
        count("edits_of_correlated_graphs");
    } else if (kind == 2 || kind == 3) {
        MGraph g2 = g;
        MEdge &e = g2.edges[pick((uint32_t)g.edges.size())];
        if (e.w < 0) {
            return;
        }
        double w = weight();
        bool replace = kind == 2;
        if (replace) {
            e.pal = g.palette.empty() ? 0 : (int)pick(1u << g.palette.size());
            e.obs = obs_of_palette(g, e.pal);
            e.w = w;
        } else {
            double pa = 1 / (1 + std::exp(e.w)), pb = 1 / (1 + std::exp(w));
            double p = pa * (1 - pb) + pb * (1 - pa);
            e.w = std::log((1 - p) / p);
        }
        if (ambiguous_boundary(g2, imp)) {
            return;
        }
        rejected_or_ok("changing an edge", OK, set(e, replace ? pm::REPLACE : pm::INDEPENDENT, w));
        g = g2;
        count("edits_of_correlated_graphs");
    } else if (kind == 4) {
        MGraph g2 = g;
        g2.boundary.clear();
        std::set<size_t> b;
        for (int k = 0, m = (int)pick(3); k < m; k++) {
            int x = (int)pick((uint32_t)g.n);
            g2.boundary.insert(x);
            b.insert((size_t)x);
        }
        if (ambiguous_boundary(g2, imp)) {
            return;
        }
        rejected_or_ok("setting the boundary", OK, call([&] { ug.set_boundary(b); }));
        g = g2;
        count("edits_of_correlated_graphs");
        count("boundary_changes_of_correlated_graphs");
    } else if (!imp.empty() && chance(1, 2)) {
        // A weight may not be implied across zero: refused when the decoder is built, and curable.
        const Implied &i = imp[pick((uint32_t)imp.size())];
        MEdge &e = g.edges[i.effect];
        if (e.w < 0 || i.w < 0.01) {
            return;
        }
        rejected_or_ok("changing an edge", OK, set(e, pm::REPLACE, -1 - weight()));
        rejected_or_ok("building a decoder that implies a weight of the other sign", REJECTED,
                       call([&] { ug.get_mwpm_with_search_graph(); }));
        rejected_or_ok("changing an edge back", OK, set(e, pm::REPLACE, e.w));
        count("fault:implied_weight_of_other_sign");
    }
}

/// Models that cannot be decoded with correlations are refused when loaded so, and only then.
static void malformed_model(MDem d) {
    int kind = pick(4);
    std::string line;
    bool bad = true;
    auto D = [&](int k) { return " D" + std::to_string(k); };
    auto some = [&](int m, bool distinct) {
        std::string s;
        for (int k = 0; k < m; k++) {
            s += D(distinct ? k : (int)pick((uint32_t)d.nd));
        }
        return s;
    };
    if (kind == 0) {
        if (d.nd < 3) {
            throw Discard{};
        }
        std::string h = some(3 + (int)pick(2) * (d.nd > 3), true);
        int where = pick(3);
        line = where == 0 ? h : where == 1 ? h + " ^" + D(0) : D(0) + " ^" + h;
        line = "error(0.1)" + line;
    } else if (kind == 1) {
        static const char *ps[] = {"0.6", "1", "0.50001"};
        line = std::string("error(") + ps[pick(3)] + ")" + D((int)pick((uint32_t)d.nd));
    } else if (kind == 2) {
        std::string l0 = d.no ? " L0" : "";
        int where = pick(3);
        line = where == 0 ? l0 + " ^" + D(0) : where == 1 ? D(0) + " ^" + l0 : D(0) + l0 + " ^" + l0 + " ^" + D(0);
        line = "error(0.1)" + line;
    } else {
        // Harmless: such errors do not happen, or change nothing that can be detected.
        bad = false;
        line = chance(1, 2) && d.no ? "error(0.1) L0" : "error(0)" + some(d.nd >= 3 ? 3 : 1, true);
    }
    std::string text;
    size_t lines = (size_t)std::count(d.text.begin(), d.text.end(), '\n'), at = pick((uint32_t)lines + 1), k = 0;
    for (size_t i = 0;; k++) {
        if (k == at) {
            text += line + "\n";
        }
        size_t e = d.text.find('\n', i);
        if (e == std::string::npos) {
            break;
        }
        text += d.text.substr(i, e + 1 - i);
        i = e + 1;
    }
    describe("{%s}", text.c_str());
    std::unique_ptr<pm::UserGraph> ug;
    CallOutcome c = call([&] {
        ug.reset(new pm::UserGraph(
            pm::detector_error_model_to_user_graph(stim::DetectorErrorModel(text), true, pm::NUM_DISTINCT_WEIGHTS)));
    });
    count("fault:error_model_unfit_for_correlations", bad);
    nontrivial();
    if (c.status != (bad ? REJECTED : OK)) {
        violation(bad ? "not-rejected" : "wrongly-rejected", "loading with correlations: %s (%s); {%s}", status_name(c.status),
                  c.what.c_str(), text.c_str());
    }
    if (!bad) {
        d.text = text;
        auto ug2 = load(d, true);
        MGraph g = dem_to_graph(d);
        if ((int)ug->get_num_edges() != (int)g.edges.size()) {
            violation("wrong-graph", "a harmless error changed the graph: %zu edges instead of %zu; {%s}", ug->get_num_edges(),
                      g.edges.size(), text.c_str());
        }
    }
}

void endure(bool rejections, bool paths);

void world_c09() {
    if (chance(1, 400)) {
        endure(true, false);
        return;
    }
    DemOptions o;
    o.correlations = true;
    bool small = chance(2, 3), many = false;
    o.max_obs = chance(1, 4) ? 130 : 3;
    if (small) {
        o.max_dets = 5;
        o.max_edges = 8;
        o.max_errors = 10;
        o.generic = chance(1, 2);
    } else {
        o.generic = true;
        o.chain = chance(1, 2);
        o.max_dets = o.chain ? 40 : 16;
        o.max_edges = 40;
        o.max_errors = 60;
        if (chance(1, 15)) {
            // Hundreds of edges reweighted at once.
            many = o.chain = o.rich = true;
            o.max_dets = 400;
            o.max_obs = 0;
            o.max_palette = 0;
        }
    }
    MDem d = gen_dem(o);
    MGraph g = dem_to_graph(d);
    if (g.edges.empty() || (small && g.edges.size() > 11)) {
        throw Discard{};
    }
    if (chance(1, 25)) {
        malformed_model(d);
        return;
    }
    describe("{%s}", d.text.c_str());
    if (chance(1, 25)) {
        // Loaded without correlations: asking for them is an error and harms nothing.
        auto ug = load(d, false);
        pm::Mwpm *m = nullptr;
        call([&] { m = &ug->get_mwpm_with_search_graph(); });
        Oracle oracle(g);
        static const Api corr[] = {API_OBS_CORR, API_EDGES_CORR};
        for (int k = 0; k < 3; k++) {
            auto dets = gen_syndrome(g, 16);
            pick_order();
            Result r = decode(*m, g.num_obs, corr[pick(2)], dets);
            if (r.out.status != REJECTED) {
                violation("not-rejected", "correlated decode of a model loaded without correlations: %s; {%s}", r.str().c_str(),
                          d.text.c_str());
            }
            auto dets2 = gen_syndrome(g, 16);
            r = decode(*m, g.num_obs, API_OBS, dets2);
            Answer a = oracle.solve(dets2);
            check_status(g, a, API_OBS, dets2, r);
            if (a.feasible) {
                check_weight(g, a, API_OBS, dets2, r);
            }
        }
        set_order(ORDER_DEFAULT);
        nontrivial();
        return;
    }
    auto imp = implied_weights(d, g);
    auto ug = load(d, true);
    pm::Mwpm *m = nullptr;
    CallOutcome c = call([&] { m = &ug->get_mwpm_with_search_graph(); });
    if (c.status != OK) {
        violation("build-failed", "building a decoder failed: %s; {%s}", c.what.c_str(), d.text.c_str());
    }
    MGraph user = g;
    bool edits = chance(1, 3);
    auto oracle_ptr = std::make_unique<Oracle>(g);
    int ops = range(1, 6);
    bool after_corr = false;
    for (int k = 0; k < ops; k++) {
        if (edits && chance(1, 2)) {
            for (int j = range(1, 3); j > 0; j--) {
                edit_correlated(*ug, user, imp);
            }
            g = seen_by_decoder(user);
            oracle_ptr = std::make_unique<Oracle>(g);
            c = call([&] { m = &ug->get_mwpm_with_search_graph(); });
            if (c.status != OK) {
                violation("build-failed", "building a decoder after edits failed: %s; {%s} edited to %s", c.what.c_str(),
                          d.text.c_str(), user.str().c_str());
            }
            describe("edited to %s", user.str().c_str());
        }
        Oracle &oracle = *oracle_ptr;
        auto dets = gen_syndrome(g, small ? 8 : many ? 10 + (int)pick(240) : 14);
        Answer a = oracle.solve(dets);
        Order ord = pick_order();
        if (chance(1, 3)) {
            // A plain decode or path query must see the original weights.
            int which = pick(3);
            Api api = which == 0 ? API_OBS : which == 1 ? API_EDGES : API_PAIRS;
            Result r = decode(*m, g.num_obs, api, dets);
            logf("%s %s -> %s", api_name(api), dets_str(dets).c_str(), r.str().c_str());
            check_status(g, a, api, dets, r);
            if (a.feasible) {
                if (which == 0) {
                    check_weight(g, a, api, dets, r);
                    check_obs(g, a, api, dets, r);
                } else if (which == 1) {
                    check_edges(g, a, dets, r);
                } else if (!g.has_negative) {
                    check_pairs(g, oracle, a, dets, r);
                }
                if (after_corr) {
                    count("plain_decodes_after_correlated");
                }
            }
            continue;
        }
        Api api = pick(2) ? API_EDGES_CORR : g.num_obs <= 64 && chance(1, 2) ? API_OBS64_CORR : API_OBS_CORR;
        Result r = decode(*m, g.num_obs, api, dets);
        logf("%s %s order=%s -> %s", api_name(api), dets_str(dets).c_str(), order_name(ord), r.str().c_str());
        describe("%s %s -> %s", api_name(api), dets_str(dets).c_str(), r.str().c_str());
        check_status(g, a, api, dets, r);
        if (!a.feasible) {
            count("correlated_decodes_rejected");
            after_corr = true;
            continue;
        }
        after_corr = true;
        double tol = 2 * weight_tolerance(g, r.nc) + 1e-9;
        std::string why;
        if (small) {
            auto s = first_passes(g, dets, tol);
            if (s.size() > 64) {
                continue;
            }
            bool ok = false;
            bool changed = false;
            for (auto &x : s) {
                MGraph h = reweighted(g, imp, x);
                std::string w = mismatch(h, dets, r);
                if (w.empty()) {
                    ok = true;
                }
                why = w;
                for (size_t e = 0; e < g.edges.size(); e++) {
                    changed |= h.edges[e].w != g.edges[e].w;
                }
            }
            if (changed) {
                nontrivial();
                count("correlated_decodes_with_reweighting");
            }
            if (s.size() > 1) {
                count("correlated_decodes_with_several_first_passes");
            }
            if (!ok) {
                violation("wrong-two-pass", "%s of %s: %s (for the last of %zu first passes): %s; {%s}", api_name(api),
                          dets_str(dets).c_str(), why.c_str(), s.size(), r.str().c_str(), d.text.c_str());
            }
        } else {
            // Without ties the first pass is the plain decode to edges (itself checked).
            set_order(ORDER_DEFAULT);
            Result f = decode(*m, g.num_obs, API_EDGES, dets);
            if (f.out.status != OK) {
                violation("wrong-two-pass", "%s was decoded with correlations but not without: %s; {%s}",
                          dets_str(dets).c_str(), f.str().c_str(), d.text.c_str());
            }
            check_edges(g, a, dets, f);
            std::vector<char> in(g.edges.size(), 0);
            for (auto [u, v] : f.edges) {
                in[find_edge(g, (int)u, (int)v)] = 1;
            }
            MGraph h = reweighted(g, imp, in);
            bool changed = false;
            for (size_t e = 0; e < g.edges.size(); e++) {
                changed |= h.edges[e].w != g.edges[e].w;
            }
            if (changed) {
                nontrivial();
                count("correlated_decodes_with_reweighting");
            }
            why = mismatch(h, dets, r);
            if (!why.empty()) {
                // Only a verdict if no other first pass is possible: leaving out any of its edges costs weight.
                bool unique = true;
                for (size_t e = 0; e < g.edges.size() && unique; e++) {
                    if (in[e]) {
                        MGraph h2 = g;
                        h2.edges.erase(h2.edges.begin() + (ptrdiff_t)e);
                        Oracle o2(h2);
                        Answer a2 = o2.solve(dets);
                        unique = !a2.feasible || a2.weight > a.weight + tol;
                    }
                }
                if (unique) {
                    violation("wrong-two-pass", "%s of %s: %s: %s; {%s}", api_name(api), dets_str(dets).c_str(), why.c_str(),
                              r.str().c_str(), d.text.c_str());
                }
                count("undecided_because_of_a_tie");
            }
        }
    }
    set_order(ORDER_DEFAULT);
}

}  // namespace sim
