#include "sut.h"

#include <algorithm>
#include <cmath>
#include <map>

namespace sim {

const char *api_name(Api a) {
    static const char *n[] = {"observables",      "observables64",      "edges",     "pairs",
                              "observables+corr", "observables64+corr", "edges+corr"};
    return n[a];
}

bool Result::same_as(const Result &o) const {
    return out.status == o.out.status && raw_weight == o.raw_weight && obs == o.obs && edges == o.edges &&
           pairs == o.pairs && pair_masks == o.pair_masks;
}
std::string Result::str() const {
    std::string s = status_name(out.status);
    if (out.status != OK) {
        return s + " (" + out.what.substr(0, 120) + ")";
    }
    char b[64];
    if (has_weight) {
        snprintf(b, sizeof(b), " weight=%.12g", weight);
        s += b;
    }
    if (has_obs) {
        s += " obs=" + bits_str(obs);
    }
    auto list = [&](const char *name, const std::vector<std::pair<int64_t, int64_t>> &v) {
        s += std::string(" ") + name + "=[";
        for (auto [x, y] : v) {
            s += "(" + std::to_string(x) + "," + std::to_string(y) + ")";
            if (s.size() > 600) {
                s += "...";
                break;
            }
        }
        s += "]";
    };
    if (has_edges) {
        list("edges", edges);
    }
    if (has_pairs) {
        list("pairs", pairs);
    }
    return s;
}
void Result::note_all() const {
    note((uint64_t)out.status);
    note((uint64_t)raw_weight);
    for (auto b : obs) {
        note(b);
    }
    for (auto [a, b] : edges) {
        note((uint64_t)(a * 1000003 + b));
    }
    for (auto [a, b] : pairs) {
        note((uint64_t)(a * 1000003 + b));
    }
    for (auto m : pair_masks) {
        note(m);
    }
}

std::unique_ptr<pm::UserGraph> build_graph(const MGraph &g, int style) {
    std::unique_ptr<pm::UserGraph> ug;
    CallOutcome c = call([&] {
        switch (style) {
            case 0:
                ug = std::make_unique<pm::UserGraph>((size_t)g.n, g.num_obs);
                break;
            case 1:
                ug = std::make_unique<pm::UserGraph>((size_t)g.n);
                ug->set_min_num_observables(g.num_obs);
                break;
            default:
                ug = std::make_unique<pm::UserGraph>();
                ug->set_min_num_observables(g.num_obs);
                break;
        }
        std::set<size_t> b;
        for (int x : g.boundary) {
            b.insert((size_t)x);
        }
        if (style == 1 && !b.empty()) {
            ug->set_boundary(b);
        }
        auto add = [&](const MEdge &e) {
            if (e.v == BOUNDARY) {
                ug->add_or_merge_boundary_edge((size_t)e.u, e.obs, e.w, e.p);
            } else {
                ug->add_or_merge_edge((size_t)e.u, (size_t)e.v, e.obs, e.w, e.p);
            }
        };
        size_t shadow = 0;
        for (size_t k = 0; k <= g.edges.size(); k++) {
            for (; shadow < g.shadowed.size() && g.shadowed[shadow].first <= k; shadow++) {
                add(g.shadowed[shadow].second);
            }
            if (k < g.edges.size()) {
                add(g.edges[k]);
            }
        }
        if (style != 1 && !b.empty()) {
            ug->set_boundary(b);
        }
        if (style == 2 && ug->get_num_nodes() < (size_t)g.n) {
            ug->nodes.resize(g.n);
        }
    });
    if (c.status != OK) {
        violation("build-failed", "building a valid graph failed: %s (%s)", c.what.c_str(), g.str().c_str());
    }
    return ug;
}

Result decode(
    pm::Mwpm &m, size_t num_obs, Api api, const std::vector<uint64_t> &dets, AllocFault *fault, uint64_t budget) {
    Result r;
    constexpr size_t PAD = 64;
    std::vector<uint8_t> obs(num_obs + PAD, 0);
    std::fill(obs.begin() + num_obs, obs.end(), 0xA5);
    std::vector<int64_t> edges;
    pm::total_weight_int w = 0;
    pm::MatchingResult mr;
    count(api_name(api));
    r.out = call(
        [&] {
            switch (api) {
                case API_OBS:
                case API_OBS_CORR:
                    pm::decode_detection_events(m, dets, obs.data(), w, api == API_OBS_CORR);
                    break;
                case API_OBS64:
                case API_OBS64_CORR:
                    mr = pm::decode_detection_events_for_up_to_64_observables(m, dets, api == API_OBS64_CORR);
                    break;
                case API_EDGES:
                    pm::decode_detection_events_to_edges(m, dets, edges);
                    break;
                case API_EDGES_CORR:
                    pm::decode_detection_events_to_edges_with_edge_correlations(m, dets, edges);
                    break;
                case API_PAIRS:
                    pm::decode_detection_events_to_match_edges(m, dets);
                    break;
            }
        },
        fault, budget);
    for (size_t k = num_obs; k < obs.size(); k++) {
        if (obs[k] != 0xA5) {
            violation("out-of-bounds-write", "a decode wrote past the end of the observable array (%s, %zu observables)",
                      dets_str(dets).c_str(), num_obs);
        }
    }
    if (r.out.status != OK) {
        count("calls_rejected", r.out.status == REJECTED);
        return r;
    }
    r.nc = m.flooder.graph.normalising_constant;
    switch (api) {
        case API_OBS:
        case API_OBS_CORR:
            r.has_weight = r.has_obs = true;
            r.raw_weight = w;
            r.obs.assign(obs.begin(), obs.begin() + num_obs);
            {
                // Results of independent parts add up: weights as numbers, observables by parity.
                std::vector<uint8_t> bits(r.obs.begin(), r.obs.end()), odd(num_obs), sum(num_obs);
                for (size_t k = 0; k < num_obs; k++) {
                    odd[k] = k % 2;
                    sum[k] = bits[k] ^ odd[k];
                }
                pm::ExtendedMatchingResult a(bits, w), b(odd, 5), c = a + b;
                a += b;
                b.reset();
                if (c != pm::ExtendedMatchingResult(sum, w + 5) || a != c || b != pm::ExtendedMatchingResult(num_obs)) {
                    violation("bad-sum", "two results of weights %lld and 5 add up to %lld: %s", (long long)w, (long long)c.weight,
                              dets_str(dets).c_str());
                }
            }
            break;
        case API_OBS64:
        case API_OBS64_CORR:
            r.has_weight = r.has_obs = true;
            r.raw_weight = mr.weight;
            for (size_t k = 0; k < num_obs; k++) {
                r.obs.push_back(k < 64 ? (mr.obs_mask >> k) & 1 : 0);
            }
            if (num_obs < 64 && (mr.obs_mask >> num_obs)) {
                violation("bad-observables", "an observable beyond the last one was predicted (%s)", dets_str(dets).c_str());
            }
            if (num_obs <= 64) {
                // The two representations of a prediction must convert into each other.
                std::vector<uint8_t> bits(r.obs.begin(), r.obs.end()), back(num_obs, 0);
                pm::fill_bit_vector_from_obs_mask(mr.obs_mask, back.data(), num_obs);
                if (back != bits || pm::bit_vector_to_obs_mask(bits) != mr.obs_mask) {
                    violation("bad-observables", "the prediction with mask %llx of %zu observables does not convert to bits and back",
                              (unsigned long long)mr.obs_mask, num_obs);
                }
            }
            break;
        case API_EDGES:
        case API_EDGES_CORR:
            r.has_edges = true;
            for (size_t k = 0; k + 1 < edges.size(); k += 2) {
                r.edges.push_back({edges[k], edges[k + 1]});
            }
            if (edges.size() % 2) {
                violation("bad-edges", "edge list has odd length");
            }
            break;
        case API_PAIRS: {
            r.has_pairs = true;
            auto base = m.flooder.graph.nodes.data();
            for (auto &e : m.flooder.match_edges) {
                r.pairs.push_back({e.loc_from ? e.loc_from - base : -1, e.loc_to ? e.loc_to - base : -1});
                r.pair_masks.push_back(e.obs_mask);
            }
            break;
        }
    }
    if (num_obs > 64 && r.has_obs) {
        std::vector<uint8_t> bits(r.obs.begin(), r.obs.end());
        bool thrown = false;
        try {
            pm::bit_vector_to_obs_mask(bits);
        } catch (const std::invalid_argument &) {
            thrown = true;
        }
        if (!thrown) {
            violation("bad-observables", "%zu observables were squeezed into a mask of 64", num_obs);
        }
        thrown = false;
        try {
            pm::fill_bit_vector_from_obs_mask(1, bits.data(), num_obs);
        } catch (const std::invalid_argument &) {
            thrown = true;
        }
        if (!thrown) {
            violation("bad-observables", "%zu observables were filled from a mask of 64", num_obs);
        }
    }
    if (r.has_weight) {
        r.weight = (double)r.raw_weight / r.nc;
    }
    r.flood_time = m.flooder.queue.cur_time;
    count("flood_time_units", (uint64_t)std::max<int64_t>(0, r.flood_time));
    count("detection_events", dets.size());
    r.note_all();
    return r;
}

double weight_tolerance(const MGraph &g, double nc) {
    if (g.integral) {
        return 0;
    }
    double total = 0;
    for (auto &e : g.edges) {
        total += std::abs(e.w);
    }
    return (double)(g.edges.size() + 2) / nc + 1e-9 * total;
}

void check_status(const MGraph &g, const Answer &a, Api api, const std::vector<uint64_t> &dets, const Result &r) {
    if (r.out.status == OTHER_ERROR || r.out.status == OUT_OF_MEMORY) {
        violation("unexpected-error", "decode (%s) of %s failed with %s: %s; graph %s", api_name(api),
                  dets_str(dets).c_str(), status_name(r.out.status), r.out.what.c_str(), g.str().c_str());
    }
    if (api == API_PAIRS && g.has_negative) {
        if (r.out.status != REJECTED) {
            violation("not-rejected", "matched pairs were returned for a graph with negative weights");
        }
        return;
    }
    if (a.feasible && r.out.status == REJECTED) {
        violation("wrongly-rejected", "decodable syndrome %s was rejected by %s: %s; graph %s", dets_str(dets).c_str(),
                  api_name(api), r.out.what.c_str(), g.str().c_str());
    }
    if (!a.feasible && r.out.status == OK) {
        violation("not-rejected", "undecodable syndrome %s was accepted by %s: %s; graph %s", dets_str(dets).c_str(),
                  api_name(api), r.str().c_str(), g.str().c_str());
    }
}

void check_weight(const MGraph &g, const Answer &a, Api api, const std::vector<uint64_t> &dets, const Result &r) {
    if (!r.has_weight) {
        return;
    }
    double tol = weight_tolerance(g, r.nc);
    if (!(std::abs(r.weight - a.weight) <= tol)) {
        violation("wrong-weight", "decode (%s) of %s reports weight %.17g, minimum is %.17g; graph %s", api_name(api),
                  dets_str(dets).c_str(), r.weight, a.weight, g.str().c_str());
    }
}

void check_obs(const MGraph &g, const Answer &a, Api api, const std::vector<uint64_t> &dets, const Result &r) {
    if (!r.has_obs) {
        return;
    }
    for (auto b : r.obs) {
        if (b > 1) {
            violation("bad-observables", "a predicted observable is neither 0 nor 1");
        }
    }
    if (!obs_allowed(g, dets, a, r.obs, 2 * weight_tolerance(g, r.nc))) {
        violation("wrong-observables", "decode (%s) of %s predicts %s, which no minimum-weight explanation gives; graph %s",
                  api_name(api), dets_str(dets).c_str(), bits_str(r.obs).c_str(), g.str().c_str());
    }
}

static std::map<std::pair<int, int>, double> effective_edges(const MGraph &g) {
    // Edges as the decoder presents them: boundary nodes collapse into the boundary, keeping the
    // lightest of several routes.
    std::map<std::pair<int, int>, double> m;
    for (auto &e : g.edges) {
        bool bu = g.is_boundary(e.u), bv = g.is_boundary(e.v);
        if (bu && bv) {
            continue;
        }
        std::pair<int, int> k;
        if (bu || bv) {
            k = {bu ? e.v : e.u, -1};
        } else {
            k = std::minmax(e.u, e.v);
        }
        auto it = m.find(k);
        if (it == m.end()) {
            m[k] = e.w;
        } else {
            it->second = std::min(it->second, e.w);
        }
    }
    return m;
}

void check_edges(const MGraph &g, const Answer &a, const std::vector<uint64_t> &dets, const Result &r) {
    auto es = effective_edges(g);
    std::vector<char> s(g.n, 0);
    for (auto d : dets) {
        if (!g.boundary.count((int)d)) {
            s[d] ^= 1;
        }
    }
    std::set<std::pair<int, int>> seen;
    double w = 0;
    for (auto [u, v] : r.edges) {
        if (u < -1 || u >= g.n || v < -1 || v >= g.n || (u == -1 && v == -1)) {
            violation("bad-edges", "decode of %s returned an edge (%ld,%ld) outside the graph %s", dets_str(dets).c_str(),
                      (long)u, (long)v, g.str().c_str());
        }
        std::pair<int, int> k = u == -1 ? std::make_pair((int)v, -1) : v == -1 ? std::make_pair((int)u, -1)
                                                                              : std::make_pair((int)std::min(u, v), (int)std::max(u, v));
        if (!es.count(k)) {
            violation("bad-edges", "decode of %s returned (%ld,%ld), which is not an edge of %s", dets_str(dets).c_str(),
                      (long)u, (long)v, g.str().c_str());
        }
        if (!seen.insert(k).second) {
            violation("repeated-edge", "decode of %s returned edge (%ld,%ld) twice; graph %s", dets_str(dets).c_str(),
                      (long)u, (long)v, g.str().c_str());
        }
        w += es[k];
        if (u >= 0) {
            s[u] ^= 1;
        }
        if (v >= 0) {
            s[v] ^= 1;
        }
    }
    for (int i = 0; i < g.n; i++) {
        if (s[i]) {
            violation("wrong-syndrome", "edges returned for %s do not reproduce it at node %d: %s; graph %s",
                      dets_str(dets).c_str(), i, r.str().c_str(), g.str().c_str());
        }
    }
    if (!(std::abs(w - a.weight) <= weight_tolerance(g, r.nc) * 2 + (g.integral ? 0 : 1e-9))) {
        violation("wrong-weight", "edges returned for %s weigh %.17g, minimum is %.17g: %s; graph %s", dets_str(dets).c_str(),
                  w, a.weight, r.str().c_str(), g.str().c_str());
    }
}

void check_pairs(const MGraph &g, Oracle &o, const Answer &a, const std::vector<uint64_t> &dets, const Result &r) {
    std::vector<int> need(g.n, 0);
    for (auto d : dets) {
        if (!g.boundary.count((int)d)) {
            need[d] = 1;
        }
    }
    double w = 0;
    for (size_t k = 0; k < r.pairs.size(); k++) {
        auto [u, v] = r.pairs[k];
        for (int64_t x : {u, v}) {
            if (x == -1) {
                continue;
            }
            if (x < 0 || x >= g.n || need[x] != 1) {
                violation("bad-pairs", "decode of %s: node %ld is matched twice or is no detection event: %s; graph %s",
                          dets_str(dets).c_str(), (long)x, r.str().c_str(), g.str().c_str());
            }
            need[x] = 2;
        }
        if (u == -1 && v == -1) {
            violation("bad-pairs", "a pair joins the boundary to itself");
        }
        if (u == -1) {
            std::swap(u, v);
        }
        w += o.distance((int)u, (int)v);
        if (!g.label.empty() && g.palette.empty() && g.num_obs <= 64) {
            const Bits &lu = g.label[u];
            const Bits &lv = v == -1 ? g.boundary_label : g.label[v];
            for (size_t b = 0; b < g.num_obs; b++) {
                if (((r.pair_masks[k] >> b) & 1) != (uint64_t)(lu[b] ^ lv[b])) {
                    violation("wrong-pair-observables",
                              "decode of %s: pair (%ld,%ld) carries observables that no path between its ends crosses; graph %s",
                              dets_str(dets).c_str(), (long)u, (long)v, g.str().c_str());
                }
            }
        }
    }
    for (int i = 0; i < g.n; i++) {
        if (need[i] == 1) {
            violation("bad-pairs", "decode of %s leaves detection event %d unmatched: %s; graph %s", dets_str(dets).c_str(), i,
                      r.str().c_str(), g.str().c_str());
        }
    }
    if (!(std::abs(w - a.weight) <= weight_tolerance(g, r.nc) * 2 + (g.integral ? 0 : 1e-9))) {
        violation("wrong-weight", "pairs returned for %s weigh %.17g, minimum is %.17g: %s; graph %s", dets_str(dets).c_str(),
                  w, a.weight, r.str().c_str(), g.str().c_str());
    }
}

}  // namespace sim
