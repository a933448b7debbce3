#include "dem.h"

#include <algorithm>
#include <cmath>
#include <map>

namespace sim {

static double gen_probability(bool corr, bool generic) {
    if (generic) {
        return 0.001 + 0.2 * (double)pick(1 << 22) / (double)(1 << 22);
    }
    static const double ps[] = {0.1, 0.01, 0.2, 0.05, 0.3, 0.125, 0.001, 0.4, 0.5, 1e-9, 0, 0.6, 0.9};
    return ps[pick(corr ? 11 : 13)];
}

MDem gen_dem(const DemOptions &o) {
    MDem d;
    static const size_t sizes[] = {1, 2, 3, 8, 63, 64, 65, 80, 130, 256, 300};
    size_t lim = 0;
    while (lim < 11 && sizes[lim] <= o.max_obs) {
        lim++;
    }
    d.no = lim ? sizes[pick((uint32_t)lim)] : 0;
    int np = d.no ? (int)pick(o.max_palette + 1) : 0;
    for (int k = 0; k < np; k++) {
        Bits b(d.no, 0);
        b[pick((uint32_t)d.no)] = 1;
        while (chance(1, 4)) {
            b[pick((uint32_t)d.no)] ^= 1;
        }
        d.palette.push_back(b);
    }
    d.nd = range(1, o.max_dets);
    // Candidate edges.
    std::vector<std::pair<int, int>> cand;
    std::set<std::pair<int, int>> used;
    auto add = [&](int u, int v) {
        if (u == v) {
            return;
        }
        auto key = v == BOUNDARY ? std::make_pair(u, -1) : std::make_pair(std::min(u, v), std::max(u, v));
        if (used.insert(key).second) {
            cand.push_back({u, v});
        }
    };
    if (o.chain) {
        for (int i = 0; i + 1 < d.nd; i++) {
            add(i, i + 1);
            if (chance(1, 4) && i + 2 < d.nd) {
                add(i, i + 2);
            }
        }
        if (chance(3, 4)) {
            add(0, BOUNDARY);
        }
        if (chance(1, 2)) {
            add(d.nd - 1, BOUNDARY);
        }
        if (cand.empty()) {
            add(0, BOUNDARY);
        }
    } else {
        int ne = range(1, o.max_edges);
        for (int k = 0; k < ne; k++) {
            int u = pick(d.nd);
            add(u, chance(1, 3) ? BOUNDARY : (int)pick(d.nd));
        }
        if (cand.empty()) {
            add(0, BOUNDARY);
        }
    }
    std::vector<int> cand_pal;
    for (size_t k = 0; k < cand.size(); k++) {
        cand_pal.push_back(np ? (int)pick(1u << np) : 0);
    }
    auto make_comp = [&](size_t k) {
        DComp c;
        auto [u, v] = cand[k];
        if (v == BOUNDARY) {
            c.dets = {u};
        } else if (chance(1, 2)) {
            c.dets = {v, u};
        } else {
            c.dets = {u, v};
        }
        c.pal = cand_pal[k];
        if (np && chance(1, 12)) {
            c.pal = (int)pick(1u << np);  // a parallel mechanism with other observables
        }
        return c;
    };
    int nerr = o.chain ? 0 : range(1, o.max_errors);
    auto add_err = [&](std::vector<DComp> comps) {
        DErr e;
        e.p = gen_probability(o.correlations, o.generic);
        e.comps = std::move(comps);
        d.errs.push_back(e);
    };
    if (o.chain || chance(1, 2)) {
        for (size_t k = 0; k < cand.size(); k++) {
            add_err({make_comp(k)});
        }
    }
    if (o.chain) {
        nerr = o.rich ? (int)cand.size() : (int)cand.size() / 2;
    }
    for (int k = 0; k < nerr; k++) {
        std::vector<DComp> comps;
        int nc = 1 + (int)pick(3);
        std::set<size_t> seen;
        for (int c = 0; c < nc; c++) {
            size_t e = pick((uint32_t)cand.size());
            if (seen.insert(e).second) {
                comps.push_back(make_comp(e));
            }
        }
        add_err(comps);
    }
    if (!o.correlations && chance(1, 5)) {
        DComp c;  // a part that no matching can represent
        int m = chance(1, 2) ? 0 : 3;
        if (m == 0 || d.nd >= 3) {
            for (int i = 0; i < m; i++) {
                c.dets.push_back(i);
            }
            c.pal = np ? (int)pick(1u << np) : 0;
            add_err({c});
            d.well_formed_for_correlations = false;
        }
    }
    for (auto &e : d.errs) {
        if (e.p > 0.5) {
            d.well_formed_for_correlations = false;
        }
        for (auto &c : e.comps) {
            for (size_t i = 0; i < d.no; i++) {
                int x = 0;
                for (int k = 0; k < np; k++) {
                    x ^= (c.pal >> k & 1) & d.palette[k][i];
                }
                if (x) {
                    c.obs.push_back(i);
                }
            }
        }
    }
    // Text. The last detector and observable are declared, so that the counts are as intended.
    std::string &t = d.text;
    if (chance(1, 6)) {
        t += "# model\n\n";
    }
    if (chance(1, 2)) {
        t += "detector D" + std::to_string(d.nd - 1) + "\n";
    }
    for (auto &e : d.errs) {
        char b[64];
        snprintf(b, sizeof(b), "error(%.17g)", e.p);
        t += b;
        for (size_t k = 0; k < e.comps.size(); k++) {
            if (k) {
                t += " ^";
            }
            for (int x : e.comps[k].dets) {
                t += " D" + std::to_string(x);
            }
            for (size_t x : e.comps[k].obs) {
                t += " L" + std::to_string(x);
            }
        }
        t += "\n";
    }
    t += "detector D" + std::to_string(d.nd - 1) + "\n";
    if (d.no) {
        t += "logical_observable L" + std::to_string(d.no - 1) + "\n";
    }
    return d;
}

static std::pair<int, int> key_of(const DComp &c) {
    if (c.dets.size() == 1) {
        return {c.dets[0], BOUNDARY};
    }
    return std::minmax(c.dets[0], c.dets[1]);
}

MGraph dem_to_graph(const MDem &d) {
    MGraph g;
    g.shape = "dem";
    g.n = d.nd;
    g.num_obs = d.no;
    g.palette = d.palette;
    g.integral = false;
    std::map<std::pair<int, int>, size_t> where;
    for (auto &e : d.errs) {
        if (e.p == 0) {
            continue;
        }
        for (auto &c : e.comps) {
            if (c.dets.empty() || c.dets.size() > 2) {
                continue;
            }
            auto k = key_of(c);
            auto it = where.find(k);
            if (it == where.end()) {
                where[k] = g.edges.size();
                g.edges.push_back({k.first, k.second, 0, e.p, c.pal, c.obs});
            } else {
                double &p = g.edges[it->second].p;
                p = p * (1 - e.p) + e.p * (1 - p);
            }
        }
    }
    for (auto &e : g.edges) {
        e.w = std::log((1 - e.p) / e.p);
        if (std::abs(e.w) < 1e-12) {
            e.w = 0;
        }
        if (e.w < 0) {
            g.has_negative = true;
        }
    }
    return g;
}

int find_edge(const MGraph &g, int u, int v) {
    if (u == BOUNDARY) {
        std::swap(u, v);
    }
    for (size_t k = 0; k < g.edges.size(); k++) {
        auto &e = g.edges[k];
        if ((e.u == u && e.v == v) || (e.u == v && e.v == u)) {
            return (int)k;
        }
    }
    return -1;
}

std::vector<Implied> implied_weights(const MDem &d, const MGraph &g) {
    size_t n = g.edges.size();
    std::vector<double> marginal(n, 0);
    std::map<std::pair<int, int>, double> joint;
    auto mix = [](double &a, double p) { a = a * (1 - p) + p * (1 - a); };
    for (auto &e : d.errs) {
        if (e.p == 0) {
            continue;
        }
        std::vector<int> ids;
        for (auto &c : e.comps) {
            auto k = key_of(c);
            ids.push_back(find_edge(g, k.first, k.second));
        }
        for (int i : ids) {
            mix(marginal[i], e.p);
            for (int j : ids) {
                if (i != j) {
                    mix(joint[{i, j}], e.p);
                }
            }
        }
    }
    std::vector<Implied> r;
    for (auto &[k, p] : joint) {
        double q = std::min(0.5, p / marginal[k.first]);
        r.push_back({k.first, k.second, std::log((1 - q) / q)});
    }
    return r;
}

}  // namespace sim
