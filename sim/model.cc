#include "model.h"

#include <algorithm>
#include <cmath>
#include <queue>

namespace sim {

// ------------------------------------------------------------------------------------ printing
std::string dets_str(const std::vector<uint64_t> &d) {
    std::string s = "{";
    for (size_t k = 0; k < d.size(); k++) {
        s += (k ? "," : "") + std::to_string(d[k]);
        if (s.size() > 400) {
            return s + "...}";
        }
    }
    return s + "}";
}
std::string bits_str(const Bits &b) {
    std::string s;
    for (auto x : b) {
        s += x ? (x == 1 ? "1" : "#") : "0";
    }
    return s;
}
std::string MGraph::str() const {
    std::string s = shape + " n=" + std::to_string(n) + " obs=" + std::to_string(num_obs) + " edges=[";
    size_t shown = 0;
    for (auto &e : edges) {
        if (shown++ >= 40) {
            s += " ...(" + std::to_string(edges.size()) + ")";
            break;
        }
        char b[96];
        snprintf(b, sizeof(b), " %d-%s:%.17g", e.u, e.v == BOUNDARY ? "B" : std::to_string(e.v).c_str(), e.w);
        s += b;
        if (e.p >= 0) {
            snprintf(b, sizeof(b), "(p=%g)", e.p);
            s += b;
        }
        if (!e.obs.empty()) {
            s += "/L";
            for (size_t k = 0; k < e.obs.size() && k < 6; k++) {
                s += (k ? "," : "") + std::to_string(e.obs[k]);
            }
        }
    }
    s += " ]";
    for (auto &[at, e] : shadowed) {
        s += " shadowed@" + std::to_string(at) + " " + std::to_string(e.u) + "-" + std::to_string(e.v) + ":" +
             std::to_string((int64_t)e.w);
    }
    if (!boundary.empty()) {
        s += " boundary={";
        for (int b : boundary) {
            s += std::to_string(b) + " ";
        }
        s += "}";
    }
    return s;
}

// ---------------------------------------------------------------------------------- generators
static double gen_weight(int scale, int64_t cap) {
    switch (scale) {
        case 0:
            return 1;
        case 1:
            return range(1, 2);
        case 2:
            return range(0, 3);
        case 3:
            return range(0, 12);
        case 4:
            return range(0, 1000);
        case 5:
            return chance(1, 3) ? (double)((1 << 24) - 1) : (double)range(0, (1 << 24) - 1);
        case 6:
            return 2.5;                                   // fractional, uniform
        case 7:
            return (double)range(1, 4096) / 257.0;        // fractional, spread
        case 8:
            return (double)range(1, 1 << 20) / 1048576.0 * 15;
        case 9:
            return std::min<double>(cap, range(1, 7) * 3);
        default:
            return 1;
    }
}

static std::vector<size_t> bits_to_indices(const Bits &b) {
    std::vector<size_t> r;
    for (size_t k = 0; k < b.size(); k++) {
        if (b[k]) {
            r.push_back(k);
        }
    }
    return r;
}

static void assign_observables(MGraph &g, const GenOptions &o) {
    static const size_t sizes[] = {1, 2, 3, 8, 33, 63, 64, 65, 66, 80, 130, 200, 256, 300, 1000};
    size_t lim = 0;
    while (lim < sizeof(sizes) / sizeof(sizes[0]) && sizes[lim] <= o.max_obs) {
        lim++;
    }
    g.num_obs = lim ? sizes[pick((uint32_t)lim)] : 0;
    int np = g.num_obs ? (int)pick(o.max_palette + 1) : 0;
    for (int k = 0; k < np; k++) {
        Bits b(g.num_obs, 0);
        b[pick((uint32_t)g.num_obs)] = 1;
        while (chance(1, 3)) {
            b[pick((uint32_t)g.num_obs)] ^= 1;
        }
        g.palette.push_back(b);
    }
    bool gauge = o.gauge && g.num_obs && chance(3, 4);
    auto random_label = [&]() {
        Bits b(g.num_obs, 0);
        int k = pick(4);
        for (int i = 0; i < k; i++) {
            b[pick((uint32_t)g.num_obs)] ^= 1;
        }
        return b;
    };
    if (gauge) {
        g.boundary_label = random_label();
        for (int i = 0; i < g.n; i++) {
            g.label.push_back(g.boundary.count(i) ? g.boundary_label : random_label());
        }
    }
    for (auto &e : g.edges) {
        e.pal = np ? (int)pick(1u << np) : 0;
        Bits b(g.num_obs, 0);
        for (int k = 0; k < np; k++) {
            if (e.pal >> k & 1) {
                for (size_t i = 0; i < g.num_obs; i++) {
                    b[i] ^= g.palette[k][i];
                }
            }
        }
        if (gauge) {
            auto &lu = g.label[e.u];
            auto &lv = e.v == BOUNDARY ? g.boundary_label : g.label[e.v];
            for (size_t i = 0; i < g.num_obs; i++) {
                b[i] ^= lu[i] ^ lv[i];
            }
        }
        e.obs = bits_to_indices(b);
        if (chance(1, 4)) {
            shuffle(e.obs);
        }
    }
}

static void add_shadowed_routes(MGraph &g) {
    std::map<int, double> lightest;
    double mx = 0;
    std::set<std::pair<int, int>> used;
    for (auto &e : g.edges) {
        mx = std::max(mx, std::abs(e.w));
        used.insert(std::minmax(e.u, e.v));
        bool bu = g.is_boundary(e.u), bv = g.is_boundary(e.v);
        if (bu == bv) {
            continue;
        }
        int x = bu ? e.v : e.u;
        auto it = lightest.find(x);
        if (it == lightest.end() || it->second > e.w) {
            lightest[x] = e.w;
        }
    }
    if (lightest.empty()) {
        return;
    }
    int b;
    if (!g.boundary.empty() && chance(1, 2)) {
        b = *std::next(g.boundary.begin(), pick((uint32_t)g.boundary.size()));
    } else {
        b = g.n++;
        g.boundary.insert(b);
        if (!g.label.empty()) {
            g.label.push_back(g.boundary_label);
        }
    }
    size_t at = 0;
    for (auto &[u, w] : lightest) {
        if (used.count(std::minmax(u, b)) || !chance(2, 3)) {
            continue;
        }
        MEdge e{u, b, 0, -1, 0, {}};
        // Strictly heavier, and of any sign; never heavier than the heaviest edge, so the scale stays.
        double hi = std::min(mx, w + (chance(1, 2) ? 4 : 2 * std::abs(w)));
        if (!(hi > w)) {
            continue;
        }
        e.w = (double)range((int)w + 1, (int)hi);
        if (g.num_obs && chance(1, 2)) {
            e.obs.push_back(pick((uint32_t)g.num_obs));
        }
        if (chance(1, 2)) {
            std::swap(e.u, e.v);
        }
        at += pick((uint32_t)(g.edges.size() - at) + 1);
        g.shadowed.push_back({at, e});
    }
}

MGraph gen_graph(const GenOptions &o) {
    MGraph g;
    int scale;
    if (o.max_weight) {
        scale = 9;
    } else if (o.allow_fractional) {
        static const int opts[] = {6, 7, 8};
        scale = opts[pick(3)];
    } else {
        static const int opts[] = {0, 1, 2, 2, 3, 4, 5};
        scale = opts[pick(7)];
    }
    g.integral = scale < 6 || scale == 9;
    bool negative = o.allow_negative && chance(1, 3);
    int neg_den = negative ? (chance(1, 2) ? 2 : 6) : 0;
    bool self_loops = o.allow_self_loops && !o.large && chance(1, 6);
    std::set<std::pair<int, int>> used;
    auto add = [&](int u, int v) {
        if (u == BOUNDARY) {
            std::swap(u, v);
        }
        if (u == BOUNDARY || (u == v && !self_loops)) {
            return;
        }
        auto key = v == BOUNDARY ? std::make_pair(u, -1) : std::make_pair(std::min(u, v), std::max(u, v));
        if (!used.insert(key).second) {
            return;
        }
        MEdge e{u, v, gen_weight(scale, o.max_weight), -1, 0, {}};
        if (neg_den && chance(1, neg_den)) {
            e.w = -e.w;
        }
        g.edges.push_back(e);
    };

    if (o.large) {
        int shape = pick(10);
        static const char *names[] = {"ring", "chain", "grid", "grid3d", "complete", "sparse", "tree", "flower", "ladder", "hub"};
        g.shape = names[shape];
        int m = std::max(3, o.max_nodes);
        bool with_boundary = chance(2, 3);
        if (shape == 0 || shape == 1) {
            g.n = range(3, m);
            for (int i = 0; i + 1 < g.n; i++) {
                add(i, i + 1);
            }
            if (shape == 0) {
                add(g.n - 1, 0);
            }
            if (with_boundary) {
                add(0, BOUNDARY);
                if (chance(1, 2)) {
                    add(g.n - 1, BOUNDARY);
                }
            }
        } else if (shape == 2) {
            int side = std::max(2, (int)std::sqrt((double)m));
            int lx = range(2, side), ly = range(2, side);
            g.n = lx * ly;
            bool torus = chance(1, 3), diag = chance(1, 3);
            for (int x = 0; x < lx; x++) {
                for (int y = 0; y < ly; y++) {
                    int i = x * ly + y;
                    if (x + 1 < lx || torus) {
                        add(i, ((x + 1) % lx) * ly + y);
                    }
                    if (y + 1 < ly || torus) {
                        add(i, x * ly + (y + 1) % ly);
                    }
                    if (diag && x + 1 < lx && y + 1 < ly) {
                        add(i, i + ly + 1);
                    }
                    if (with_boundary && !torus && (y == 0 || y == ly - 1)) {
                        add(i, BOUNDARY);
                    }
                }
            }
        } else if (shape == 3) {
            int side = std::max(2, (int)std::cbrt((double)m));
            int lx = range(2, side), ly = range(2, side), lz = range(1, std::max(1, m / (side * side)));
            g.n = lx * ly * lz;
            for (int x = 0; x < lx; x++) {
                for (int y = 0; y < ly; y++) {
                    for (int z = 0; z < lz; z++) {
                        int i = (x * ly + y) * lz + z;
                        if (x + 1 < lx) {
                            add(i, i + ly * lz);
                        }
                        if (y + 1 < ly) {
                            add(i, i + lz);
                        }
                        if (z + 1 < lz) {
                            add(i, i + 1);
                        }
                        if (with_boundary && (x == 0 || x == lx - 1)) {
                            add(i, BOUNDARY);
                        }
                    }
                }
            }
        } else if (shape == 4) {
            g.n = range(3, std::min(m, 22));
            for (int i = 0; i < g.n; i++) {
                for (int j = i + 1; j < g.n; j++) {
                    add(i, j);
                }
                if (with_boundary && chance(1, 4)) {
                    add(i, BOUNDARY);
                }
            }
        } else if (shape == 5) {
            g.n = range(3, m);
            int ne = g.n * range(1, 3) + (int)pick(g.n);
            for (int k = 0; k < ne; k++) {
                int u = pick(g.n), v = pick(g.n);
                add(u, v);
            }
            if (with_boundary) {
                int nb = 1 + pick(3);
                for (int k = 0; k < nb; k++) {
                    add(pick(g.n), BOUNDARY);
                }
            }
        } else if (shape == 6) {
            g.n = range(3, m);
            for (int i = 1; i < g.n; i++) {
                add(i, pick(i));
            }
            if (with_boundary) {
                add(pick(g.n), BOUNDARY);
            }
        } else if (shape == 7) {
            // Odd cycles nested and hung together: heavy blossom formation and shattering.
            g.n = 0;
            std::vector<int> anchors;
            while (g.n + 9 < m || g.n == 0) {
                int len = 3 + 2 * pick(4);
                int base = g.n;
                g.n += len;
                for (int i = 0; i < len; i++) {
                    add(base + i, base + (i + 1) % len);
                }
                if (!anchors.empty()) {
                    add(base, anchors[pick((uint32_t)anchors.size())]);
                    if (chance(1, 2)) {
                        add(base + 1, anchors[pick((uint32_t)anchors.size())]);
                    }
                }
                for (int i = 0; i < len; i++) {
                    anchors.push_back(base + i);
                }
                if (chance(1, 6)) {
                    break;
                }
            }
            if (with_boundary) {
                add(pick(g.n), BOUNDARY);
            }
        } else if (shape == 9) {
            // One node next to all others, which may form a rim or reach further out. (Negative edges mean hundreds of
            // events at once, which then form hundreds of nested blossoms: right, but slow.)
            g.n = range(3, negative ? std::min(m, 150) : m);
            int hub = pick(g.n), kind = pick(4);
            for (int i = 0; i < g.n; i++) {
                if (i == hub) {
                    continue;
                }
                if (kind < 3 || i % 2 == 0) {
                    add(i, hub);
                }
                if (kind == 1 || kind == 3) {
                    add(i, (i + 1) % g.n);
                } else if (kind == 2 && chance(1, 3)) {
                    add(i, (int)pick(g.n));
                }
            }
            if (with_boundary) {
                add(pick(g.n), BOUNDARY);
            }
        } else {
            int len = range(2, std::max(2, m / 2));
            g.n = 2 * len;
            for (int i = 0; i < len; i++) {
                add(2 * i, 2 * i + 1);
                if (i + 1 < len) {
                    add(2 * i, 2 * i + 2);
                    add(2 * i + 1, 2 * i + 3);
                    if (chance(1, 3)) {
                        add(2 * i, 2 * i + 3);
                    }
                }
            }
            if (with_boundary) {
                add(0, BOUNDARY);
                add(2 * len - 1, BOUNDARY);
            }
        }
    } else {
        g.shape = "random";
        g.n = range(2, o.max_nodes);
        int ne = range(1, o.max_edges);
        uint32_t bw = pick(4);  // how common half edges are
        for (int k = 0; k < ne; k++) {
            int u = pick(g.n);
            int v = bw && chance(bw, 8) ? BOUNDARY : (int)pick(g.n);
            add(u, v);
        }
        if (o.allow_boundary_nodes && chance(1, 5)) {
            int nb = 1 + pick(2);
            for (int k = 0; k < nb; k++) {
                g.boundary.insert(pick(g.n));
            }
            if (chance(1, 4)) {
                // boundary node beyond all edges
                g.boundary.insert(g.n);
                g.n++;
            }
        }
    }
    // A boundary made of several parts: keep clear of cases the library resolves by convention
    // (negative edges next to parallel routes to the boundary; edges inside the boundary).
    if (!g.boundary.empty()) {
        std::vector<int> routes(g.n, 0);
        for (auto &e : g.edges) {
            bool bu = g.is_boundary(e.u), bv = g.is_boundary(e.v);
            if (bu && bv) {
                e.w = std::abs(e.w);
            } else if (bu) {
                routes[e.v]++;
            } else if (bv) {
                routes[e.u]++;
            }
        }
        for (auto &e : g.edges) {
            bool bu = g.is_boundary(e.u), bv = g.is_boundary(e.v);
            if (bu != bv && routes[bu ? e.v : e.u] > 1) {
                e.w = std::abs(e.w);
            }
        }
    }
    for (auto &e : g.edges) {
        if (e.w < 0) {
            g.has_negative = true;
        }
        if (e.v != BOUNDARY && chance(1, 2)) {
            std::swap(e.u, e.v);
        }
        if (o.with_probabilities) {
            static const double ps[] = {0.1, 0.01, 0.3, 0.5, 0, 1, 0.25};
            e.p = ps[pick(7)];
        }
    }
    if (!o.large || chance(1, 2)) {
        shuffle(g.edges);
    }
    assign_observables(g, o);
    if (g.integral && o.allow_boundary_nodes && o.allow_negative && chance(1, 6)) {
        add_shadowed_routes(g);
    }
    return g;
}

std::vector<uint64_t> gen_syndrome(const MGraph &g, int max_events) {
    if (chance(1, 2)) {
        return gen_decodable(g, max_events);
    }
    std::vector<uint64_t> d;
    uint32_t den = 2 + pick(4);
    for (int i = 0; i < g.n && (int)d.size() < max_events; i++) {
        if (chance(1, den)) {
            d.push_back(i);
        }
    }
    if (chance(1, 3)) {
        shuffle(d);
    }
    return d;
}

std::vector<uint64_t> gen_decodable(const MGraph &g, int max_events) {
    std::vector<char> s(g.n, 0);
    int cnt = 0;
    uint32_t den = 1u << (1 + pick(6));
    for (auto &e : g.edges) {
        if (cnt >= max_events) {
            break;
        }
        if (chance(1, den)) {
            s[e.u] ^= 1;
            cnt += s[e.u] ? 1 : -1;
            if (e.v != BOUNDARY) {
                s[e.v] ^= 1;
                cnt += s[e.v] ? 1 : -1;
            }
        }
    }
    std::vector<uint64_t> d;
    for (int i = 0; i < g.n; i++) {
        if (s[i] && !g.boundary.count(i)) {
            d.push_back(i);
        }
    }
    if (chance(1, 3)) {
        shuffle(d);
    }
    return d;
}

// ------------------------------------------------------------------------------------- oracles
Oracle::Oracle(const MGraph &graph) : g(graph) {
    int B = g.n;
    adj.resize(g.n + 1);
    neg_det.assign(g.n, 0);
    comp.assign(g.n, -1);
    std::vector<int> parent(g.n + 1);
    for (int i = 0; i <= g.n; i++) {
        parent[i] = i;
    }
    std::function<int(int)> find = [&](int x) {
        while (parent[x] != x) {
            x = parent[x] = parent[parent[x]];
        }
        return x;
    };
    std::vector<char> touches(g.n + 1, 0);
    size_t effective = 0;
    for (size_t k = 0; k < g.edges.size(); k++) {
        auto &e = g.edges[k];
        int u = g.is_boundary(e.u) ? B : e.u;
        int v = g.is_boundary(e.v) ? B : e.v;
        if (u == B && v == B) {
            continue;
        }
        effective++;
        if (e.w < 0) {
            neg_sum += e.w;
            neg_mask ^= e.pal;
            if (u != B) {
                neg_det[u] ^= 1;
            }
            if (v != B) {
                neg_det[v] ^= 1;
            }
        }
        if (u == v) {
            continue;
        }
        adj[u].push_back({v, (int)k});
        adj[v].push_back({u, (int)k});
        if (u == B) {
            touches[v] = 1;
        } else if (v == B) {
            touches[u] = 1;
        } else {
            parent[find(u)] = find(v);
        }
    }
    comp_has_boundary.assign(g.n + 1, 0);
    for (int i = 0; i < g.n; i++) {
        comp[i] = find(i);
        if (touches[i]) {
            comp_has_boundary[comp[i]] = 1;
        }
    }
    use_enumeration = effective <= 12 && g.n <= 9;
    if (use_enumeration) {
        table.resize((size_t)1 << g.n);
        for (auto &t : table) {
            t.fill((double)INF);
        }
        std::vector<const MEdge *> es;
        for (auto &e : g.edges) {
            if (!(g.is_boundary(e.u) && g.is_boundary(e.v))) {
                es.push_back(&e);
            }
        }
        for (uint32_t m = 0; m < (1u << es.size()); m++) {
            uint32_t s = 0;
            int pal = 0;
            double w = 0;
            for (size_t k = 0; k < es.size(); k++) {
                if (m >> k & 1) {
                    auto &e = *es[k];
                    if (!g.is_boundary(e.u)) {
                        s ^= 1u << e.u;
                    }
                    if (!g.is_boundary(e.v)) {
                        s ^= 1u << e.v;
                    }
                    w += e.w;
                    pal ^= e.pal;
                }
            }
            table[s][pal] = std::min(table[s][pal], w);
        }
    }
}

bool Oracle::feasible(const std::vector<uint64_t> &dets) {
    std::vector<char> par(g.n + 1, 0);
    for (auto d : dets) {
        if (!g.boundary.count((int)d)) {
            par[comp[d]] ^= 1;
        }
    }
    for (int i = 0; i < g.n; i++) {
        if (par[i] && !comp_has_boundary[i]) {
            return false;
        }
    }
    return true;
}

std::vector<std::vector<double>> Oracle::dijkstra_masks(int src) {
    int M = 1 << g.palette.size();
    std::vector<std::vector<double>> dist(g.n + 1, std::vector<double>(M, (double)INF));
    typedef std::pair<double, int> Q;
    std::priority_queue<Q, std::vector<Q>, std::greater<Q>> q;
    dist[src][0] = 0;
    q.push({0, src * M});
    while (!q.empty()) {
        auto [d, x] = q.top();
        q.pop();
        int v = x / M, m = x % M;
        if (d > dist[v][m] || v == g.n) {
            continue;  // paths end at the boundary
        }
        for (auto [to, k] : adj[v]) {
            double nd = d + std::abs(g.edges[k].w);
            int nm = m ^ g.edges[k].pal;
            if (nd < dist[to][nm]) {
                dist[to][nm] = nd;
                q.push({nd, to * M + nm});
            }
        }
    }
    return dist;
}

double Oracle::distance(int u, int v) {
    if (shortcut) {
        return shortcut(u, v);
    }
    auto d = dijkstra_masks(u);
    double best = (double)INF;
    int t = g.is_boundary(v) ? g.n : v;
    for (auto x : d[t]) {
        best = std::min(best, x);
    }
    return best;
}

Answer Oracle::solve(const std::vector<uint64_t> &dets) {
    Answer a;
    for (auto &x : a.mask_weight) {
        x = (double)INF;
    }
    int M = 1 << g.palette.size();
    a.feasible = feasible(dets);
    std::vector<char> on(g.n, 0);
    for (auto d : dets) {
        if (!g.boundary.count((int)d)) {
            on[d] ^= 1;
        }
    }
    if (!a.feasible) {
        return a;
    }
    std::vector<int> ev;
    for (int i = 0; i < g.n; i++) {
        if (on[i] ^ neg_det[i]) {
            ev.push_back(i);
        }
    }
    a.events = (int)ev.size();
    if (use_enumeration) {
        uint32_t s = 0;
        for (int i = 0; i < g.n; i++) {
            s |= (uint32_t)on[i] << i;
        }
        a.has_masks = true;
        a.weight = (double)INF;
        for (int m = 0; m < 8; m++) {
            a.mask_weight[m] = table[s][m];
            a.weight = std::min(a.weight, table[s][m]);
        }
        return a;
    }
    size_t k = ev.size();
    std::vector<std::vector<std::vector<double>>> dist;
    if (k <= 10) {
        for (int e : ev) {
            dist.push_back(dijkstra_masks(e));
        }
        std::vector<std::array<double, 8>> best((size_t)1 << k);
        for (auto &b : best) {
            b.fill((double)INF);
        }
        best[0][0] = 0;
        for (uint32_t s = 1; s < (1u << k); s++) {
            int i = __builtin_ctz(s);
            uint32_t rest = s & (s - 1);
            auto relax = [&](uint32_t sub, const std::vector<double> &d) {
                for (int m1 = 0; m1 < M; m1++) {
                    if (d[m1] >= (double)INF) {
                        continue;
                    }
                    for (int m2 = 0; m2 < M; m2++) {
                        double w = best[sub][m2] + d[m1];
                        if (w < best[s][m1 ^ m2]) {
                            best[s][m1 ^ m2] = w;
                        }
                    }
                }
            };
            relax(rest, dist[i][g.n]);
            for (uint32_t r = rest; r; r &= r - 1) {
                int j = __builtin_ctz(r);
                relax(rest & ~(1u << j), dist[i][ev[j]]);
            }
        }
        a.has_masks = true;
        a.weight = (double)INF;
        for (int m = 0; m < M; m++) {
            double w = best[(1u << k) - 1][m];
            if (w < (double)INF) {
                a.mask_weight[m ^ neg_mask] = w + neg_sum;
                a.weight = std::min(a.weight, w + neg_sum);
            }
        }
        return a;
    }
    // Many detection events: weight only, by an independent weighted blossom algorithm.
    double scale = 1;
    if (!g.integral) {
        double mx = 0;
        for (auto &e : g.edges) {
            mx = std::max(mx, std::abs(e.w));
        }
        scale = mx > 0 ? std::ldexp(1.0, 34) / mx : 1;
    }
    std::vector<std::vector<int64_t>> cost(2 * k, std::vector<int64_t>(2 * k, INF));
    for (size_t i = 0; i < k; i++) {
        auto d = dijkstra_masks(ev[i]);
        auto low = [&](int t) {
            double b = (double)INF;
            for (auto x : d[t]) {
                b = std::min(b, x);
            }
            return b >= (double)INF ? INF : (int64_t)std::llround(b * scale);
        };
        for (size_t j = 0; j < k; j++) {
            if (i != j) {
                cost[i][j] = low(ev[j]);
                cost[k + i][k + j] = 0;
            }
        }
        cost[i][k + i] = cost[k + i][i] = low(g.n);
    }
    int64_t w = min_weight_perfect_matching(cost);
    a.weight = (double)w / scale + neg_sum;
    return a;
}

Crowd gen_crowd(const GenOptions &o, size_t nodes) {
    Crowd c;
    c.base = gen_graph(o);
    c.base.shadowed.clear();
    c.copies = nodes / (size_t)c.base.n + 1;
    c.interleaved = chance(1, 3);
    MGraph &g = c.all;
    g = c.base;
    g.shape = std::to_string(c.copies) + (c.interleaved ? " interleaved" : "") + " copies of " + c.base.str();
    g.n = c.base.n * (int)c.copies;
    g.edges.clear();
    g.boundary.clear();
    if (!g.label.empty()) {
        g.label.resize((size_t)g.n);
    }
    for (size_t k = 0; k < c.copies; k++) {
        for (MEdge e : c.base.edges) {
            e.u = c.node(k, e.u);
            e.v = c.node(k, e.v);
            g.edges.push_back(e);
        }
        for (int x : c.base.boundary) {
            g.boundary.insert(c.node(k, x));
        }
        for (int x = 0; x < c.base.n && !g.label.empty(); x++) {
            g.label[(size_t)c.node(k, x)] = c.base.label[(size_t)x];
        }
    }
    return c;
}

std::pair<std::vector<uint64_t>, Answer> Crowd::draw(Oracle &oracle) const {
    std::vector<uint64_t> dets;
    Answer a;
    a.feasible = a.has_masks = true;
    std::fill(a.mask_weight, a.mask_weight + 8, (double)INF);
    a.mask_weight[0] = 0;
    std::vector<std::vector<uint64_t>> pool;
    std::vector<Answer> answers;
    int np = range(1, 4);
    for (int k = 0; k < np; k++) {
        pool.push_back(chance(1, 40) ? gen_syndrome(base, 8) : gen_decodable(base, 8));
        answers.push_back(oracle.solve(pool.back()));
    }
    uint32_t lcg = 1 + pick(1000000), quiet = pick(3);
    for (size_t k = 0; k < copies; k++) {
        lcg = lcg * 1664525u + 1013904223u;
        size_t which = (lcg >> 20) % pool.size();
        if (quiet && (lcg >> 10) % (quiet == 1 ? 2 : 16)) {
            which = 0;
        }
        for (auto d : pool[which]) {
            dets.push_back((uint64_t)node(k, (int)d));
        }
        const Answer &b = answers[which];
        if (!b.feasible) {
            a.feasible = false;
            continue;
        }
        a.weight += b.weight;
        a.events += b.events;
        if (!a.has_masks || !b.has_masks) {
            a.has_masks = false;
            continue;
        }
        double next[8];
        std::fill(next, next + 8, (double)INF);
        for (int x = 0; x < 8; x++) {
            for (int y = 0; y < 8; y++) {
                if (a.mask_weight[x] < (double)INF && b.mask_weight[y] < (double)INF) {
                    next[x ^ y] = std::min(next[x ^ y], a.mask_weight[x] + b.mask_weight[y]);
                }
            }
        }
        std::copy(next, next + 8, a.mask_weight);
    }
    if (chance(1, 3)) {
        std::reverse(dets.begin(), dets.end());
    }
    return {dets, a};
}

Bits expected_obs(const MGraph &g, const std::vector<uint64_t> &dets, int mask) {
    Bits b(g.num_obs, 0);
    for (size_t k = 0; k < g.palette.size(); k++) {
        if (mask >> k & 1) {
            for (size_t i = 0; i < g.num_obs; i++) {
                b[i] ^= g.palette[k][i];
            }
        }
    }
    if (!g.label.empty()) {
        bool odd = false;
        for (auto d : dets) {
            if (!g.boundary.count((int)d)) {
                odd = !odd;
                for (size_t i = 0; i < g.num_obs; i++) {
                    b[i] ^= g.label[d][i];
                }
            }
        }
        if (odd) {
            for (size_t i = 0; i < g.num_obs; i++) {
                b[i] ^= g.boundary_label[i];
            }
        }
    }
    return b;
}

bool obs_allowed(const MGraph &g, const std::vector<uint64_t> &dets, const Answer &a, const Bits &obs, double tol) {
    for (int m = 0; m < (1 << g.palette.size()); m++) {
        if (a.has_masks && !(a.mask_weight[m] <= a.weight + tol)) {
            continue;
        }
        if (expected_obs(g, dets, m) == obs) {
            return true;
        }
    }
    return false;
}

// ------------------------------------------------------------------- weighted blossom (oracle)
namespace {
struct WeightedBlossom {
    struct E {
        int u, v;
        int64_t w;
    };
    int n, n_x, cap;
    std::vector<std::vector<E>> g;
    std::vector<int64_t> lab;
    std::vector<int> match, slack, st, pa, S, vis;
    std::vector<std::vector<int>> flower_from, flower;
    std::queue<int> q;
    int stamp = 0;

    explicit WeightedBlossom(int n)
        : n(n), n_x(n), cap(2 * n + 2), g(cap, std::vector<E>(cap, E{0, 0, 0})), lab(cap, 0), match(cap, 0),
          slack(cap, 0), st(cap, 0), pa(cap, 0), S(cap, 0), vis(cap, 0),
          flower_from(cap, std::vector<int>(n + 1, 0)), flower(cap) {
        for (int u = 0; u < cap; u++) {
            for (int v = 0; v < cap; v++) {
                g[u][v] = E{u, v, 0};
            }
        }
    }
    int64_t delta(const E &e) {
        return lab[e.u] + lab[e.v] - g[e.u][e.v].w * 2;
    }
    void update_slack(int u, int x) {
        if (!slack[x] || delta(g[u][x]) < delta(g[slack[x]][x])) {
            slack[x] = u;
        }
    }
    void set_slack(int x) {
        slack[x] = 0;
        for (int u = 1; u <= n; u++) {
            if (g[u][x].w > 0 && st[u] != x && S[st[u]] == 0) {
                update_slack(u, x);
            }
        }
    }
    void q_push(int x) {
        if (x <= n) {
            q.push(x);
        } else {
            for (int y : flower[x]) {
                q_push(y);
            }
        }
    }
    void set_st(int x, int b) {
        st[x] = b;
        if (x > n) {
            for (int y : flower[x]) {
                set_st(y, b);
            }
        }
    }
    int get_pr(int b, int xr) {
        int pr = (int)(std::find(flower[b].begin(), flower[b].end(), xr) - flower[b].begin());
        if (pr % 2 == 1) {
            std::reverse(flower[b].begin() + 1, flower[b].end());
            return (int)flower[b].size() - pr;
        }
        return pr;
    }
    void set_match(int u, int v) {
        match[u] = g[u][v].v;
        if (u > n) {
            E e = g[u][v];
            int xr = flower_from[u][e.u], pr = get_pr(u, xr);
            for (int i = 0; i < pr; i++) {
                set_match(flower[u][i], flower[u][i ^ 1]);
            }
            set_match(xr, v);
            std::rotate(flower[u].begin(), flower[u].begin() + pr, flower[u].end());
        }
    }
    void augment(int u, int v) {
        for (;;) {
            int xnv = st[match[u]];
            set_match(u, v);
            if (!xnv) {
                return;
            }
            set_match(xnv, st[pa[xnv]]);
            u = st[pa[xnv]];
            v = xnv;
        }
    }
    int lca(int u, int v) {
        for (++stamp; u || v; std::swap(u, v)) {
            if (u == 0) {
                continue;
            }
            if (vis[u] == stamp) {
                return u;
            }
            vis[u] = stamp;
            u = st[match[u]];
            if (u) {
                u = st[pa[u]];
            }
        }
        return 0;
    }
    void add_blossom(int u, int l, int v) {
        int b = n + 1;
        while (b <= n_x && st[b]) {
            b++;
        }
        if (b > n_x) {
            n_x++;
        }
        lab[b] = 0;
        S[b] = 0;
        match[b] = match[l];
        flower[b].clear();
        flower[b].push_back(l);
        for (int x = u, y; x != l; x = st[pa[y]]) {
            flower[b].push_back(x);
            flower[b].push_back(y = st[match[x]]);
            q_push(y);
        }
        std::reverse(flower[b].begin() + 1, flower[b].end());
        for (int x = v, y; x != l; x = st[pa[y]]) {
            flower[b].push_back(x);
            flower[b].push_back(y = st[match[x]]);
            q_push(y);
        }
        set_st(b, b);
        for (int x = 1; x <= n_x; x++) {
            g[b][x].w = g[x][b].w = 0;
        }
        for (int x = 1; x <= n; x++) {
            flower_from[b][x] = 0;
        }
        for (int xs : flower[b]) {
            for (int x = 1; x <= n_x; x++) {
                if (g[b][x].w == 0 || delta(g[xs][x]) < delta(g[b][x])) {
                    g[b][x] = g[xs][x];
                    g[x][b] = g[x][xs];
                }
            }
            for (int x = 1; x <= n; x++) {
                if (flower_from[xs][x]) {
                    flower_from[b][x] = xs;
                }
            }
        }
        set_slack(b);
    }
    void expand_blossom(int b) {
        for (int y : flower[b]) {
            set_st(y, y);
        }
        int xr = flower_from[b][g[b][pa[b]].u], pr = get_pr(b, xr);
        for (int i = 0; i < pr; i += 2) {
            int xs = flower[b][i], xns = flower[b][i + 1];
            pa[xs] = g[xns][xs].u;
            S[xs] = 1;
            S[xns] = 0;
            slack[xs] = 0;
            set_slack(xns);
            q_push(xns);
        }
        S[xr] = 1;
        pa[xr] = pa[b];
        for (size_t i = pr + 1; i < flower[b].size(); i++) {
            int xs = flower[b][i];
            S[xs] = -1;
            set_slack(xs);
        }
        st[b] = 0;
    }
    bool on_found_edge(const E &e) {
        int u = st[e.u], v = st[e.v];
        if (S[v] == -1) {
            pa[v] = e.u;
            S[v] = 1;
            int nu = st[match[v]];
            slack[v] = slack[nu] = 0;
            S[nu] = 0;
            q_push(nu);
        } else if (S[v] == 0) {
            int l = lca(u, v);
            if (!l) {
                augment(u, v);
                augment(v, u);
                return true;
            }
            add_blossom(u, l, v);
        }
        return false;
    }
    bool matching() {
        std::fill(S.begin(), S.begin() + n_x + 1, -1);
        std::fill(slack.begin(), slack.begin() + n_x + 1, 0);
        q = {};
        for (int x = 1; x <= n_x; x++) {
            if (st[x] == x && !match[x]) {
                pa[x] = 0;
                S[x] = 0;
                q_push(x);
            }
        }
        if (q.empty()) {
            return false;
        }
        for (;;) {
            while (!q.empty()) {
                int u = q.front();
                q.pop();
                if (S[st[u]] == 1) {
                    continue;
                }
                for (int v = 1; v <= n; v++) {
                    if (g[u][v].w > 0 && st[u] != st[v]) {
                        if (delta(g[u][v]) == 0) {
                            if (on_found_edge(g[u][v])) {
                                return true;
                            }
                        } else {
                            update_slack(u, st[v]);
                        }
                    }
                }
            }
            int64_t d = INT64_MAX;
            for (int b = n + 1; b <= n_x; b++) {
                if (st[b] == b && S[b] == 1) {
                    d = std::min(d, lab[b] / 2);
                }
            }
            for (int x = 1; x <= n_x; x++) {
                if (st[x] == x && slack[x]) {
                    if (S[x] == -1) {
                        d = std::min(d, delta(g[slack[x]][x]));
                    } else if (S[x] == 0) {
                        d = std::min(d, delta(g[slack[x]][x]) / 2);
                    }
                }
            }
            for (int u = 1; u <= n; u++) {
                if (S[st[u]] == 0) {
                    if (lab[u] <= d) {
                        return false;
                    }
                    lab[u] -= d;
                } else if (S[st[u]] == 1) {
                    lab[u] += d;
                }
            }
            for (int b = n + 1; b <= n_x; b++) {
                if (st[b] == b) {
                    if (S[st[b]] == 0) {
                        lab[b] += d * 2;
                    } else if (S[st[b]] == 1) {
                        lab[b] -= d * 2;
                    }
                }
            }
            q = {};
            for (int x = 1; x <= n_x; x++) {
                if (st[x] == x && slack[x] && st[slack[x]] != x && delta(g[slack[x]][x]) == 0) {
                    if (on_found_edge(g[slack[x]][x])) {
                        return true;
                    }
                }
            }
            for (int b = n + 1; b <= n_x; b++) {
                if (st[b] == b && S[b] == 1 && lab[b] == 0) {
                    expand_blossom(b);
                }
            }
        }
    }
    void solve() {
        for (int u = 0; u <= n; u++) {
            st[u] = u;
        }
        int64_t w_max = 0;
        for (int u = 1; u <= n; u++) {
            for (int v = 1; v <= n; v++) {
                flower_from[u][v] = (u == v ? u : 0);
                w_max = std::max(w_max, g[u][v].w);
            }
        }
        for (int u = 1; u <= n; u++) {
            lab[u] = w_max;
        }
        while (matching()) {
        }
    }
};
}  // namespace

int64_t min_weight_perfect_matching(const std::vector<std::vector<int64_t>> &cost) {
    int n = (int)cost.size();
    if (n == 0) {
        return 0;
    }
    int64_t mx = 0;
    for (auto &r : cost) {
        for (auto c : r) {
            if (c < INF) {
                mx = std::max(mx, c);
            }
        }
    }
    int64_t big = mx * (n + 1) + 1;
    WeightedBlossom wb(n);
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < n; j++) {
            if (i != j && cost[i][j] < INF) {
                wb.g[i + 1][j + 1].w = big - cost[i][j];
            }
        }
    }
    wb.solve();
    int64_t total = 0;
    for (int u = 1; u <= n; u++) {
        if (!wb.match[u]) {
            return INF;
        }
        if (wb.match[u] < u) {
            total += cost[u - 1][wb.match[u] - 1];
        }
    }
    return total;
}

}  // namespace sim
