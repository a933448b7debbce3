// World C16: noise sampling. The random source is seeded through the library's own seam (set_seed);
// nothing here assumes which generator it is.
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <random>
#include <sstream>
#include <type_traits>

#include "pymatching/rand/rand_gen.h"
#include "refgraph.h"

namespace sim {

struct Sample {
    Bits obs, syn;
    bool operator==(const Sample &o) const {
        return obs == o.obs && syn == o.syn;
    }
};

static Sample sample(pm::UserGraph &ug, size_t num_obs, size_t n) {
    constexpr size_t PAD = 16;
    Sample s;
    s.obs.assign(num_obs + PAD, 0);
    s.syn.assign(n + PAD, 0);
    std::fill(s.obs.begin() + num_obs, s.obs.end(), 0xA5);
    std::fill(s.syn.begin() + n, s.syn.end(), 0xA5);
    CallOutcome c = call([&] { ug.add_noise(s.obs.data(), s.syn.data()); });
    if (c.status != OK) {
        violation("unexpected-error", "sampling noise failed: %s", c.what.c_str());
    }
    for (size_t k = 0; k < PAD; k++) {
        if (s.obs[num_obs + k] != 0xA5 || s.syn[n + k] != 0xA5) {
            violation("out-of-bounds-write", "sampling noise wrote past the end of an array");
        }
    }
    s.obs.resize(num_obs);
    s.syn.resize(n);
    count("samples");
    return s;
}

/// Is (obs, syn) what some set of edges gives, with every edge of probability 1 and none of probability 0?
static bool consistent(const std::vector<RefEdge> &edges, const std::set<size_t> &boundary, const Sample &s) {
    size_t n = s.syn.size(), b = n + s.obs.size();
    auto vec = [&](const RefEdge &e) {
        Bits v(b, 0);
        v[e.u] ^= 1;
        if (e.v != BOUNDARY) {
            v[e.v] ^= 1;
        }
        for (auto x : boundary) {
            v[x] = 0;
        }
        for (auto o : e.obs) {
            v[n + o] ^= 1;
        }
        return v;
    };
    Bits t(s.syn);
    t.insert(t.end(), s.obs.begin(), s.obs.end());
    std::vector<std::pair<size_t, Bits>> basis;
    auto reduce = [&](Bits &v) {
        for (auto &[piv, x] : basis) {
            if (v[piv]) {
                for (size_t k = 0; k < b; k++) {
                    v[k] ^= x[k];
                }
            }
        }
    };
    for (auto &e : edges) {
        if (e.p <= 0) {
            continue;
        }
        Bits v = vec(e);
        if (e.p >= 1) {
            for (size_t k = 0; k < b; k++) {
                t[k] ^= v[k];
            }
            continue;
        }
        reduce(v);
        for (size_t k = 0; k < b; k++) {
            if (v[k]) {
                basis.push_back({k, v});
                break;
            }
        }
    }
    reduce(t);
    for (auto x : t) {
        if (x) {
            return false;
        }
    }
    return true;
}

static void check_sample(const RefGraph &ref, const Sample &s, const char *what) {
    for (auto x : s.obs) {
        if (x > 1) {
            violation("bad-sample", "a sampled observable is neither 0 nor 1");
        }
    }
    bool all = true;
    for (auto &e : ref.edges) {
        all &= e.p >= 0 && e.p <= 1;
    }
    for (auto b : ref.boundary) {
        if (b < s.syn.size() && s.syn[b]) {
            violation("boundary-syndrome", "boundary node %zu reports a syndrome (%s)", b, what);
        }
    }
    if (!all) {
        for (auto x : s.syn) {
            all |= x;
        }
        for (auto x : s.obs) {
            all |= x;
        }
        if (all) {
            violation("bad-sample", "noise was sampled although an edge has no error probability (%s)", what);
        }
        return;
    }
    if (!consistent(ref.edges, ref.boundary, s)) {
        RefGraph r = ref;
        violation("inconsistent-sample", "syndrome %s and observables %s are those of no set of edges (%s): %s",
                  bits_str(s.syn).c_str(), bits_str(s.obs).c_str(), what, r.to_model().str().c_str());
    }
}

static std::unique_ptr<pm::UserGraph> build_ref(const RefGraph &ref) {
    std::unique_ptr<pm::UserGraph> ug;
    CallOutcome c = call([&] {
        ug = std::make_unique<pm::UserGraph>((size_t)ref.n, ref.num_obs);
        for (auto &e : ref.edges) {
            if (e.v == BOUNDARY) {
                ug->add_or_merge_boundary_edge((size_t)e.u, e.obs, e.w, e.p);
            } else {
                ug->add_or_merge_edge((size_t)e.u, (size_t)e.v, e.obs, e.w, e.p);
            }
        }
        if (!ref.boundary.empty()) {
            ug->set_boundary(ref.boundary);
        }
    });
    if (c.status != OK) {
        violation("build-failed", "building a valid graph failed: %s", c.what.c_str());
    }
    return ug;
}

/// Something that is not sampling: must not disturb the sequence of samples.
static void distract(pm::UserGraph &ug, const RefGraph &ref, int what, uint64_t det) {
    call([&] {
        switch (what) {
            case 0: {
                auto &m = ug.get_mwpm();
                std::vector<uint8_t> obs(ref.num_obs + 1, 0);
                pm::total_weight_int w = 0;
                pm::decode_detection_events(m, {det}, obs.data(), w, false);
                break;
            }
            case 1: {
                auto &m = ug.get_mwpm_with_search_graph();
                std::vector<int64_t> e;
                pm::decode_detection_events_to_edges(m, {det}, e);
                break;
            }
            case 2: {
                std::vector<size_t> nodes;
                ug.get_nodes_on_shortest_path_from_source(det, 0, nodes);
                break;
            }
            case 3: {
                pm::UserGraph other(3, 1);
                other.add_or_merge_edge(0, 1, {0}, 1.5, 0.3);
                other.add_or_merge_boundary_edge(0, {}, 1.5, 0.3);
                other.get_mwpm();
                break;
            }
            default:
                ug.update_mwpm();
                ug.get_num_detectors();
                break;
        }
    });
}

/// Makes the library's generator draw nothing but zeros, or nothing but ones (for half of its state).
/// False if the generator is not the kind this knows how to steer.
static bool steer_generator(bool ones) {
    using Rng = std::remove_reference_t<decltype(pm::global_urng())>;
    if constexpr (std::is_same_v<Rng, std::mt19937>) {
        uint32_t word = 0;
        if (ones) {
            // Solve temper(word) = all ones, bit by bit: tempering is linear and triangular enough to search.
            auto temper = [](uint32_t y) {
                y ^= y >> 11;
                y ^= (y << 7) & 0x9d2c5680u;
                y ^= (y << 15) & 0xefc60000u;
                return y ^ (y >> 18);
            };
            uint32_t rows[32], rhs[32];
            for (int r = 0; r < 32; r++) {
                rows[r] = 0;
                rhs[r] = 1;
                for (int c = 0; c < 32; c++) {
                    rows[r] |= ((temper(1u << c) >> r) & 1u) << c;
                }
            }
            for (int c = 0; c < 32; c++) {
                for (int r = c; r < 32; r++) {
                    if (rows[r] >> c & 1) {
                        std::swap(rows[r], rows[c]);
                        std::swap(rhs[r], rhs[c]);
                        break;
                    }
                }
                for (int r = 0; r < 32; r++) {
                    if (r != c && (rows[r] >> c & 1)) {
                        rows[r] ^= rows[c];
                        rhs[r] ^= rhs[c];
                    }
                }
            }
            for (int c = 0; c < 32; c++) {
                word |= rhs[c] << c;
            }
        }
        std::stringstream state;
        for (size_t k = 0; k < Rng::state_size; k++) {
            state << word << ' ';
        }
        state << 0;
        state >> pm::global_urng();
        Rng copy = pm::global_urng();
        uint32_t want = ones ? 0xffffffffu : 0;
        return copy() == want && copy() == want;
    } else {
        return false;
    }
}

static void rates(const RefGraph &ref, pm::UserGraph &ug) {
    // Every edge flips an observable of its own, so a sample shows which edges failed.
    size_t E = ref.edges.size();
    bool many = chance(1, 12);
    int N = many ? 20000 : 150 + (int)pick(150);
    double sigmas = many ? 7 : 9;
    std::vector<double> cnt(E, 0);
    std::vector<std::vector<double>> cov(E, std::vector<double>(E, 0)), lag(E, std::vector<double>(E, 0));
    Bits prev;
    // Runs of samples never come again: a run is long enough that two of N agree by chance less than once in 2^60.
    double entropy = 0;
    for (auto &e : ref.edges) {
        entropy -= std::log2(e.p * e.p + (1 - e.p) * (1 - e.p));
    }
    size_t window = entropy > 0.2 ? (size_t)(100 / entropy) + 1 : 0;
    std::vector<uint64_t> history;
    std::set<uint64_t> seen;
    for (int t = 0; t < N; t++) {
        Sample s = sample(ug, ref.num_obs, (size_t)ref.n);
        check_sample(ref, s, "rates");
        if (window) {
            uint64_t h = 0xcbf29ce484222325ull;
            for (auto x : s.obs) {
                h = (h ^ x) * 0x100000001b3ull;
            }
            history.push_back(h);
            if (history.size() >= window) {
                uint64_t w = 0x9e3779b97f4a7c15ull;
                for (size_t i = history.size() - window; i < history.size(); i++) {
                    w = (w ^ history[i]) * 0xff51afd7ed558ccdull;
                    w ^= w >> 32;
                }
                if (!seen.insert(w).second) {
                    violation("not-independent", "%zu samples in a row came a second time within %d samples", window, t + 1);
                }
            }
        }
        for (size_t i = 0; i < E; i++) {
            if (t < 300) {
                note(s.obs[i]);
            }
            cnt[i] += s.obs[i];
            for (size_t j = 0; j < E; j++) {
                cov[i][j] += (s.obs[i] - ref.edges[i].p) * (s.obs[j] - ref.edges[j].p);
                if (t) {
                    lag[i][j] += (s.obs[i] - ref.edges[i].p) * (prev[j] - ref.edges[j].p);
                }
            }
        }
        prev = s.obs;
    }
    for (size_t i = 0; i < E; i++) {
        double p = ref.edges[i].p, v = p * (1 - p);
        if (std::abs(cnt[i] - N * p) > sigmas * std::sqrt(N * v) + (v > 0 ? 12 : 0)) {
            violation("wrong-rate", "edge %zu with error probability %g failed in %g of %d samples", i, p, cnt[i], N);
        }
        for (size_t j = 0; j < E; j++) {
            double s = std::sqrt(v * ref.edges[j].p * (1 - ref.edges[j].p));
            if (s < 0.05) {
                continue;
            }
            double lim = sigmas * s * std::sqrt((double)N) + 14;
            if ((i != j && std::abs(cov[i][j]) > lim) || std::abs(lag[i][j]) > lim) {
                violation("not-independent", "failures of edges %zu and %zu (p=%g, %g) are correlated %s: %g over %d samples", i,
                          j, p, ref.edges[j].p, std::abs(lag[i][j]) > lim ? "from sample to sample" : "within a sample",
                          std::abs(lag[i][j]) > lim ? lag[i][j] : cov[i][j], N);
            }
        }
    }
    count(many ? "rate_tests_20000_samples" : "rate_tests", E);
    nontrivial();
}

void world_c16() {
    static const unsigned seeds[] = {0, 1, 2, 42, 0x7fffffff, 0x80000000u, 0xffffffffu};
    unsigned seed = chance(1, 3) ? seeds[pick(7)] : (unsigned)pick(1u << 30) * 3;
    RefGraph ref;
    std::unique_ptr<pm::UserGraph> ug;
    int kind = pick(8);
    static const double ps[] = {0.5, 0, 1, 0.1, 0.9, 0.01, 0.25, 1e-12, 0.3333};
    if (kind < 5) {
        // A graph as given.
        bool own_obs = kind == 0;
        ref.n = range(1, own_obs ? 6 : kind == 1 ? (chance(1, 60) ? 400 : 40) : 9);
        int ne = range(1, own_obs ? 8 : ref.n > 40 ? ref.n + 100 : 3 * ref.n);
        for (int k = 0; k < ne; k++) {
            int u = pick(ref.n), v = chance(1, 4) ? BOUNDARY : (int)pick(ref.n);
            if (ref.find(u, v)) {
                continue;
            }
            RefEdge e{u, v, 1, ps[pick(9)], 0, {}};
            if (own_obs) {
                e.obs = {ref.edges.size()};
            } else {
                while (chance(1, 2)) {
                    size_t o = pick(chance(1, 6) ? (chance(1, 8) ? 400 : 100) : 5);
                    if (std::find(e.obs.begin(), e.obs.end(), o) == e.obs.end()) {
                        e.obs.push_back(o);
                    }
                }
            }
            for (auto o : e.obs) {
                ref.num_obs = std::max(ref.num_obs, o + 1);
            }
            ref.edges.push_back(e);
        }
        if (chance(1, 3)) {
            ref.boundary.insert(pick(ref.n));
            if (chance(1, 3)) {
                ref.boundary.insert(pick(ref.n));
            }
        }
        if (chance(1, 12) && !ref.edges.empty()) {
            ref.edges[pick((uint32_t)ref.edges.size())].p = -1;
        }
        ug = build_ref(ref);
        describe("%s seed=%u", RefGraph(ref).to_model().str().c_str(), seed);
        if (own_obs) {
            bool all = true;
            for (auto &e : ref.edges) {
                all &= e.p >= 0;
            }
            if (all) {
                pm::set_seed(seed);
                rates(ref, *ug);
                return;
            }
        }
    } else {
        // A graph with a history of edits.
        call([&] { ug = std::make_unique<pm::UserGraph>(); });
        int ops = range(1, 14);
        std::string hist;
        for (int k = 0; k < ops; k++) {
            Edit e = gen_edit(ref);
            if (chance(2, 3) && e.kind <= 1) {
                e.p = ps[pick(9)];
            }
            RefGraph before = ref;
            if (!ref.apply(e)) {
                ref = before;
            }
            apply_edit(*ug, e, nullptr);
            hist += e.str() + "; ";
            if (chance(1, 4)) {
                pm::set_seed(seed + k);
                Sample s = sample(*ug, ref.num_obs, (size_t)ref.n);
                check_sample(ref, s, hist.c_str());
            }
        }
        describe("%s seed=%u", hist.c_str(), seed);
    }
    if (chance(1, 8)) {
        // Extreme draws: the smallest and the largest numbers the generator can give.
        bool ones = chance(1, 2);
        if (steer_generator(ones)) {
            count(ones ? "fault:generator_draws_only_ones" : "fault:generator_draws_only_zeros");
            Sample s = sample(*ug, ref.num_obs, (size_t)ref.n);
            check_sample(ref, s, ones ? "all draws at their maximum" : "all draws zero");
        }
    }
    // The same seed gives the same samples, whatever else happens in between.
    int S = range(1, 6);
    std::vector<Sample> first;
    std::vector<double> floats;
    bool use_floats = chance(1, 4);
    call([&] { pm::set_seed(seed); });
    for (int k = 0; k < S; k++) {
        first.push_back(sample(*ug, ref.num_obs, (size_t)ref.n));
        check_sample(ref, first.back(), "sample");
        for (auto x : first.back().syn) {
            note(x);
        }
        if (use_floats) {
            double x = 0;
            call([&] { x = pm::rand_float(-1.5, 2.5); });
            if (!(x >= -1.5 && x <= 2.5)) {
                violation("bad-float", "rand_float(-1.5, 2.5) returned %g", x);
            }
            floats.push_back(x);
        }
    }
    nontrivial();
    auto again = [&](pm::UserGraph &g, int distractions, bool quiet) -> bool {
        for (int k = 0; k < S; k++) {
            Sample s = sample(g, ref.num_obs, (size_t)ref.n);
            bool same = s == first[k];
            if (use_floats) {
                double x = 0;
                call([&] { x = pm::rand_float(-1.5, 2.5); });
                same = same && x == floats[k];
            }
            if (!same) {
                if (quiet) {
                    return false;
                }
                violation("not-reproducible", "after set_seed(%u), sample %d differs from the one first seen (%s, %s)", seed, k,
                          bits_str(s.syn).c_str(), bits_str(first[k].syn).c_str());
            }
            if (distractions >= 0) {
                distract(g, ref, (distractions + k) % 5, ref.n ? (uint64_t)k % ref.n : 0);
            }
        }
        return true;
    };
    // Move the generator on, then seed again.
    int moved = pick(8);
    for (int k = 0; k < moved; k++) {
        sample(*ug, ref.num_obs, (size_t)ref.n);
    }
    int d = ref.decodable() && ref.n ? (int)pick(5) : -1;
    call([&] { pm::set_seed(seed); });
    again(*ug, d, false);
    if (kind < 5 && chance(1, 2)) {
        // Another object with the same edges.
        auto other = build_ref(ref);
        call([&] { pm::set_seed(seed); });
        again(*other, -1, false);
    }
    if (chance(1, 50)) {
        // Another process.
        pid_t pid = fork();
        if (pid == 0) {
            call([&] { pm::set_seed(seed); });
            _exit(again(*ug, -1, true) ? 0 : 3);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        count("samples_in_second_process");
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            violation("not-reproducible", "another process draws other samples from seed %u", seed);
        }
    }
}

}  // namespace sim
