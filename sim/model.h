// Reference model of a matching graph, generators, and oracles that share no code with /repo.
#ifndef SIM_MODEL_H
#define SIM_MODEL_H

#include <array>
#include <cstdint>
#include <functional>
#include <set>
#include <string>
#include <vector>

#include "core.h"

namespace sim {

constexpr int BOUNDARY = -1;
constexpr int64_t INF = INT64_MAX / 4;
typedef std::vector<uint8_t> Bits;

struct MEdge {
    int u;
    int v;       // BOUNDARY for a half edge
    double w;    // weight as the user gives it
    double p;    // error probability (-1: none)
    int pal;     // which palette patterns (homology bits) this edge crosses
    std::vector<size_t> obs;
};

struct MGraph {
    int n = 0;
    size_t num_obs = 0;
    std::vector<MEdge> edges;
    // Heavier routes to the boundary of nodes that have a lighter one: (position, edge), inserted before edges[position]
    // when the graph is built. The decoder must behave as if they were absent.
    std::vector<std::pair<size_t, MEdge>> shadowed;
    std::set<int> boundary;            // nodes marked as boundary
    std::vector<Bits> palette;         // observable pattern of each palette bit
    std::vector<Bits> label;           // gauge label of each node (empty: no gauge part)
    Bits boundary_label;
    bool integral = true;
    bool has_negative = false;
    std::string shape;

    bool is_boundary(int x) const {
        return x == BOUNDARY || boundary.count(x);
    }
    std::string str() const;
};

struct GenOptions {
    int max_nodes = 8;
    int max_edges = 16;
    bool allow_negative = true;
    bool allow_fractional = false;
    bool allow_boundary_nodes = true;
    bool allow_self_loops = true;
    bool with_probabilities = false;
    bool distinct_palette = true;
    int max_palette = 2;      // homology bits (at most 3)
    size_t max_obs = 8;       // number of observables
    bool gauge = false;       // add gauge labels
    int64_t max_weight = 0;   // 0: draw a scale
    bool large = false;       // structured large graphs
    bool connected_shapes_only = false;
};
MGraph gen_graph(const GenOptions &o);

/// Many copies of one small graph side by side, so that sizes far beyond what an oracle can solve as a whole have an
/// exact answer.
struct Answer;
struct Oracle;
struct Crowd {
    MGraph base, all;
    size_t copies = 0;
    bool interleaved = false;
    int node(size_t copy, int x) const {
        return x == -1 ? -1 : (int)(interleaved ? (size_t)x * copies + copy : copy * (size_t)base.n + (size_t)x);
    }
    std::pair<size_t, int> origin(int node) const {
        return interleaved ? std::make_pair((size_t)node % copies, (int)((size_t)node / copies))
                           : std::make_pair((size_t)(node / base.n), node % base.n);
    }
    /// Draws detection events and their exact answer.
    std::pair<std::vector<uint64_t>, Answer> draw(Oracle &base_oracle) const;
};
Crowd gen_crowd(const GenOptions &o, size_t nodes);
/// Draws a set of detection events. mode 0: arbitrary subset; 1: the syndrome of a random edge set.
std::vector<uint64_t> gen_syndrome(const MGraph &g, int max_events);
/// Syndrome of a random edge set (always decodable).
std::vector<uint64_t> gen_decodable(const MGraph &g, int max_events);

/// What a syndrome allows. Weights are in the user's units.
struct Answer {
    bool feasible = false;
    double weight = 0;          // exact for integral graphs
    bool has_masks = false;
    double mask_weight[8];      // minimum weight over explanations with each palette mask (INF: none)
    int events = 0;             // detection events left after removing boundary nodes and negative-edge flips
};

/// Exact oracle. Small graphs: enumeration of all edge subsets. Otherwise: Dijkstra over
/// (node, palette mask) and dynamic programming over subsets of detection events, or, for many
/// detection events, an independent O(n^3) weighted blossom algorithm (weight only).
struct Oracle {
    const MGraph &g;
    explicit Oracle(const MGraph &g);
    Answer solve(const std::vector<uint64_t> &dets);
    /// Shortest distance using absolute weights; v may be BOUNDARY. INF if unreachable.
    double distance(int u, int v);
    std::function<double(int, int)> shortcut;  // answers distance() if set
    /// True if every detection event set with this parity is matchable.
    bool feasible(const std::vector<uint64_t> &dets);
    bool use_enumeration;

   private:
    std::vector<std::array<double, 8>> table;  // enumeration: [syndrome][palette mask]
    std::vector<int> comp;
    std::vector<char> comp_has_boundary;
    std::vector<std::vector<std::pair<int, int>>> adj;  // neighbor (n = boundary vertex), edge index
    double neg_sum = 0;
    int neg_mask = 0;
    std::vector<char> neg_det;
    std::vector<std::vector<double>> dijkstra_masks(int src);  // [vertex][mask]
};

/// Observables predicted by every explanation using palette mask `mask` of this syndrome.
Bits expected_obs(const MGraph &g, const std::vector<uint64_t> &dets, int mask);
/// Is `obs` the flips of an explanation whose weight is within `tol` of the minimum?
bool obs_allowed(const MGraph &g, const std::vector<uint64_t> &dets, const Answer &a, const Bits &obs, double tol = 0);

std::string dets_str(const std::vector<uint64_t> &d);
std::string bits_str(const Bits &b);

/// Minimum-weight perfect matching on a complete graph given by a cost matrix (INF: no edge).
/// Returns INF if there is none. Independent O(n^3) implementation used as oracle.
int64_t min_weight_perfect_matching(const std::vector<std::vector<int64_t>> &cost);

}  // namespace sim

#endif
