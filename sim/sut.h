// Thin layer over the real PyMatching code: builds real graphs and decoders from a model graph and
// performs one API call at a time through sim::call().
#ifndef SIM_SUT_H
#define SIM_SUT_H

#include <memory>

#include "model.h"
#include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
#include "pymatching/sparse_blossom/driver/user_graph.h"

namespace sim {

enum Api { API_OBS, API_OBS64, API_EDGES, API_PAIRS, API_OBS_CORR, API_OBS64_CORR, API_EDGES_CORR };
const char *api_name(Api a);

struct Result {
    CallOutcome out;
    bool has_weight = false, has_obs = false, has_edges = false, has_pairs = false;
    int64_t raw_weight = 0;
    double weight = 0;   // in user units
    double nc = 0;       // scaling factor reported by the decoder
    Bits obs;
    std::vector<std::pair<int64_t, int64_t>> edges;       // as returned (-1: boundary)
    std::vector<std::pair<int64_t, int64_t>> pairs;       // -1: boundary
    std::vector<uint64_t> pair_masks;
    int64_t flood_time = 0;

    bool same_as(const Result &o) const;
    std::string str() const;
    void note_all() const;
};

/// Adds the model's edges (in model order) to a new real graph. `style` varies how.
std::unique_ptr<pm::UserGraph> build_graph(const MGraph &g, int style = 0);
/// One decode call on a decoder.
Result decode(pm::Mwpm &m, size_t num_obs, Api api, const std::vector<uint64_t> &dets, AllocFault *fault = nullptr,
              uint64_t budget = 0);

/// Verdicts (all raise violation()).
void check_status(const MGraph &g, const Answer &a, Api api, const std::vector<uint64_t> &dets, const Result &r);
void check_weight(const MGraph &g, const Answer &a, Api api, const std::vector<uint64_t> &dets, const Result &r);
void check_obs(const MGraph &g, const Answer &a, Api api, const std::vector<uint64_t> &dets, const Result &r);
void check_edges(const MGraph &g, const Answer &a, const std::vector<uint64_t> &dets, const Result &r);
void check_pairs(const MGraph &g, Oracle &o, const Answer &a, const std::vector<uint64_t> &dets, const Result &r);
/// How far the reported minimum may be from the true one because weights are discretised.
double weight_tolerance(const MGraph &g, double nc);

}  // namespace sim

#endif
