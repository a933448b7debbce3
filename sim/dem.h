// Reference model of detector error models: generation, the graph they mean, and the weights that
// correlations imply. Shares no code with /repo or with the Stim stand-in.
#ifndef SIM_DEM_H
#define SIM_DEM_H

#include "model.h"

namespace sim {

struct DComp {
    std::vector<int> dets;
    int pal = 0;
    std::vector<size_t> obs;
};
struct DErr {
    double p;
    std::vector<DComp> comps;
};
struct MDem {
    int nd = 0;
    size_t no = 0;
    std::vector<Bits> palette;
    std::vector<DErr> errs;
    bool well_formed_for_correlations = true;
    std::string text;
};

struct DemOptions {
    int max_dets = 6;
    int max_edges = 10;       // distinct edges
    int max_errors = 14;
    size_t max_obs = 3;
    int max_palette = 2;
    bool correlations = false;  // keep to models that correlated decoding accepts
    bool generic = false;       // probabilities without ties
    bool rich = false;          // as many errors with several parts as edges
    bool chain = false;         // long chain instead of a small random graph
};
MDem gen_dem(const DemOptions &o);
/// The graph that the model means: parallel mechanisms combined as independent, observables of the
/// first mechanism of an edge, parts with more than two detectors or none left out.
MGraph dem_to_graph(const MDem &d);

struct Implied {
    int cause, effect;  // edge indices in dem_to_graph(d).edges
    double w;
};
std::vector<Implied> implied_weights(const MDem &d, const MGraph &g);
/// Index of the edge of g between u and v (BOUNDARY allowed), or -1.
int find_edge(const MGraph &g, int u, int v);

}  // namespace sim

#endif
