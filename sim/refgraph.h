// Reference model of a graph under edits.
#ifndef SIM_REFGRAPH_H
#define SIM_REFGRAPH_H

#include <map>

#include "sut.h"

namespace sim {

struct Edit {
    int kind;  // 0 edge, 1 boundary edge, 2 set_boundary, 3 set_min_num_observables
    int u = 0, v = 0;
    double w = 0, p = -1;
    int pal = 0;
    std::vector<size_t> obs;
    int strategy = 0;
    std::set<size_t> boundary;
    size_t num_obs = 0;
    std::string str() const;
};

struct RefEdge {
    int u, v;
    double w, p;
    int pal;
    std::vector<size_t> obs;
};

struct RefGraph {
    int n = 0;
    size_t num_obs = 0;
    bool merged = false;  // some weight came from combining mechanisms, so it is not exact
    std::vector<Bits> palette;  // observable patterns (indices), fixed per run
    std::vector<RefEdge> edges;  // in order of insertion
    std::set<size_t> boundary;
    RefEdge *find(int u, int v);
    bool apply(const Edit &e);  // false: the edit must be rejected
    bool decodable() const;     // no weight beyond the accepted maximum
    MGraph to_model();
    bool ambiguous_observables = false;  // set by to_model: a tie among collapsed routes
};

Edit gen_edit(RefGraph &ref);
CallOutcome apply_edit(pm::UserGraph &ug, const Edit &e, AllocFault *fault);
void check_path(const MGraph &g, Oracle &oracle, pm::UserGraph &ug, int a, int b);  // BOUNDARY allowed
void check_graph(pm::UserGraph &ug, RefGraph &ref, const char *when);

}  // namespace sim

#endif
