// What two-pass decoding means (shared by the correlated-decoding and command-line worlds).
#ifndef SIM_CORR_H
#define SIM_CORR_H

#include "dem.h"

namespace sim {
MGraph reweighted(const MGraph &g, const std::vector<Implied> &imp, const std::vector<char> &in_first_pass);
/// Every edge set that reproduces the syndrome with a weight within `tol` of the minimum.
std::vector<std::vector<char>> first_passes(const MGraph &g, const std::vector<uint64_t> &dets, double tol);
}  // namespace sim

#endif
