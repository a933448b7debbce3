#include "core.h"
namespace sim {
void world_selftest();
void world_c01();
void world_c02();
void world_c03();
void world_c04();
void world_c05();
void world_c06();
void world_c07();
void world_c08();
void world_c09();
void world_c10();
void world_c11();
void world_c12();
void world_c13();
void world_c14();
void world_c15();
void world_c16();
void world_c17();
void world_c20();
const std::vector<WorldReg> &worlds() {
    static const std::vector<WorldReg> w = {
        {"selftest", world_selftest, "oracle self test"},
        {"C01", world_c01, "one run = one generated graph and 1-8 decodes, each under a drawn order of simultaneous events; non-trivial if some decode had at least two detection events or a tie whose order was drawn"},
        {"C02", world_c02, "as C01, with 1-200 observables"},
        {"C03", world_c03, "as C01, through the edge and matched-pair outputs"},
        {"C04", world_c04, "one run = one graph or correlated error model and 2-14 calls of any kind on one decoder, each compared with the same call on a new decoder under the same order of ties; non-trivial if a compared call had a history"},
        {"C05", world_c05, "one run = one graph and 2-12 calls, many with undecodable syndromes or indices outside the graph; non-trivial if a call after a rejection was compared with a new decoder"},
        {"C06", world_c06, "one run = one graph, edit history or error model with allocation failures at drawn positions (once, burst, until the end of the call); non-trivial if a failure hit the call"},
        {"C07", world_c07, "one run = 2-4 threads, each with a program of 2-9 operations over a graph and decoder of its own, run alone and then interleaved in a process with nothing initialised; non-trivial if the schedule switched threads while at least two were unfinished"},
        {"C08", world_c08, "one run = 2-24 edits or bursts of edits and decodes on one graph, checked against a reference graph; non-trivial if a decode followed at least two steps"},
        {"C09", world_c09, "one run = one error model and 1-6 correlated and plain decodes on one decoder under drawn orders of ties; non-trivial if a first pass changed a weight"},
        {"C10", world_c10, "one run = one event queue moved to a drawn clock origin, then 2-60 operations on it directly or through 1-6 wake-up trackers, until empty; non-trivial if an event or wake-up was delivered"},
        {"C11", world_c11, "one run = one graph and 1-10 path queries under drawn orders of ties, with decodes in between; non-trivial if a query had a path"},
        {"C12", world_c12, "one run = one graph (half of them with distances beyond 32-bit time) and 1-4 decodes or path queries under drawn orders of ties, each with a step budget; non-trivial if a call was made"},
        {"C13", world_c13, "one run = one graph and a history of 1-8 operations repeated 12 times, then destruction; allocation failures in a third of the runs"},
        {"C14", world_c14, "one run = one predict command over simulated files: a model, 0-60 shots, drawn formats, buffer sizes and faults; non-trivial if predictions were checked or the command failed"},
        {"C15", world_c15, "one run = one count_mistakes command over simulated files and clock; non-trivial if a count was checked or the command failed"},
        {"C16", world_c16, "one run = one graph (given, or reached by edits), one seed, 1-6 samples drawn twice or more with other calls in between, or 150-300 samples for rates; non-trivial if samples were compared"},
        {"C17", world_c17, "one run = one graph with weights at a drawn scale (or one weight that is too large) and 1-4 decodes; non-trivial if a decodable syndrome was decoded or a weight had to be refused"},
        {"C20", world_c20, "one run = one animation, by the animate command or by the library call, over simulated files and directories with drawn frame options, orders of ties and faults; non-trivial if frames were checked or the animation failed"},
    };
    return w;
}
}
