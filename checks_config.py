"""What each check runs."""
WRAP = ["-Wl,--wrap=malloc,--wrap=free,--wrap=pthread_mutex_lock,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort"]
# what an uninitialised variable holds is not left to chance (the allocator fills fresh memory too)
INIT = ["-ftrivial-auto-var-init=pattern"]
VARIANTS = {
    # g++ at the shipped optimisation level class, with a step counter at every basic block.
    # memory errors end the run
    "asan": {"cxx": "g++", "flags": ["-O1", *INIT, "-fsanitize=address", "-fno-omit-frame-pointer", "-DSIM_ASAN", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
             "sut_flags": ["-fsanitize-coverage=trace-pc"], "own_flags": [], "link": WRAP},
    # clang, with a yield point at every load and store as well
    "access": {"cxx": "clang++", "flags": ["-O1", *INIT], "sut_flags": ["-fsanitize-coverage=bb,trace-pc,trace-loads,trace-stores"],
               "own_flags": [], "link": WRAP},
    "draw-asan": {"cxx": "g++", "flags": ["-O1", *INIT, "-fsanitize=address", "-fno-omit-frame-pointer", "-DSIM_ASAN", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-DSIM_DRAW"],
                  "sut_flags": ["-fsanitize-coverage=trace-pc"], "own_flags": [], "link": WRAP + ["-ldl"]},
    # with the drawing code, whose files come from the simulator
    "draw": {"cxx": "g++", "flags": ["-O2", *INIT, "-DSIM_DRAW"], "sut_flags": ["-fsanitize-coverage=trace-pc"], "own_flags": [],
             "link": WRAP + ["-ldl"]},
    "main": {"cxx": "g++", "flags": ["-O2", *INIT], "sut_flags": ["-fsanitize-coverage=trace-pc"], "own_flags": [], "link": WRAP},
}
ALL = list(range(8))
COMPONENTS = {
    "real": ["UserGraph", "MatchingGraph", "SearchGraph", "Mwpm", "GraphFlooder", "SearchFlooder",
             "radix_heap_queue and event trackers", "Arena", "decode entry points (mwpm_decoding)"],
    "stub": ["Stim (stim_stub: bit-packed tables, readers and writers, error-model parser)",
             "order among simultaneous events (seam in radix_heap_queue::dequeue)",
             "global allocator (malloc/operator new behind the simulator)"],
}
BASE = ["weights are integers where results are compared exactly; fractional weights are compared within their "
        "discretisation error",
        "the compiler builds the same program with -fsanitize-coverage=trace-pc and -DPYMATCHING_SIM_HOOKS"]


CLI_REAL = COMPONENTS["real"] + ["command line (pm::main, predict, count_mistakes)", "C library stdio buffering"]
CLI_STUB = COMPONENTS["stub"] + ["files, stdin, stdout (fopencookie)", "steady and system clock"]


def c(worlds, level="exploration", quick=60, thorough=600, assumptions=(), **kw):
    d = {"plan": worlds, "level": level, "quick_s": quick, "thorough_s": thorough, "assumptions": BASE + list(assumptions)}
    d.update(kw)
    return d


CHECKS = {
    "C01": c([("C01", "main", ALL)]),
    "C02": c([("C02", "main", ALL)]),
    "C03": c([("C03", "main", ALL)]),
    "C04": c([("C04", "main", ALL)]),
    "C05": c([("C05", "main", ALL)]),
    "C06": c([("C06", "main", ALL)]),
    "C07": c([("C07", "access", ALL)],
             stub=COMPONENTS["stub"] + ["thread scheduler (one thread runs at a time; a baton moves at basic blocks and memory accesses)",
                                        "pthread_mutex_lock and initialisation guards (give the baton away instead of blocking)"],
             assumptions=["noise sampling is left out: its generator is one per process by design",
                          "memory accesses inside the C and C++ libraries are not yield points",
                          "a run that blocks on a primitive the scheduler does not know gives no verdict"]),
    "C08": c([("C08", "main", ALL)]),
    "C09": c([("C09", "main", ALL)]),
    "C10": c([("C10", "main", ALL)], quick=30,
             real=["radix_heap_queue", "QueuedEventTracker", "cyclic time", "FloodCheckEvent"],
             stub=["the objects that ask to be looked at (reference model)"]),
    "C11": c([("C11", "main", ALL)]),
    "C12": c([("C12", "main", ALL)]),
    "C13": c([("C13", "main", [0, 1, 2, 3]), ("C13", "asan", [4, 5, 6, 7])]),
    "C14": c([("C14", "main", ALL)], real=CLI_REAL, stub=CLI_STUB,
             assumptions=["Stim's record readers and writers behave as its stand-in does", "after a write error that goes away again only the exit status is judged"]),
    "C15": c([("C15", "main", ALL)], real=CLI_REAL, stub=CLI_STUB,
             assumptions=["Stim's record readers behave as its stand-in does"]),
    "C16": c([("C16", "main", ALL)],
             stub=["order among simultaneous events", "global allocator", "Stim (stim_stub)"],
             assumptions=["independence and rates are tested statistically at fixed seeds with a false-alarm chance below 1e-9 per run"]),
    "C17": c([("C17", "main", ALL)]),
    "C20": c([("C20", "draw", ALL[:6]), ("C20", "draw-asan", ALL[6:])],
             real=COMPONENTS["real"] + ["animate command (pm::main)", "frame drawing (mwpm_diagram)", "libstdc++ file streams"],
             stub=COMPONENTS["stub"] + ["files and directories (fopen, fileno, write, writev, stat, mkdir; fopencookie)"],
             assumptions=["Stim's model and record readers behave as its stand-in does",
                          "outlines are checked for regions that are not part of a blossom"]),
}

# property: (what the technique searches, what the verdict rests on)
NOTES = {
    "C01": ("; orders of simultaneous events; exact reference oracles", "Seeded search, no proof: graphs up to 800 nodes (66000 when made of copies), exact oracle (enumeration, dynamic programming or an independent weighted blossom). Trusts the oracles, which are cross-checked against each other."),
    "C02": ("; orders of simultaneous events; oracle over homology classes", "Seeded search: predictions compared with the set of observable flips of all minimum-weight explanations, up to 1000 observables."),
    "C03": ("; orders of simultaneous events; direct check of the returned edges", "Seeded search: returned edges and pairs are checked against syndrome, graph and minimum weight."),
    "C04": ("; call histories; comparison with a fresh decoder", "Seeded search over call histories; every call is compared with the same call on a new decoder under the same tie decisions."),
    "C05": ("; histories with bad input injected", "Seeded search: undecodable and out-of-range syndromes injected into histories; oracle for decodability, fresh decoder for the aftermath."),
    "C06": ("; allocation failures injected at drawn positions", "Seeded search over allocation-failure positions in every kind of call; graph contents and later results compared with a reference."),
    "C07": ("; thread switches at every basic block and memory access", "Seeded search over schedules of 2-4 real threads under a baton; every result compared with the same program run alone in a fresh process."),
    "C08": ("; edit histories against a reference graph", "Seeded search over edit and decode histories, refinement check against a small executable reference graph."),
    "C09": ("; histories and orders of ties; independent statement of two-pass decoding", "Seeded search: each correlated decode must be an optimum under the weights implied by some minimum-weight first pass (all enumerated on small models), plain decodes in between must see the original weights."),
    "C10": ("; simulated clock at every origin; sorted reference", "Seeded search over operation sequences on the real queue and trackers at drawn clock origins, including 32-bit wrap."),
    "C11": ("; orders of simultaneous events; Dijkstra reference", "Seeded search: returned paths checked for connectivity and minimal weight, later results against fresh objects."),
    "C12": ("; step counter at every basic block; bounded progress", "Seeded search: every call must end within a polynomial budget with at least 20 times slack over the largest use seen."),
    "C13": ("; allocator accounting and address checking; allocation failures", "Seeded search: allocation balance per round of a repeated history and after destruction."),
    "C14": ("; simulated files with short reads, read and write errors, truncation, full disk, open and close failures, allocation failures", "Seeded search over models, shot streams, formats, buffer sizes and stream faults; output bytes compared with the allowed predictions of an independent oracle and encoder."),
    "C15": ("; simulated files and clock with the same stream faults", "Seeded search; reported count compared with the range allowed by ties, time with the simulated clock readings."),
    "C16": ("; seeded randomness; histories of sampling calls", "Seeded search: samples after the same seed compared across calls and objects, each sample checked to come from one edge set, rates tested with a fixed false-alarm bound."),
    "C17": ("; weight scales and simulated time beyond 32 bits", "Seeded search: reported weight compared with an exact minimum within the rounding of one part in 2^24 per edge."),
    "C20": ("; simulated files and directories with open, write and close failures; orders of simultaneous events", "Seeded search: every frame is parsed and compared with the model, the syndrome and the decoder's state at that moment; the animated decode must end at the exact minimum weight."),
}
_PY = ("no Python bindings can be built or imported here (pybind11 and the real Stim are absent), and the property is a "
       "pure function of one input with no schedule, clock, I/O, fault or history for a simulator to control")
NOT_APPLICABLE = {
    "C18": _PY,
    "C19": _PY,
}
