// Worlds C14 and C15: the command line over simulated files, a simulated clock and injected faults.
#include <errno.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <iostream>
#include <map>
#include <sstream>

#include "corr.h"
#include "dem.h"
#include "pymatching/sparse_blossom/driver/namespaced_main.h"
#include "stim.h"
#include "sut.h"

// ----------------------------------------------------------------------------- simulated clock
namespace sim {
static bool clock_on = false;
static int64_t clock_now = 0;
static int clock_style = 0;
static int64_t clock_reads[64];
static int num_clock_reads = 0;
static int64_t read_clock(int64_t real) {
    if (!clock_on) {
        return real;
    }
    int64_t step = 0;
    switch (clock_style) {
        case 0:
            step = 1000 + (int64_t)pick(1 << 20);  // up to a millisecond
            break;
        case 1:
            step = 0;  // a stopped clock
            break;
        case 2:
            step = (int64_t)pick(1 << 30) * 1000;  // up to 18 minutes
            break;
        default:
            step = (int64_t)pick(1 << 30) * 1000000;  // up to 12 days
    }
    clock_now += step;
    count("clock_ns", (uint64_t)step);
    if (num_clock_reads < 64) {
        clock_reads[num_clock_reads++] = clock_now;
    }
    return clock_now;
}
static int64_t real_clock(clockid_t id) {
    timespec t;
    clock_gettime(id, &t);
    return (int64_t)t.tv_sec * 1000000000 + t.tv_nsec;
}
}  // namespace sim
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept {
    return time_point(duration(sim::read_clock(sim::real_clock(CLOCK_MONOTONIC))));
}
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept {
    return time_point(duration_cast<duration>(nanoseconds(sim::read_clock(sim::real_clock(CLOCK_REALTIME)))));
}

namespace sim {

// ----------------------------------------------------------------------------- simulated files
struct VFile {
    std::string name;
    bool input = true;
    std::string data;  // content, or what has reached the "disk"
    size_t pos = 0;
    size_t max_chunk = 1 << 20;
    bool fail_open = false;
    int64_t fail_at = -1;    // offset at which a read or write fails
    bool transient = false;  // ... once only
    bool fail_close = false;
    bool fired = false;  // a fault reached the reader or writer
    bool open = false;
    FILE *f = nullptr;
    std::vector<char> buffer;
    int buffer_mode = -1;
};
static const size_t OUT_RESERVE = 1 << 18;

static ssize_t v_read(void *c, char *buf, size_t n) {
    VFile &v = *(VFile *)c;
    if (v.fail_at >= 0 && v.pos >= (size_t)v.fail_at) {
        v.fired = true;
        if (v.transient) {
            v.fail_at = -1;
        }
        errno = EIO;
        return -1;
    }
    n = std::min(n, v.max_chunk);
    n = std::min(n, v.data.size() - v.pos);
    if (v.fail_at >= 0) {
        n = std::min(n, (size_t)v.fail_at - v.pos);
    }
    memcpy(buf, v.data.data() + v.pos, n);
    v.pos += n;
    return (ssize_t)n;
}
static ssize_t v_write(void *c, const char *buf, size_t n) {
    VFile &v = *(VFile *)c;
    size_t m = n;
    if (v.fail_at >= 0) {
        m = v.data.size() >= (size_t)v.fail_at ? 0 : std::min(n, (size_t)v.fail_at - v.data.size());
    }
    if (v.data.size() + m > OUT_RESERVE) {
        m = OUT_RESERVE - v.data.size();
    }
    v.data.append(buf, m);
    if (m < n) {
        v.fired = true;
        if (v.transient) {
            v.fail_at = -1;
        }
        errno = ENOSPC;
    }
    return (ssize_t)m;
}
static int v_close(void *c) {
    VFile &v = *(VFile *)c;
    v.open = false;
    v.f = nullptr;
    if (v.fail_close) {
        v.fired = true;
        errno = EIO;
        return -1;
    }
    return 0;
}
static FILE *v_open(VFile &v) {
    cookie_io_functions_t io{};
    if (v.input) {
        io.read = v_read;
    } else {
        io.write = v_write;
    }
    io.close = v_close;
    v.f = fopencookie(&v, v.input ? "r" : "w", io);
    v.open = true;
    if (v.buffer_mode >= 0) {
        setvbuf(v.f, v.buffer.empty() ? nullptr : v.buffer.data(), v.buffer_mode, v.buffer.size());
    }
    return v.f;
}
static std::vector<VFile *> files;
static FILE *open_seam(const char *path, const char *mode) {
    for (auto *v : files) {
        if (v->name == path) {
            if (v->fail_open || (mode[0] == 'r') != v->input) {
                v->fired = true;
                errno = ENOENT;
                return nullptr;
            }
            return v_open(*v);
        }
    }
    errno = ENOENT;
    return nullptr;
}
static void draw_buffering(VFile &v) {
    if (!v.input) {
        v.data.reserve(OUT_RESERVE);
    }
    if (chance(1, 2)) {
        v.max_chunk = chance(1, 2) ? 1 : (size_t)range(1, 20);
        if (v.input) {
            count("fault:short_reads");
        }
    }
    if (chance(1, 2)) {
        v.buffer.resize(chance(1, 2) ? (size_t)range(1, 16) : (size_t)range(17, 5000));
        v.buffer_mode = v.input ? _IOFBF : (int)pick(3) == 0 ? _IOLBF : _IOFBF;
        if (!v.input && chance(1, 4)) {
            v.buffer.clear();
            v.buffer_mode = _IONBF;
        }
    }
}

// -------------------------------------------------------------------------------- shot formats
static const char *FORMATS[] = {"01", "b8", "r8", "hits", "dets"};
/// One record. Bits [0, nd) are detectors, the rest observables.
static std::string encode(int format, const Bits &bits, size_t nd) {
    std::string r;
    switch (format) {
        case 0:
            for (auto b : bits) {
                r += b ? '1' : '0';
            }
            r += '\n';
            break;
        case 1:
            for (size_t k = 0; k < bits.size(); k += 8) {
                int x = 0;
                for (size_t j = k; j < std::min(k + 8, bits.size()); j++) {
                    x |= bits[j] << (j - k);
                }
                r += (char)x;
            }
            break;
        case 2: {
            int gap = 0;
            for (size_t k = 0; k <= bits.size(); k++) {
                if (k == bits.size() || bits[k]) {
                    r += (char)gap;
                    gap = 0;
                } else if (++gap == 255) {
                    r += (char)255;
                    gap = 0;
                }
            }
            break;
        }
        case 3:
            for (size_t k = 0; k < bits.size(); k++) {
                if (bits[k]) {
                    r += (r.empty() ? "" : ",") + std::to_string(k);
                }
            }
            r += '\n';
            break;
        default:
            r = "shot";
            for (size_t k = 0; k < bits.size(); k++) {
                if (bits[k]) {
                    r += k < nd ? " D" + std::to_string(k) : " L" + std::to_string(k - nd);
                }
            }
            r += '\n';
    }
    return r;
}

struct Shot {
    std::vector<uint64_t> dets;
    Bits obs;                   // recorded observables
    bool feasible = false;
    std::vector<Bits> allowed;  // predictions that a minimum-weight explanation gives
};

struct Model {
    MDem d;
    MGraph g;
    bool corr = false;
    bool must_fail = false;  // not accepted with correlations
    std::vector<Implied> imp;
    std::unique_ptr<Oracle> oracle;
    std::map<std::vector<uint64_t>, Shot> cache;
    double tol = 0;

    void masks(const MGraph &h, const Answer &a, const std::vector<uint64_t> &dets, double t, std::vector<Bits> &out) const {
        for (int m = 0; m < (1 << h.palette.size()); m++) {
            if (a.has_masks && !(a.mask_weight[m] <= a.weight + t)) {
                continue;
            }
            Bits b = expected_obs(h, dets, m);
            if (std::find(out.begin(), out.end(), b) == out.end()) {
                out.push_back(b);
            }
        }
    }
    Shot solve(std::vector<uint64_t> dets) {
        std::sort(dets.begin(), dets.end());
        auto it = cache.find(dets);
        if (it != cache.end()) {
            return it->second;
        }
        Shot s;
        s.dets = dets;
        Answer a = oracle->solve(dets);
        s.feasible = a.feasible;
        if (a.feasible && !corr) {
            masks(g, a, dets, tol, s.allowed);
        } else if (a.feasible) {
            auto f = first_passes(g, dets, tol);
            if (f.size() > 64) {
                throw Discard{};
            }
            for (auto &in : f) {
                MGraph h = reweighted(g, imp, in);
                Oracle o(h);
                masks(h, o.solve(dets), dets, tol, s.allowed);
            }
        }
        cache[dets] = s;
        return s;
    }
};

static Model gen_model() {
    Model m;
    m.corr = chance(1, 4);
    DemOptions o;
    o.max_obs = chance(1, 3) ? (chance(1, 8) ? 300 : 130) : chance(1, 6) ? 0 : 3;
    o.correlations = m.corr && !chance(1, 8);
    o.generic = chance(1, 3);
    if (m.corr) {
        o.max_dets = 5;
        o.max_edges = 8;
        o.max_errors = 10;
    } else if (chance(1, 3)) {
        o.chain = chance(1, 2);
        o.max_dets = o.chain ? (chance(1, 12) ? 300 : 40) : 14;
        o.max_edges = 30;
        o.max_errors = 30;
    }
    m.d = gen_dem(o);
    m.g = dem_to_graph(m.d);
    if (m.corr) {
        for (auto &e : m.d.errs) {
            m.must_fail |= e.p > 0.5;
            for (auto &c : e.comps) {
                m.must_fail |= e.p > 0 && c.dets.size() > 2;
            }
        }
        if (m.g.edges.size() > 11) {
            throw Discard{};
        }
        if (!m.must_fail) {
            MDem d2 = m.d;  // undetectable errors take no part
            d2.errs.erase(
                std::remove_if(d2.errs.begin(), d2.errs.end(), [](const DErr &e) { return e.comps[0].dets.empty(); }),
                d2.errs.end());
            m.imp = implied_weights(d2, m.g);
        }
    }
    double biggest = 1e-9;
    for (auto &e : m.g.edges) {
        biggest = std::max(biggest, std::abs(e.w));
    }
    m.tol = 2 * weight_tolerance(m.g, (double)(1 << 22) / biggest) + 1e-9;
    m.oracle = std::make_unique<Oracle>(m.g);
    return m;
}

struct Stream {  // a shot or observable stream with a known meaning
    std::string bytes;
    std::vector<size_t> ends;  // end offset of each record
};

/// Cuts a stream short. Returns the number of whole records left; `ragged` if part of one remains.
static size_t truncate(Stream &s, size_t at, bool &ragged) {
    s.bytes.resize(at);
    size_t n = 0;
    while (n < s.ends.size() && s.ends[n] <= at) {
        n++;
    }
    size_t start = n ? s.ends[n - 1] : 0;
    ragged = at > start;
    return n;
}

/// The dets format lets the end of the file stand in for the last newline.
static bool parse_last_dets(const std::string &t, size_t nd, size_t no, Bits &out) {
    out.assign(nd + no, 0);
    if (t.substr(0, 4) != "shot") {
        return false;
    }
    size_t i = 4;
    while (i < t.size()) {
        if (t[i] != ' ') {
            return false;
        }
        while (i < t.size() && t[i] == ' ') {
            i++;
        }
        if (i == t.size()) {
            break;
        }
        char type = t[i++];
        if (i >= t.size() || !isdigit((unsigned char)t[i])) {
            return false;
        }
        size_t v = 0;
        while (i < t.size() && isdigit((unsigned char)t[i])) {
            v = v * 10 + (size_t)(t[i++] - '0');
        }
        out[(type == 'D' ? 0 : nd) + v] ^= 1;
    }
    return true;
}

struct Run {
    CallOutcome out;
    int rc = -1;
    std::string err;
    bool ok() const {
        return out.status == OK && rc == 0;
    }
};
struct FixedBuf : std::streambuf {
    char text[4096];
    FixedBuf() {
        setp(text, text + sizeof(text));
    }
    std::string str() const {
        return std::string(pbase(), pptr());
    }
};
static Run run_main(const std::vector<std::string> &args, VFile *in, VFile *out, AllocFault *fault) {
    Run r;
    std::vector<const char *> argv;
    for (auto &a : args) {
        argv.push_back(a.c_str());
    }
    argv.push_back(nullptr);
    FixedBuf err;
    auto *old_err = std::cerr.rdbuf(&err);
    FILE *old_in = stdin, *old_out = stdout;
    FILE *fi = in ? v_open(*in) : nullptr, *fo = out ? v_open(*out) : nullptr;
    VFile empty;
    empty.max_chunk = 1;
    FILE *fe = nullptr;
    stdin = fi ? fi : (fe = v_open(empty));
    if (fo) {
        stdout = fo;
    }
    stim::open_file_seam = open_seam;
    num_clock_reads = 0;
    clock_on = true;
    r.out = call([&] { r.rc = pm::main((int)args.size(), argv.data()); }, fault);
    clock_on = false;
    stim::open_file_seam = nullptr;
    stdin = old_in;
    stdout = old_out;
    std::cerr.rdbuf(old_err);
    r.err = err.str();
    // The process ends: exit flushes what is still open, an abort does not.
    bool aborted = r.out.status != OK;
    auto end = [&](VFile &v) {
        if (v.open) {
            if (aborted && !v.input && chance(1, 2)) {
                v.fail_at = 0;
                v.transient = false;
            }
            v.fail_close = false;
            bool fired = v.fired;
            fclose(v.f);
            // A failure this late can no longer be reported, so it is a fault of the command if the
            // data was still unwritten when it returned success.
            v.fired |= fired;
        }
    };
    for (auto *v : files) {
        end(*v);
    }
    if (in) {
        end(*in);
    }
    if (out) {
        end(*out);
    }
    if (fe) {
        fclose(fe);
    }
    return r;
}

static std::string join(const std::vector<std::string> &a) {
    std::string s;
    for (auto &x : a) {
        s += (s.empty() ? "" : " ") + x;
    }
    return s;
}
static std::string printable(const std::string &s) {
    std::string r;
    for (unsigned char c : s.substr(0, 400)) {
        char b[8];
        snprintf(b, sizeof(b), c >= 32 && c < 127 ? "%c" : "\\x%02x", c);
        r += b;
    }
    return r;
}

static void cli(bool predict) {
    Model m = gen_model();
    size_t nd = (size_t)m.d.nd, no = m.d.no;
    VFile dem, in, obs, out;
    dem.name = "model.dem";
    in.name = "shots";
    obs.name = "observables";
    out.name = "result";
    out.input = false;
    dem.data = m.d.text;
    int in_format = (int)pick(5), obs_format = (int)pick(5), out_format = (int)pick(5);
    bool append = predict ? chance(1, 3) : chance(1, 2);
    if (!predict && no == 0) {
        append = true;
    }
    bool use_obs = !predict && !append;

    // Shots.
    std::vector<Shot> shots;
    int ns = chance(1, 12) ? 0 : chance(1, 8) ? range(10, 60) : range(1, 10);
    std::vector<std::vector<uint64_t>> pool;
    int np = range(1, 6);
    for (int k = 0; k < np; k++) {
        auto dets = chance(1, 30) ? gen_syndrome(m.g, 14) : gen_decodable(m.g, 14);
        pool.push_back(dets);
    }
    Stream sin, sobs;
    for (int k = 0; k < ns; k++) {
        Shot s = m.must_fail ? Shot{} : m.solve(pool[pick(np)]);
        s.obs.assign(no, 0);
        if (!s.allowed.empty()) {
            s.obs = s.allowed[pick((uint32_t)s.allowed.size())];
        }
        if (no && chance(1, 3)) {
            s.obs[chance(1, 2) ? no - 1 - pick((uint32_t)std::min<size_t>(no, 3)) : pick((uint32_t)no)] ^= 1;
        }
        Bits bits(nd, 0);
        for (auto x : s.dets) {
            bits[x] = 1;
        }
        if (append) {
            bits.insert(bits.end(), s.obs.begin(), s.obs.end());
        }
        sin.bytes += encode(in_format, bits, nd);
        sin.ends.push_back(sin.bytes.size());
        sobs.bytes += encode(obs_format, s.obs, 0);
        sobs.ends.push_back(sobs.bytes.size());
        shots.push_back(s);
    }
    if (ns && chance(1, 60)) {
        // A long stream: the same shots again and again.
        bool tiny = nd <= 12 && no <= 12 && !m.corr && sin.bytes.size() < 24 * shots.size();
        size_t times = tiny && chance(1, 12) ? (1 + pick(3)) * (66000 / shots.size() + 1) : 1 + pick(1200) / (uint32_t)shots.size();
        auto repeat = [&](Stream &x) {
            std::string once = x.bytes;
            size_t records = x.ends.size();
            for (size_t k = 1; k < times; k++) {
                for (size_t r = 0; r < records; r++) {
                    x.ends.push_back(x.bytes.size() + x.ends[r]);
                }
                x.bytes += once;
            }
        };
        repeat(sin);
        repeat(sobs);
        size_t n = shots.size();
        for (size_t k = n; k < n * times; k++) {
            shots.push_back(shots[k - n]);
        }
        count(times > 1000 ? "streams_of_66000_shots" : "streams_of_up_to_1200_shots");
    }
    if (use_obs && chance(1, 8)) {
        for (int k = range(1, 3); k > 0; k--) {  // more observable records than shots
            sobs.bytes += encode(obs_format, Bits(no, 1), 0);
        }
    }

    // Faults.
    bool must_fail = m.must_fail, may_fail = false, may_write_garbage = false;
    size_t avail = shots.size();  // whole records that can be read
    AllocFault alloc;
    std::string faults;
    bool bad_args = false;
    bool to_stdout = chance(1, 4), from_stdin = chance(1, 4);
    if (!predict && use_obs && from_stdin) {
        from_stdin = chance(1, 2);
    }
    int nfaults = chance(1, 2) ? 0 : chance(1, 4) ? 2 : 1;
    int last_fault = -1;
    size_t obs_left = SIZE_MAX;  // whole observable records left by a truncation
    for (int k = 0; k < nfaults; k++) {
        int kind = (int)pick(11);
        if (kind == last_fault) {
            continue;
        }
        last_fault = kind;
        switch (kind) {
            case 0:
                in.fail_at = (int64_t)pick((uint32_t)sin.bytes.size() + 1);
                in.transient = chance(1, 3);
                faults += " read-error@" + std::to_string(in.fail_at);
                break;
            case 1: {
                bool ragged = false;
                size_t at = pick((uint32_t)sin.bytes.size() + 1);
                size_t n = truncate(sin, at, ragged);
                avail = std::min(avail, n);
                shots.resize(avail);
                if (ragged && in_format == 4) {
                    Bits b;
                    if (parse_last_dets(sin.bytes.substr(n ? sin.ends[n - 1] : 0), nd, append ? no : 0, b)) {
                        // It reads as a whole record, perhaps with fewer hits than were once written.
                        std::vector<uint64_t> dets;
                        for (size_t x = 0; x < nd; x++) {
                            if (b[x]) {
                                dets.push_back(x);
                            }
                        }
                        Shot s = m.must_fail ? Shot{} : m.solve(dets);
                        s.obs = append ? Bits(b.begin() + (ptrdiff_t)nd, b.end()) : Bits(no, 0);
                        if (use_obs) {
                            throw Discard{};
                        }
                        shots.push_back(s);
                        avail++;
                        ragged = false;
                    }
                }
                sin.ends.resize(std::min(n, sin.ends.size()));
                must_fail |= ragged;
                faults += " truncated@" + std::to_string(at);
                count("fault:truncated_input");
                break;
            }
            case 2:
                out.fail_at = (int64_t)pick(chance(1, 2) ? 12 : 400);
                out.transient = chance(1, 4);
                faults += " disk-full@" + std::to_string(out.fail_at);
                break;
            case 3:
                if (!to_stdout) {
                    out.fail_close = true;
                    faults += " close-error";
                }
                break;
            case 4: {
                VFile *v[] = {&dem, &in, &obs, &out};
                VFile *f = v[pick(4)];
                f->fail_open = true;
                if (f == &in) {
                    from_stdin = false;
                }
                if (f == &out) {
                    to_stdout = false;
                }
                if (f != &obs || use_obs) {
                    must_fail = true;
                }
                faults += " cannot-open-" + f->name;
                count("fault:open_failure");
                break;
            }
            case 5:
                dem.fail_at = (int64_t)pick((uint32_t)dem.data.size() + 1);
                faults += " model-read-error@" + std::to_string(dem.fail_at);
                break;
            case 6:
                if (use_obs) {
                    obs.fail_at = (int64_t)pick((uint32_t)sobs.bytes.size() + 1);
                    obs.transient = chance(1, 3);
                    faults += " observables-read-error@" + std::to_string(obs.fail_at);
                }
                break;
            case 7:
                if (use_obs) {
                    bool ragged = false;
                    size_t at = pick((uint32_t)sobs.bytes.size() + 1);
                    size_t n = truncate(sobs, at, ragged);
                    if (ragged && obs_format == 4) {
                        throw Discard{};
                    }
                    obs_left = n;
                    faults += " observables-truncated@" + std::to_string(at);
                    count("fault:truncated_observables");
                }
                break;
            case 8:
                alloc.fail_at = (int64_t)pick(chance(1, 2) ? 40 : 2000);
                alloc.fail_count = chance(1, 2) ? 1 : 1 << 20;
                faults += " out-of-memory@" + std::to_string(alloc.fail_at);
                break;
            case 9:
                dem.data += chance(1, 2) ? "error(0.1) D0 X1\n" : "nonsense\n";
                must_fail = true;
                faults += " malformed-model";
                count("fault:malformed_model");
                break;
            default:
                bad_args = true;
                faults += " bad-arguments";
        }
    }
    must_fail |= obs_left < shots.size();
    in.data = sin.bytes;
    obs.data = sobs.bytes;
    draw_buffering(dem);
    draw_buffering(in);
    draw_buffering(obs);
    draw_buffering(out);

    // Arguments.
    std::vector<std::string> args = {"pymatching", predict ? "predict" : "count_mistakes"};
    std::vector<std::vector<std::string>> opts;
    auto opt = [&](const char *name, const std::string &value) {
        if (chance(1, 3)) {
            opts.push_back({std::string(name) + "=" + value});
        } else {
            opts.push_back({name, value});
        }
    };
    opt("--dem", dem.name);
    if (!from_stdin) {
        opt("--in", in.name);
    }
    if (!to_stdout) {
        opt("--out", out.name);
    }
    if (in_format != (predict ? 1 : 0) || chance(1, 2)) {
        opt("--in_format", FORMATS[in_format]);
    }
    if (predict && (out_format != 0 || chance(1, 2))) {
        opt("--out_format", FORMATS[out_format]);
    }
    if (use_obs) {
        opt("--obs_in", obs.name);
        if (obs_format != 0 || chance(1, 2)) {
            opt("--obs_in_format", FORMATS[obs_format]);
        }
    }
    if (append) {
        opts.push_back({"--in_includes_appended_observables"});
    }
    if (m.corr) {
        opts.push_back({"--enable_correlations"});
    }
    bool timed = !predict && chance(1, 2);
    if (timed) {
        opts.push_back({"--time"});
    }
    clock_style = (int)pick(4);
    clock_now = (int64_t)pick(1 << 30) * (int64_t)(1 + pick(1 << 20));
    if (bad_args) {
        must_fail = true;
        switch (pick(predict ? 5 : 6)) {
            case 3:
                args[1] = chance(1, 2) ? "predicts" : "";
                break;
            case 4: {
                std::string o = predict ? "--out_format" : "--obs_in_format";
                for (auto it = opts.begin(); it != opts.end();) {
                    it = (*it)[0].rfind(o, 0) == 0 ? opts.erase(it) : it + 1;
                }
                opts.push_back({o, "b9"});
                break;
            }
            case 0:
                opts.push_back({"--unknown"});
                break;
            case 1:
                opts.erase(opts.begin());  // no model
                break;
            case 2:
                for (auto it = opts.begin(); it != opts.end();) {
                    it = (*it)[0].rfind("--in_format", 0) == 0 ? opts.erase(it) : it + 1;
                }
                opts.push_back({"--in_format", "b9"});
                break;
            default:
                for (auto it = opts.begin(); it != opts.end();) {  // nothing to compare with
                    bool drop = (*it)[0].rfind("--obs_in", 0) == 0 || (*it)[0] == "--in_includes_appended_observables";
                    it = drop ? opts.erase(it) : it + 1;
                }
        }
        count("fault:bad_arguments");
    }
    shuffle(opts);
    for (auto &o : opts) {
        args.insert(args.end(), o.begin(), o.end());
    }

    size_t usable = 0;  // shots before the first that cannot be decoded
    while (usable < shots.size() && shots[usable].feasible) {
        usable++;
    }
    if (usable < shots.size()) {
        must_fail = true;
        count("fault:undecodable_shot");
    }
    Order ord = pick_order();
    files = {&dem, &in, &obs, &out};
    describe("%s; faults:%s; model {%s}; shots %s", join(args).c_str(), faults.empty() ? " none" : faults.c_str(),
             m.d.text.c_str(), printable(in.data).c_str());
    bool hole = out.transient;  // later writes succeed again, so the file may have a hole
    int64_t obs_fail = obs.fail_at;
    default_step_budget += 20'000 * shots.size();
    Run r = run_main(args, from_stdin ? &in : nullptr, to_stdout ? &out : nullptr, &alloc);
    set_order(ORDER_DEFAULT);
    files.clear();
    logf("order=%s rc=%d %s %s stderr={%s} out={%s}", order_name(ord), r.rc, status_name(r.out.status), r.out.what.c_str(),
         printable(r.err).c_str(), printable(out.data).c_str());
    note((uint64_t)r.rc);
    note((uint64_t)r.out.status);
    for (char ch : out.data) {
        note((uint8_t)ch);
    }

    // What happened.
    if (in.fired) {
        must_fail = true;
        count("fault:read_error");
    }
    if (dem.fired && !dem.fail_open) {
        must_fail = true;
        count("fault:model_read_error");
    }
    if (out.fired && !out.fail_open) {
        must_fail = true;
        may_write_garbage = hole;
        count(out.fail_close ? "fault:close_error" : "fault:write_error");
    }
    if (obs.fired && !obs.fail_open) {
        count("fault:observables_read_error");
        may_fail = true;
        if (shots.size() && shots.size() <= sobs.ends.size() && obs_fail < (int64_t)sobs.ends[shots.size() - 1]) {
            must_fail = true;
        }
    }
    if (alloc.fired) {
        may_fail = true;
        count("fault:allocation_failure");
    }

    auto context = [&] {
        return join(args) + "; faults:" + (faults.empty() ? " none" : faults) + "; order " + order_name(ord) + "; " +
               std::to_string(shots.size()) + " shots {" + printable(in.data) + "}; output {" + printable(out.data) +
               "}; exit " + std::to_string(r.rc) + " " + r.out.what + " stderr {" + printable(r.err) + "}; model {" + m.d.text + "}";
    };
    if (r.ok() && must_fail) {
        violation("silent-failure", "the command reported success although it could not do its work: %s", context().c_str());
    }
    if (!r.ok() && !must_fail && !may_fail) {
        violation("false-failure", "the command failed on good input: %s", context().c_str());
    }
    if (predict) {
        size_t pos = 0, k = 0;
        bool partial = false;
        const std::string &o = out.data;
        for (; k < usable && !partial; k++) {
            bool hit = false, prefix = false;
            for (auto &b : shots[k].allowed) {
                Bits full = b;
                std::string e = encode(out_format, full, 0);
                if (o.compare(pos, e.size(), e) == 0 && pos + e.size() <= o.size()) {
                    pos += e.size();
                    hit = true;
                    break;
                }
                prefix |= o.size() - pos < e.size() && e.compare(0, o.size() - pos, o, pos, o.size() - pos) == 0;
            }
            if (!hit) {
                partial = true;
                if (!prefix && !may_write_garbage) {
                    violation("wrong-prediction", "record %zu (after byte %zu) is not a prediction for shot %s: %s", k, pos,
                              dets_str(shots[k].dets).c_str(), context().c_str());
                }
                k--;
            }
        }
        if (partial && r.ok()) {
            violation("missing-predictions", "success, but only %zu of %zu predictions were written: %s", k, usable,
                      context().c_str());
        }
        if (!partial && pos != o.size() && !may_write_garbage) {
            violation("extra-output", "%zu bytes beyond the right output: %s", o.size() - pos, context().c_str());
        }
        if (r.ok()) {
            count("predictions_checked", usable);
            if (usable) {
                nontrivial();
            }
        }
    } else {
        if (r.ok()) {
            size_t lo = 0, hi = 0;
            for (auto &s : shots) {
                bool in_set = std::find(s.allowed.begin(), s.allowed.end(), s.obs) != s.allowed.end();
                lo += !in_set;
                hi += !in_set || s.allowed.size() > 1;
            }
            unsigned long long a = 0, b = 0;
            int used = -1;
            bool good = sscanf(out.data.c_str(), "%llu / %llu\n%n", &a, &b, &used) == 2 && used == (int)out.data.size() &&
                        out.data == std::to_string(a) + " / " + std::to_string(b) + "\n";
            if (!good || b != shots.size() || a < lo || a > hi) {
                violation("wrong-count", "expected %zu to %zu mistakes in %zu shots: %s", lo, hi, shots.size(), context().c_str());
            }
            if (timed) {
                long long t = -1;
                const char *p = strstr(r.err.c_str(), "Total decoding time: ");
                bool found = p != nullptr && sscanf(p, "Total decoding time: %lldus", &t) == 1;
                bool match = false;
                for (int i = 0; found && i < num_clock_reads; i++) {
                    for (int j = i + 1; j < num_clock_reads; j++) {
                        match |= std::llabs((clock_reads[j] - clock_reads[i]) / 1000 - t) <= 1 + std::llabs(t) / 1000000000000ll;
                    }
                }
                if (!match) {
                    violation("wrong-time", "the reported time is no difference of two clock readings (%d readings): %s",
                              num_clock_reads, context().c_str());
                }
                if (shots.size()) {
                    double per = -1;
                    p = strstr(r.err.c_str(), "per shot: ");
                    if (p == nullptr || sscanf(p, "per shot: %lfus", &per) != 1 ||
                        !(std::abs(per * (double)shots.size() - (double)t) <= 1e-4 * std::abs((double)t) + 2)) {
                        violation("wrong-time", "the reported time per shot is wrong: %s", context().c_str());
                    }
                }
                count("time_reports_checked");
            } else if (strstr(r.err.c_str(), "ime") != nullptr) {
                violation("wrong-time", "a time was reported although none was asked for: %s", context().c_str());
            }
            count("counts_checked");
            if (!shots.empty()) {
                nontrivial();
            }
        }
    }
    if (!r.ok()) {
        count("failed_loudly");
        nontrivial();
    }
}

void world_c14() {
    cli(true);
}
void world_c15() {
    cli(false);
}

#ifndef SIM_DRAW
void world_c20() {
    throw Discard{};
}
#endif

}  // namespace sim

#ifdef SIM_DRAW
#include "draw_world.h"
#endif
