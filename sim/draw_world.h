// World C20: animations over a simulated directory. Included by worlds_cli.cc in builds that simulate drawing.
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include "pymatching/sparse_blossom/diagram/mwpm_diagram.h"

// ------------------------------------------------------------------------- simulated directory
// Frames are written with std::ofstream. libstdc++ opens them with fopen, writes to the descriptor and closes with
// fclose; all of these lead here for paths in the simulated directory. (Code that would use the FILE* itself ends up
// in the same place, because the FILE* is a cookie.)
namespace sim {
static const char *const DIR_NAME = "simframes";
struct Frame {
    VFile v;
    int64_t time = 0;
    std::string expected;  // what the frame has to show, see snapshot()
};
static bool dir_on = false, dir_exists = false, mkdir_fails = false;
static std::vector<std::unique_ptr<Frame>> frames;
static int64_t fail_open_at = -1, fail_write_at = -1, fail_close_at = -1;
static size_t fail_write_offset = 0;
static bool fail_once = false, interrupts = false, short_writes = false;
static bool dir_fault_fired = false, overwritten = false;
static uint32_t io_dice = 1;
static const pm::Mwpm *watched = nullptr;
static std::string snapshot(const pm::Mwpm &m);
static constexpr int FAKE_FD = 1 << 20;

static bool in_dir(const char *path) {
    return dir_on && strncmp(path, DIR_NAME, strlen(DIR_NAME)) == 0;
}
static uint32_t roll() {  // not a recorded choice: decides only how writes are cut up
    io_dice = io_dice * 1664525 + 1013904223;
    return io_dice >> 16;
}
static FILE *open_frame(const char *path) {
    if ((int64_t)frames.size() == fail_open_at || !dir_exists) {
        dir_fault_fired |= dir_exists || mkdir_fails;  // a directory that nobody tried to create is no fault
        if (fail_once) {
            fail_open_at = -1;
        }
        errno = dir_exists ? EMFILE : ENOENT;
        return nullptr;
    }
    for (auto &f : frames) {
        overwritten |= f->v.name == path;
    }
    auto f = std::make_unique<Frame>();
    f->v.name = path;
    f->v.input = false;
    if ((int64_t)frames.size() == fail_write_at) {
        f->v.fail_at = (int64_t)fail_write_offset;
        f->v.transient = fail_once;
    }
    f->v.fail_close = (int64_t)frames.size() == fail_close_at;
    if (watched != nullptr) {
        f->time = watched->flooder.queue.cur_time;
        f->expected = snapshot(*watched);
    }
    frames.push_back(std::move(f));
    return v_open(frames.back()->v);
}
static ssize_t write_frame(int fd, const char *p, size_t n) {
    Frame &f = *frames[(size_t)(fd - FAKE_FD)];
    if (interrupts && roll() % 4 == 0) {
        errno = EINTR;
        return -1;
    }
    if (short_writes && n > 1) {
        n = 1 + roll() % n;
    }
    VFile &v = f.v;
    if (v.fail_at >= 0 && v.data.size() + n > (size_t)v.fail_at) {
        n = (size_t)v.fail_at - std::min(v.data.size(), (size_t)v.fail_at);
        if (n == 0) {
            v.fired = true;
            if (v.transient) {
                v.fail_at = -1;
            }
            errno = ENOSPC;
            return -1;
        }
    }
    v.data.append(p, n);
    return (ssize_t)n;
}
}  // namespace sim

extern "C" FILE *fopen(const char *path, const char *mode) {
    if (sim::in_dir(path)) {
        return sim::open_frame(path);
    }
    static auto real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
    return real(path, mode);
}
extern "C" int fileno(FILE *f) noexcept {
    for (size_t k = sim::frames.size(); k-- > 0;) {
        if (sim::frames[k]->v.f == f) {
            return sim::FAKE_FD + (int)k;
        }
    }
    return f->_fileno;
}
extern "C" ssize_t write(int fd, const void *p, size_t n) {
    if (fd >= sim::FAKE_FD) {
        return sim::write_frame(fd, (const char *)p, n);
    }
    return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int c) {
    if (fd >= sim::FAKE_FD) {
        ssize_t total = 0;
        for (int k = 0; k < c; k++) {
            ssize_t r = sim::write_frame(fd, (const char *)v[k].iov_base, v[k].iov_len);
            if (r < 0) {
                return total ? total : r;
            }
            total += r;
            if ((size_t)r < v[k].iov_len) {
                break;
            }
        }
        return total;
    }
    return syscall(SYS_writev, fd, v, c);
}
extern "C" int stat(const char *path, struct stat *s) noexcept {
    if (sim::in_dir(path)) {
        if (!sim::dir_exists) {
            errno = ENOENT;
            return -1;
        }
        memset(s, 0, sizeof(*s));
        s->st_mode = S_IFDIR | 0755;
        return 0;
    }
    return fstatat(AT_FDCWD, path, s, 0);
}
extern "C" int mkdir(const char *path, mode_t mode) noexcept {
    if (sim::in_dir(path)) {
        if (sim::mkdir_fails) {
            sim::dir_fault_fired = true;
            errno = ENOSPC;
            return -1;
        }
        sim::dir_exists = true;
        return 0;
    }
    return (int)syscall(SYS_mkdir, path, mode);
}

namespace sim {

// ------------------------------------------------------------------------------------- pictures
typedef std::pair<double, double> Pt;
struct Shape {
    char kind = 0;  // 'l'ine, 'c'ircle, 'p'ath
    std::vector<Pt> pts;
    std::string stroke, fill, width;
    bool dashed = false;
};
static std::string attribute(const std::string &line, const char *name) {
    std::string key = std::string(" ") + name + "=\"";
    size_t a = line.find(key);
    if (a == std::string::npos) {
        return "";
    }
    a += key.size();
    return line.substr(a, line.find('"', a) - a);
}
/// Reads a whole frame; false if it is not a complete picture.
static bool parse_frame(const std::string &t, std::vector<Shape> &out) {
    if (t.rfind("<svg ", 0) != 0 || t.size() < 8 || t.find("</svg>") == std::string::npos) {
        return false;
    }
    std::stringstream ss(t);
    std::string line;
    bool closed = false;
    std::getline(ss, line);
    while (std::getline(ss, line)) {
        if (closed) {
            return false;
        }
        if (line == "</svg>") {
            closed = true;
            continue;
        }
        if (line.size() < 4 || line[0] != ' ' || line[1] != '<' || line.substr(line.size() - 2) != "/>") {
            return false;
        }
        Shape s;
        s.stroke = attribute(line, "stroke");
        s.fill = attribute(line, "fill");
        s.width = attribute(line, "stroke-width");
        s.dashed = !attribute(line, "stroke-dasharray").empty();
        auto num = [&](const char *n) { return strtod(attribute(line, n).c_str(), nullptr); };
        if (line.rfind(" <line", 0) == 0) {
            s.kind = 'l';
            s.pts = {{num("x1"), num("y1")}, {num("x2"), num("y2")}};
        } else if (line.rfind(" <circle", 0) == 0) {
            s.kind = 'c';
            s.pts = {{num("cx"), num("cy")}};
        } else if (line.rfind(" <path", 0) == 0) {
            s.kind = 'p';
            std::string d = attribute(line, "d");
            if (std::count(d.begin(), d.end(), 'M') != 1 || d[0] != 'M') {
                return false;  // not one outline
            }
            const char *p = d.c_str();
            while (*p) {
                if (*p == 'M' || *p == 'L') {
                    char *e;
                    double x = strtod(p + 1, &e), y = strtod(e, &e);
                    s.pts.push_back({x, y});
                    p = e;
                } else {
                    p++;
                }
            }
        } else {
            return false;
        }
        out.push_back(s);
    }
    return closed;
}
static bool near(Pt a, Pt b) {
    auto close = [](double x, double y) { return std::abs(x - y) <= 2e-2 + 2e-5 * std::abs(x); };
    return close(a.first, b.first) && close(a.second, b.second);
}
/// The same points, whatever their order and number of mentions.
static bool same_points(const std::vector<Pt> &a, const std::vector<Pt> &b) {
    auto within = [](const std::vector<Pt> &x, const std::vector<Pt> &y) {
        return std::all_of(x.begin(), x.end(), [&](Pt p) {
            return std::any_of(y.begin(), y.end(), [&](Pt q) { return near(p, q); });
        });
    };
    return within(a, b) && within(b, a);
}
/// Do the points go round their middle once, in one direction? (Or is that hard to say?)
static bool goes_round(const std::vector<Pt> &p) {
    Pt c = {0, 0};
    for (auto &q : p) {
        c.first += q.first / (double)p.size();
        c.second += q.second / (double)p.size();
    }
    std::vector<double> a;
    for (auto &q : p) {
        if (std::hypot(q.first - c.first, q.second - c.second) < 1) {
            return true;
        }
        a.push_back(std::atan2(q.second - c.second, q.first - c.first));
    }
    size_t down = 0, up = 0;
    for (size_t k = 0; k < a.size(); k++) {
        double d = a[(k + 1) % a.size()] - a[k];
        if (std::abs(d) > 6.2) {
            return true;
        }
        down += d < -0.02;
        up += d > 0.02;
    }
    return down <= 1 || up <= 1;
}
static std::vector<Pt> dots(const std::vector<Shape> &shapes, const char *fill) {
    std::vector<Pt> r;
    for (auto &s : shapes) {
        if (s.kind == 'c' && s.fill == fill) {
            r.push_back(s.pts[0]);
        }
    }
    std::sort(r.begin(), r.end());
    return r;
}

static std::vector<std::pair<float, float>> at, at_boundary;  // where the library call is told to draw
/// Describes, from the state of the decoder alone, the picture that has to come out: the state of every region, and
/// the outline of those that are not part of a blossom.
struct Outline {
    std::string color;
    std::vector<Pt> pts;
};
struct Line {
    Pt a, b;
    std::string stroke, width;
    bool dashed;
};
struct Snapshot {
    std::set<std::string> colors;
    std::vector<Outline> outlines;
    std::vector<Line> lines;     // of matches, trees and blossoms
    std::vector<Pt> collisions;  // where regions meet
    std::vector<Pt> certain;     // where they do and nothing else happens at the node
    std::vector<std::pair<std::string, Pt>> corners;  // of blossoms
};
static std::vector<Snapshot> snapshots;
static std::string snapshot(const pm::Mwpm &m) {
    Snapshot s;
    auto &nodes = m.flooder.graph.nodes;
    int64_t t = m.flooder.queue.cur_time;
    auto color_of = [](const pm::GraphFillRegion *top) -> std::string {
        return top->radius.is_growing()                ? "#FF000080"
               : !top->radius.is_frozen()              ? "#0000FF80"
               : top->match.edge.loc_to == nullptr     ? "#00200080"
                                                       : "#00FF0080";
    };
    std::map<const pm::GraphFillRegion *, std::vector<size_t>> area;
    for (size_t k = 0; k < nodes.size(); k++) {
        if (nodes[k].region_that_arrived != nullptr) {
            area[nodes[k].region_that_arrived].push_back(k);
        }
    }
    for (auto &[r, in] : area) {
        const pm::GraphFillRegion *top = r;
        while (top->blossom_parent != nullptr) {
            top = top->blossom_parent;
        }
        std::string color = color_of(top);
        s.colors.insert(color);
        if (r->blossom_parent != nullptr || !r->blossom_children.empty()) {
            continue;
        }
        int64_t radius = r->radius.get_distance_at_time(t);
        Outline o;
        o.color = color;
        bool known = true;
        for (size_t k : in) {
            int64_t rn = radius - nodes[k].radius_of_arrival;
            Pt c = at[k];
            if (rn == 0) {
                o.pts.push_back(c);
                continue;
            }
            for (size_t j = 0; j < nodes[k].neighbors.size(); j++) {
                double w = nodes[k].neighbor_weights[j];
                auto *x = nodes[k].neighbors[j];
                known &= w > 0;
                if (x != nullptr && x->region_that_arrived == r && rn + radius - x->radius_of_arrival >= w) {
                    continue;  // covered altogether
                }
                double f = std::min(1.0, (double)rn / w);
                Pt d = x == nullptr ? at_boundary[k] : at[(size_t)(x - &nodes[0])];
                o.pts.push_back({d.first * f + c.first * (1 - f), d.second * f + c.second * (1 - f)});
            }
        }
        if (known && !o.pts.empty()) {
            s.outlines.push_back(o);
        }
    }
    // Regions, those inside of blossoms included, and the tree nodes of the outermost.
    std::set<const pm::GraphFillRegion *> regions;
    std::set<const pm::AltTreeNode *> trees;
    auto place = [&](const pm::DetectorNode *n) { return Pt(at[(size_t)(n - &nodes[0])]); };
    for (auto &[r, in] : area) {
        for (const pm::GraphFillRegion *x = r; x != nullptr; x = x->blossom_parent) {
            regions.insert(x);
        }
    }
    for (auto *r : regions) {
        if (r->blossom_parent == nullptr && r->radius.is_frozen()) {
            auto &e = r->match.edge;
            s.lines.push_back({place(e.loc_from), e.loc_to == nullptr ? Pt(at_boundary[(size_t)(e.loc_from - &nodes[0])]) : place(e.loc_to),
                               "#000", "4", false});
        }
        for (auto &c : r->blossom_children) {
            s.lines.push_back({place(c.edge.loc_from), place(c.edge.loc_to), "#22F", "4", false});
        }
        if (r->alt_tree_node != nullptr) {
            trees.insert(r->alt_tree_node);
        }
    }
    for (auto *n : trees) {
        if (n->inner_region != nullptr) {
            s.lines.push_back({place(n->inner_to_outer_edge.loc_from), place(n->inner_to_outer_edge.loc_to), "#000", "", false});
        }
        for (auto &c : n->children) {
            s.lines.push_back({place(c.edge.loc_from), place(c.edge.loc_to), "#000", "", true});
        }
    }
    // Corners of blossoms, at any level: where the area ends, and where the areas of two events in it meet.
    auto within = [&](size_t k, const pm::GraphFillRegion *r) -> int64_t {  // how far the area reaches beyond a node
        int64_t d = -(int64_t)nodes[k].radius_of_arrival;
        for (const pm::GraphFillRegion *x = nodes[k].region_that_arrived; x != nullptr; x = x->blossom_parent) {
            d += x->radius.get_distance_at_time(t);
            if (x == r) {
                return d;
            }
        }
        return -1;
    };
    for (auto *r : regions) {
        if (r->blossom_children.empty()) {
            continue;
        }
        const pm::GraphFillRegion *top = r;
        while (top->blossom_parent != nullptr) {
            top = top->blossom_parent;
        }
        std::string color = color_of(top);
        for (size_t k = 0; k < nodes.size(); k++) {
            int64_t mine = within(k, r);
            if (mine == 0) {
                s.corners.push_back({color, at[k]});
            }
            for (size_t j = 0; mine > 0 && j < nodes[k].neighbors.size(); j++) {
                int64_t w = nodes[k].neighbor_weights[j];
                auto *x = nodes[k].neighbors[j];
                int64_t other = x == nullptr ? -1 : within((size_t)(x - &nodes[0]), r);
                double to;
                if (w == 0 || (other < 0 && x != nullptr && x->region_that_arrived != nullptr && within((size_t)(x - &nodes[0]), top) >= 0)) {
                    continue;  // leads to another part of the same blossom
                } else if (other < 0 || mine + other < w) {
                    to = (double)std::min(w, mine);
                } else if (nodes[k].reached_from_source == x->reached_from_source || mine == w || other == w) {
                    continue;
                } else {
                    to = (double)(w + mine - other) / 2;
                }
                double f = to / (double)w;
                Pt d = x == nullptr ? Pt(at_boundary[k]) : place(x), c = at[k];
                s.corners.push_back({color, {d.first * f + c.first * (1 - f), d.second * f + c.second * (1 - f)}});
            }
        }
    }
    auto outermost = [](const pm::DetectorNode &n) {
        const pm::GraphFillRegion *r = n.region_that_arrived;
        while (r->blossom_parent != nullptr) {
            r = r->blossom_parent;
        }
        return r;
    };
    auto reach = [&](size_t k) {
        auto &n = nodes[k];
        int64_t d = 0;
        for (const pm::GraphFillRegion *r = n.region_that_arrived; r != nullptr; r = r->blossom_parent) {
            d += r->radius.get_distance_at_time(t);
        }
        return d - n.radius_of_arrival;
    };
    auto rate = [&](const pm::DetectorNode *n) {
        if (n == nullptr || n->region_that_arrived == nullptr) {
            return 0;
        }
        auto &r = outermost(*n)->radius;
        return r.is_growing() ? 1 : r.is_frozen() ? 0 : -1;
    };
    for (size_t k = 0; k < nodes.size(); k++) {
        auto &n = nodes[k];
        std::vector<Pt> here;
        size_t happens = 0;
        for (size_t j = 0; n.region_that_arrived != nullptr && j < n.neighbors.size(); j++) {
            auto *x = n.neighbors[j];
            int64_t w = n.neighbor_weights[j], mine = reach(k);
            bool empty = x != nullptr && x->region_that_arrived == nullptr;
            if (x != nullptr && !empty && outermost(*x) == outermost(n)) {
                continue;
            }
            int64_t other = x == nullptr || empty ? 0 : reach((size_t)(x - &nodes[0]));
            if (mine + other != w) {
                continue;
            }
            happens++;
            if (!empty) {
                double f = w == 0 ? 0 : (double)mine / (double)w;
                Pt d = x == nullptr ? Pt(at_boundary[k]) : place(x), c = at[k];
                Pt q = {d.first * f + c.first * (1 - f), d.second * f + c.second * (1 - f)};
                s.collisions.push_back(q);
                if (rate(&n) + rate(x) > 0) {
                    here.push_back(q);
                }
            }
        }
        if (happens == 1 && here.size() == 1) {
            s.certain.push_back(here[0]);
        }
    }
    snapshots.push_back(s);
    return "";
}

// ---------------------------------------------------------------------------------------- world
struct DrawPlan {
    size_t per_event = 0, at_start = 0, at_end = 0, growth = 0;
    std::string faults;
};
static DrawPlan draw_plan(int max_time) {
    DrawPlan p;
    p.per_event = pick(3);
    p.at_start = pick(3);
    p.at_end = pick(4);
    static const int parts[] = {0, 1, 3, 10, 40};
    int k = parts[pick(5)];
    p.growth = k == 0 ? (chance(1, 2) ? 0 : 1000000) : (size_t)std::max(1, max_time / k);
    frames.clear();
    snapshots.clear();
    fail_open_at = fail_write_at = fail_close_at = -1;
    fail_once = mkdir_fails = dir_fault_fired = overwritten = false;
    dir_exists = true;
    short_writes = chance(1, 4);
    interrupts = chance(1, 6);
    io_dice = pick(1 << 16);
    if (short_writes) {
        count("fault:short_writes");
    }
    if (interrupts) {
        count("fault:interrupted_writes");
    }
    if (chance(1, 3)) {
        int n = (int)pick(chance(1, 2) ? 3 : 30);
        fail_once = chance(1, 3);
        switch (pick(4)) {
            case 0:
            case 1:
                fail_write_at = n;
                fail_write_offset = pick(chance(1, 2) ? 100 : 4000);
                p.faults += " disk-full@" + std::to_string(n) + ":" + std::to_string(fail_write_offset);
                break;
            case 2:
                fail_open_at = n;
                p.faults += " cannot-open-frame@" + std::to_string(n);
                break;
            default:
                fail_close_at = n;
                p.faults += " close-error@" + std::to_string(n);
        }
    }
    return p;
}
static void end_frames(bool aborted) {
    for (auto &f : frames) {
        if (f->v.open) {  // left open: the process ends, and with it what was never written
            if (!aborted) {
                f->v.fired = true;
            }
            f->v.fail_at = 0;
            f->v.transient = f->v.fail_close = false;
            bool fired = f->v.fired;
            fclose(f->v.f);
            f->v.fired = fired;
        }
        dir_fault_fired |= f->v.fired;
    }
}

/// What is reported while frames are written: nothing if not wanted, every frame otherwise.
static void check_progress(const std::string &err, bool wanted, const std::string &context) {
    if (!wanted && !err.empty()) {
        violation("wrong-progress", "progress was reported although not asked for {%s}: %s", printable(err).c_str(), context.c_str());
    }
    if (wanted && err.size() < 3000) {
        size_t n = 0;
        for (auto &f : frames) {
            n += err.find(f->v.name) != std::string::npos;
        }
        if (n != frames.size()) {
            violation("wrong-progress", "%zu of %zu frames were reported {%s}: %s", n, frames.size(), printable(err).c_str(),
                      context.c_str());
        }
    }
}

/// Judges the frames of an animation that claims success. `events` are the nodes whose excitations are matched.
static void check_frames(const MGraph &g, const DrawPlan &p, const std::vector<uint64_t> &events,
                         const std::vector<std::pair<float, float>> *pos, const std::string &context) {
    size_t min_frames = p.at_start + p.at_end + (p.per_event && !events.empty() ? p.per_event : 0);
    if (frames.size() < min_frames) {
        violation("missing-frames", "only %zu frames: %s", frames.size(), context.c_str());
    }
    size_t highlighted = 0, edges = 0, half_edges = 0;
    bool last_high = false;
    for (auto &e : g.edges) {
        edges += e.v != BOUNDARY && e.u != e.v;
        half_edges += e.v == BOUNDARY;
    }
    std::vector<Pt> want_red, want_grey;
    if (pos != nullptr) {
        for (int k = 0; k < g.n; k++) {
            bool red = std::find(events.begin(), events.end(), (uint64_t)k) != events.end();
            (red ? want_red : want_grey).push_back((*pos)[(size_t)k]);
        }
    }
    for (size_t k = 0; k < frames.size(); k++) {
        Frame &f = *frames[k];
        char name[64];
        snprintf(name, sizeof(name), "%s/frame_%05zu.svg", DIR_NAME, k);
        if (f.v.name != name) {
            violation("misnumbered-frame", "frame %zu is called %s: %s", k, f.v.name.c_str(), context.c_str());
        }
        std::vector<Shape> shapes;
        if (!parse_frame(f.v.data, shapes)) {
            violation("broken-frame", "frame %zu is not a complete picture {%s}: %s", k, printable(f.v.data).c_str(),
                      context.c_str());
        }
        auto red = dots(shapes, "red"), grey = dots(shapes, "#CCC");
        if (red.size() != events.size() || red.size() + grey.size() != (size_t)g.n) {
            violation("wrong-events", "frame %zu shows %zu excited and %zu other nodes instead of %zu and %zu: %s", k,
                      red.size(), grey.size(), events.size(), (size_t)g.n - events.size(), context.c_str());
        }
        if (pos != nullptr && (!same_points(red, want_red) || !same_points(grey, want_grey))) {
            violation("wrong-events", "frame %zu shows nodes in the wrong place: %s", k, context.c_str());
        }
        size_t shown = 0, shown_half = 0;
        bool high = false;
        std::set<std::string> colors;
        double width = strtod(attribute(f.v.data, "width").c_str(), nullptr);
        double height = strtod(attribute(f.v.data, "height").c_str(), nullptr);
        for (auto &s : shapes) {
            shown += s.kind == 'l' && s.stroke == "#CCC";
            shown_half += s.kind == 'l' && s.stroke == "#FAA";
            high |= s.width == "15" || s.fill == "#80800080" || s.fill == "#FF800080";
            if (s.kind == 'p' && s.fill.size() == 9 && s.stroke == "none") {
                colors.insert(s.fill);
            }
            for (auto &q : s.pts) {
                if (!std::isfinite(q.first) || !std::isfinite(q.second)) {
                    violation("broken-frame", "frame %zu has a point that is no number: %s", k, context.c_str());
                }
                if (q.first < -0.1 || q.second < -0.1 || q.first > width + 0.1 || q.second > height + 0.1) {
                    violation("broken-frame", "frame %zu (%g x %g) does not contain (%g,%g): %s", k, width, height, q.first,
                              q.second, context.c_str());
                }
            }
        }
        double stub = -1;
        for (auto &s : shapes) {
            if (s.kind == 'l' && s.stroke == "#FAA") {
                double length = std::hypot(s.pts[0].first - s.pts[1].first, s.pts[0].second - s.pts[1].second);
                stub = stub < 0 ? length : stub;
                if (length < 1 || std::abs(length - stub) > 0.1 + 0.01 * stub) {
                    violation("wrong-graph", "frame %zu shows boundary edges of lengths %g and %g: %s", k, length, stub, context.c_str());
                }
            }
            if (s.kind == 'p' && s.stroke == "none" && !goes_round(s.pts)) {
                violation("wrong-region", "frame %zu shows a region whose corners are not in order: %s", k, context.c_str());
            }
        }
        highlighted += high;
        if (shown != edges || shown_half != half_edges) {
            violation("wrong-graph", "frame %zu shows %zu edges and %zu boundary edges instead of %zu and %zu: %s", k, shown,
                      shown_half, edges, half_edges, context.c_str());
        }
        bool held = k < p.at_start || k + p.at_end >= frames.size();
        if (k < snapshots.size() && k > 0 && !held && !high && !last_high && k > p.at_start && f.time <= frames[k - 1]->time) {
            violation("wrong-time", "frame %zu (time %lld) repeats the one before although nothing happened: %s", k, (long long)f.time,
                      context.c_str());
        }
        last_high = high;
        if (high && held) {
            violation("wrong-frame", "frame %zu should be still but shows an event: %s", k, context.c_str());
        }
        if (k + p.at_end >= frames.size() && (colors.count("#FF000080") || colors.count("#0000FF80"))) {
            violation("wrong-frame", "frame %zu, of the final state, shows a region in motion: %s", k, context.c_str());
        }
        if (k > 0 && (k < p.at_start || k + p.at_end > frames.size()) && f.v.data != frames[k - 1]->v.data) {
            violation("wrong-frame", "frame %zu should repeat the one before: %s", k, context.c_str());
        }
        if (k < snapshots.size()) {
            Snapshot &s = snapshots[k];
            for (auto &c : colors) {
                if (!s.colors.count(c)) {
                    violation("wrong-region", "frame %zu shows a region of color %s, but there is none: %s", k, c.c_str(),
                              context.c_str());
                }
            }
            for (auto &o : s.outlines) {
                bool found = false;
                for (auto &x : shapes) {
                    found |= x.kind == 'p' && x.fill == o.color && same_points(x.pts, o.pts);
                }
                if (!found) {
                    std::string pts;
                    for (auto &q : o.pts) {
                        pts += " (" + std::to_string(q.first) + "," + std::to_string(q.second) + ")";
                    }
                    violation("wrong-region", "frame %zu (time %lld) does not show the region of color %s with corners%s: %s", k,
                              (long long)f.time, o.color.c_str(), pts.c_str(), context.c_str());
                }
            }
            count("region_outlines_checked", s.outlines.size());
            for (auto &[color, q] : s.corners) {
                bool found = false;
                for (auto &x : shapes) {
                    found |= x.kind == 'p' && x.fill == color && std::any_of(x.pts.begin(), x.pts.end(), [&](Pt y) { return near(y, q); });
                }
                if (!found) {
                    violation("wrong-region", "frame %zu (time %lld) does not show the corner (%g,%g) of a blossom of color %s: %s", k,
                              (long long)f.time, q.first, q.second, color.c_str(), context.c_str());
                }
            }
            count("blossom_corners_checked", s.corners.size());
            std::vector<Line> lines;
            for (auto &x : shapes) {
                if (x.kind == 'l' && (x.stroke == "#000" || x.stroke == "#22F") && x.width != "15") {
                    lines.push_back({x.pts[0], x.pts[1], x.stroke, x.width, x.dashed});
                }
                if (x.kind == 'l' && x.width == "15") {
                    bool from = false, to = false;
                    for (auto &q : red) {
                        from |= near(q, x.pts[0]);
                        to |= near(q, x.pts[1]);
                    }
                    if (!from || !to || near(x.pts[0], x.pts[1])) {
                        violation("wrong-line", "frame %zu (time %lld) highlights a collision that is not between two events: %s",
                                  k, (long long)f.time, context.c_str());
                    }
                }
                if (x.kind == 'c' && x.fill == "orange" &&
                    std::none_of(s.collisions.begin(), s.collisions.end(), [&](Pt q) { return near(x.pts[0], q); })) {
                    violation("wrong-collision", "frame %zu (time %lld) shows regions that meet at (%g,%g), where none do: %s", k,
                              (long long)f.time, x.pts[0].first, x.pts[0].second, context.c_str());
                }
            }
            for (auto q : s.certain) {
                if (std::none_of(shapes.begin(), shapes.end(), [&](const Shape &x) { return x.kind == 'c' && x.fill == "orange" && near(x.pts[0], q); })) {
                    violation("wrong-collision", "frame %zu (time %lld) does not show that regions meet at (%g,%g): %s", k,
                              (long long)f.time, q.first, q.second, context.c_str());
                }
            }
            count("collisions_checked", s.certain.size());
            auto line_str = [](const Line &x) {
                char b[160];
                snprintf(b, sizeof(b), "(%g,%g)-(%g,%g) %s %s%s", x.a.first, x.a.second, x.b.first, x.b.second, x.stroke.c_str(),
                         x.width.c_str(), x.dashed ? " dashed" : "");
                return std::string(b);
            };
            for (auto &x : s.lines) {
                auto i = std::find_if(lines.begin(), lines.end(), [&](const Line &y) {
                    return x.stroke == y.stroke && x.width == y.width && x.dashed == y.dashed &&
                           ((near(x.a, y.a) && near(x.b, y.b)) || (near(x.a, y.b) && near(x.b, y.a)));
                });
                if (i == lines.end()) {
                    violation("wrong-line", "frame %zu (time %lld) does not show %s: %s", k, (long long)f.time, line_str(x).c_str(),
                              context.c_str());
                }
                lines.erase(i);
            }
            if (!lines.empty()) {
                violation("wrong-line", "frame %zu (time %lld) shows %s: %s", k, (long long)f.time, line_str(lines[0]).c_str(),
                          context.c_str());
            }
            count("match_tree_and_blossom_lines_checked", s.lines.size());
            int64_t last = k ? frames[k - 1]->time : 0;
            if (f.time < last || (p.growth != 0 && f.time - last > (int64_t)p.growth)) {
                violation("wrong-time", "frame %zu is of time %lld after %lld: %s", k, (long long)f.time, (long long)last,
                          context.c_str());
            }
        }
    }
    if (p.per_event == 0 ? highlighted != 0 : (highlighted % p.per_event != 0 || (highlighted == 0) != events.empty())) {
        violation("missing-frames", "%zu frames highlight an event: %s", highlighted, context.c_str());
    }
    count("frames_checked", frames.size());
}

/// The nodes whose excitations are matched once negative edges are taken as present.
static std::vector<uint64_t> effective_events(const MGraph &g, const std::vector<uint64_t> &dets) {
    std::vector<char> x(g.n, 0);
    for (auto d : dets) {
        x[d] ^= 1;
    }
    for (auto &e : g.edges) {
        if (e.w < 0) {
            x[e.u] ^= 1;
            if (e.v != BOUNDARY) {
                x[e.v] ^= 1;
            }
        }
    }
    std::vector<uint64_t> r;
    for (int k = 0; k < g.n; k++) {
        if (x[k]) {
            r.push_back((uint64_t)k);
        }
    }
    return r;
}

/// The library call on a decoder of our own, whose state is looked at when a frame is begun.
static void animate_call() {
    GenOptions o;
    o.max_nodes = chance(1, 4) ? 14 : 7;
    o.max_edges = 2 * o.max_nodes;
    o.max_obs = 2;
    o.allow_boundary_nodes = false;
    o.allow_self_loops = false;
    o.max_weight = chance(1, 3) ? 3 : 40;
    MGraph g = gen_graph(o);
    Oracle oracle(g);
    auto ug = build_graph(g, (int)pick(2));
    pm::Mwpm *m = nullptr;
    CallOutcome c = call([&] { m = &ug->get_mwpm(); });
    if (c.status != OK) {
        violation("build-failed", "building a decoder failed: %s", c.what.c_str());
    }
    at.clear();
    at_boundary.clear();
    int side = (int)pick(4);
    for (int k = 0; k < g.n; k++) {
        at.push_back({(float)(20 + 40 * (k % 4)), (float)(20 + 40 * (k / 4))});
        at_boundary.push_back({at.back().first + (side & 1 ? 13 : -13), at.back().second + (side & 2 ? 7 : -7)});
    }
    auto dets = gen_syndrome(g, 8);
    Answer a = oracle.solve(dets);
    double nc = m->flooder.graph.normalising_constant;
    double longest = 0;
    for (auto &e : g.edges) {
        longest += std::abs(e.w);
    }
    DrawPlan p = draw_plan((int)std::max(1.0, longest * nc / 2));
    bool outside = chance(1, 20);
    if (outside) {
        dets.push_back((uint64_t)g.n + pick(2));
        p.faults += " event-outside";
    }
    bool progress = chance(1, 2);
    Order ord = pick_order();
    std::string context = "library call, " + dets_str(dets) + " per_event=" + std::to_string(p.per_event) +
                          " at_start=" + std::to_string(p.at_start) + " at_end=" + std::to_string(p.at_end) +
                          " growth=" + std::to_string(p.growth) + " faults:" + p.faults + " order " + order_name(ord) +
                          "; graph " + g.str();
    describe("%s", context.c_str());
    FixedBuf err;
    auto *old_err = std::cerr.rdbuf(&err);
    dir_on = true;
    watched = m;
    c = call([&] {
        pm::write_animated_decoding_svg_frames(*m, at, at_boundary, dets, std::string(DIR_NAME) + "/", progress, p.per_event,
                                               p.at_start, p.at_end, p.growth);
    }, nullptr, 200'000'000);
    watched = nullptr;
    dir_on = false;
    std::cerr.rdbuf(old_err);
    std::cerr.clear();
    end_frames(c.status != OK);
    bool must_fail = dir_fault_fired || outside || !a.feasible;
    logf("%s -> %s %s, %zu frames", context.c_str(), status_name(c.status), c.what.c_str(), frames.size());
    note((uint64_t)c.status);
    note(frames.size());
    if (dir_fault_fired) {
        count("fault:frame_not_written");
    }
    if (!a.feasible) {
        count("fault:undecodable_shot");
    }
    nontrivial();
    if (c.status != OK) {
        if (!must_fail) {
            violation("false-failure", "the animation failed: %s %s: %s", status_name(c.status), c.what.c_str(), context.c_str());
        }
        set_order(ORDER_DEFAULT);
        count("failed_loudly");
        return;
    }
    if (must_fail) {
        violation("silent-failure", "the animation claims success: %s", context.c_str());
    }
    check_progress(err.str(), progress, context);
    auto events = effective_events(g, dets);
    check_frames(g, p, events, &at, context);
    // The decode that was drawn has found a minimum-weight matching.
    pm::MatchingResult res;
    c = call([&] {
        for (auto d : events) {
            if (m->flooder.graph.nodes[d].region_that_arrived) {
                res += m->shatter_blossom_and_extract_matches(m->flooder.graph.nodes[d].region_that_arrived_top);
            }
        }
    });
    set_order(ORDER_DEFAULT);
    double w = (double)(res.weight + m->flooder.negative_weight_sum) / nc;
    if (c.status != OK || w != a.weight) {
        violation("wrong-weight", "the animated decode ends with weight %.17g (%s), the minimum is %.17g: %s", w,
                  c.what.c_str(), a.weight, context.c_str());
    }
    count("animated_decodes_checked");
}

static void animate_command() {
    DemOptions o;
    o.max_dets = chance(1, 3) ? 12 : 6;
    o.max_obs = 3;
    MDem d = gen_dem(o);
    MGraph g = dem_to_graph(d);
    double heaviest = 0;
    for (auto &e : g.edges) {
        heaviest = std::max(heaviest, std::abs(e.w));
    }
    for (auto &e : g.edges) {
        if (e.w < 0 && std::abs(e.w) < heaviest / 200) {
            throw Discard{};  // too light to be told from 0 by a command that uses 1000 levels
        }
    }
    Oracle oracle(g);
    size_t nd = (size_t)d.nd, no = d.no;
    // Coordinates.
    std::vector<std::pair<float, float>> pos;
    std::string text;
    int dims = (int)pick(4);
    for (size_t k = 0; k < nd; k++) {
        double x = (double)k, y = 0;
        if (dims > 0) {
            x = (double)(k % 4) * 2 - 3 + 0.5 * (double)(k / 4);
            y = dims > 1 ? (double)(k / 4) * 1.5 - 2 : 0;
            char b[96];
            if (dims == 1) {
                snprintf(b, sizeof(b), "detector(%g) D%zu\n", x, k);
            } else {
                snprintf(b, sizeof(b), "detector(%g, %g%s) D%zu\n", x, y, dims == 2 ? "" : ", 2", k);
            }
            text += b;
        }
        pos.push_back({(float)x, (float)y});
    }
    std::string declare = "detector D" + std::to_string(nd - 1) + "\n";
    std::string body = d.text;
    if (dims > 0) {
        for (size_t i; (i = body.find(declare)) != std::string::npos;) {
            body.erase(i, declare.size());
        }
    }
    text += body;
    auto dets = chance(1, 10) ? gen_syndrome(g, 10) : gen_decodable(g, 10);
    Answer a = oracle.solve(dets);
    int format = (int)pick(5);
    bool append = chance(1, 3);
    Bits bits(nd, 0);
    for (auto x : dets) {
        bits[x] = 1;
    }
    if (append) {
        for (size_t k = 0; k < no; k++) {
            bits.push_back((uint8_t)pick(2));
        }
    }
    VFile dem, in;
    dem.name = "model.dem";
    in.name = "shots";
    dem.data = text;
    in.data = encode(format, bits, nd);
    DrawPlan p = draw_plan(2000);
    bool must_fail = !a.feasible;
    dir_exists = !chance(1, 2);
    int ppu = range(4, 60);
    std::vector<std::vector<std::string>> opts;
    auto opt = [&](const char *name, const std::string &value) {
        if (chance(1, 3)) {
            opts.push_back({std::string(name) + "=" + value});
        } else {
            opts.push_back({name, value});
        }
    };
    opt("--dem_in", dem.name);
    opt("--dets_in", in.name);
    opt("--dets_in_format", FORMATS[format]);
    opt("--held_frames_per_event", std::to_string(p.per_event));
    opt("--held_frames_at_start", std::to_string(p.at_start));
    opt("--held_frames_at_end", std::to_string(p.at_end));
    opt("--max_growth_between_frames", std::to_string(p.growth));
    opt("--pixels_per_unit_length", std::to_string(ppu));
    opt("--out_dir", std::string(DIR_NAME) + (chance(1, 2) ? "/" : ""));
    if (append) {
        opts.push_back({"--dets_in_includes_appended_observables"});
    }
    if (chance(1, 2)) {
        opts.push_back({"--quiet"});
    }
    AllocFault alloc;
    if (chance(1, 3)) {
        switch (pick(8)) {
            case 0:
                in.fail_at = (int64_t)pick((uint32_t)in.data.size() + 1);
                p.faults += " read-error@" + std::to_string(in.fail_at);
                break;
            case 1:
                dem.fail_at = (int64_t)pick((uint32_t)dem.data.size() + 1);
                p.faults += " model-read-error@" + std::to_string(dem.fail_at);
                break;
            case 2:
                (chance(1, 2) ? dem : in).fail_open = true;
                must_fail = true;
                p.faults += " cannot-open";
                count("fault:open_failure");
                break;
            case 3:
                mkdir_fails = true;
                p.faults += " mkdir-fails";
                break;
            case 4:
                if (!in.data.empty()) {
                    in.data.resize(pick((uint32_t)in.data.size()));
                    Bits b;
                    if (format == 4 && parse_last_dets(in.data, nd, append ? no : 0, b)) {
                        throw Discard{};
                    }
                    must_fail = true;
                    p.faults += " truncated";
                    count("fault:truncated_input");
                }
                break;
            case 5:
                dem.data += "error(0.1) D0 X1\n";
                must_fail = true;
                p.faults += " malformed-model";
                count("fault:malformed_model");
                break;
            case 6:
                if (chance(1, 2)) {
                    opts.push_back({"--unknown"});
                } else {
                    opts.erase(opts.begin() + (ptrdiff_t)pick(9));
                }
                must_fail = true;
                p.faults += " bad-arguments";
                count("fault:bad_arguments");
                break;
            default:
                alloc.fail_at = (int64_t)pick(chance(1, 2) ? 60 : 1000);
                alloc.fail_count = chance(1, 2) ? 1 : 1 << 20;
                p.faults += " out-of-memory@" + std::to_string(alloc.fail_at);
        }
    }
    draw_buffering(dem);
    draw_buffering(in);
    std::vector<std::string> args = {"pymatching", "animate"};
    shuffle(opts);
    for (auto &x : opts) {
        args.insert(args.end(), x.begin(), x.end());
    }
    Order ord = pick_order();
    files = {&dem, &in};
    std::string context = join(args) + "; faults:" + p.faults + "; order " + order_name(ord) + "; events " + dets_str(dets) +
                          "; model {" + text + "}";
    describe("%s", context.c_str());
    dir_on = true;
    default_step_budget = 200'000'000;
    Run r = run_main(args, nullptr, nullptr, &alloc);
    dir_on = false;
    std::cerr.clear();
    set_order(ORDER_DEFAULT);
    files.clear();
    end_frames(r.out.status != OK);
    logf("%s -> rc=%d %s %s stderr={%s} %zu frames", context.c_str(), r.rc, status_name(r.out.status), r.out.what.c_str(),
         printable(r.err).c_str(), frames.size());
    note((uint64_t)r.rc);
    note((uint64_t)r.out.status);
    note(frames.size());
    must_fail |= dir_fault_fired || in.fired || dem.fired;
    if (dir_fault_fired) {
        count("fault:frame_not_written");
    }
    if (in.fired && !in.fail_open) {
        count("fault:read_error");
    }
    if (dem.fired && !dem.fail_open) {
        count("fault:model_read_error");
    }
    if (!a.feasible) {
        count("fault:undecodable_shot");
    }
    if (alloc.fired) {
        count("fault:allocation_failure");
    }
    context += "; exit " + std::to_string(r.rc) + " " + r.out.what + " stderr {" + printable(r.err) + "}";
    nontrivial();
    if (r.ok() && must_fail) {
        violation("silent-failure", "the command reported success although it could not do its work: %s", context.c_str());
    }
    if (!r.ok()) {
        if (!must_fail && !alloc.fired) {
            violation("false-failure", "the command failed on good input: %s", context.c_str());
        }
        count("failed_loudly");
        return;
    }
    check_progress(r.err, std::none_of(args.begin(), args.end(), [](auto &x) { return x == "--quiet"; }), context);
    // Nodes keep their places relative to each other; where the picture begins is the command's choice.
    auto events = effective_events(g, dets);
    const std::vector<std::pair<float, float>> *where = nullptr;
    std::vector<Shape> first;
    if (dims < 3 && !frames.empty() && parse_frame(frames[0]->v.data, first)) {
        auto all = dots(first, "red"), grey = dots(first, "#CCC");
        all.insert(all.end(), grey.begin(), grey.end());
        double mx = 1e9, my = 1e9, px = 1e9, py = 1e9;
        for (auto &q : all) {
            mx = std::min(mx, q.first);
            my = std::min(my, q.second);
        }
        for (auto &q : pos) {
            q.first *= (float)ppu;
            q.second *= (float)ppu;
            px = std::min(px, (double)q.first);
            py = std::min(py, (double)q.second);
        }
        for (auto &q : pos) {
            q.first += (float)(mx - px);
            q.second += (float)(my - py);
        }
        where = &pos;
    }
    check_frames(g, p, events, where, context);
    count("animations_checked");
}

void world_c20() {
    if (chance(1, 2)) {
        animate_command();
    } else {
        animate_call();
    }
}

}  // namespace sim
