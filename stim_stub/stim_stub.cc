#include "stim.h"

namespace stim {

FILE *(*open_file_seam)(const char *, const char *) = nullptr;

// ---------------------------------------------------------------- detector error models

namespace {

struct Parser {
    std::string_view s;
    size_t i = 0;
    int peek() const {
        return i < s.size() ? (unsigned char)s[i] : EOF;
    }
    void skip_space() {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\r')) {
            i++;
        }
        if (i < s.size() && s[i] == '#') {
            while (i < s.size() && s[i] != '\n') {
                i++;
            }
        }
    }
    void skip_blank_lines() {
        while (true) {
            skip_space();
            if (peek() == '\n') {
                i++;
            } else {
                return;
            }
        }
    }
    std::string word() {
        std::string r;
        while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_')) {
            r.push_back((char)tolower((unsigned char)s[i++]));
        }
        return r;
    }
    uint64_t integer() {
        if (!(i < s.size() && isdigit((unsigned char)s[i]))) {
            throw std::invalid_argument("Expected a non-negative integer in detector error model.");
        }
        uint64_t v = 0;
        while (i < s.size() && isdigit((unsigned char)s[i])) {
            v = v * 10 + (s[i++] - '0');
        }
        return v;
    }
    double real() {
        size_t st = i;
        while (i < s.size() && (isdigit((unsigned char)s[i]) || strchr("+-.eE", s[i]))) {
            i++;
        }
        std::string t(s.substr(st, i - st));
        char *end = nullptr;
        double v = strtod(t.c_str(), &end);
        if (t.empty() || *end != 0) {
            throw std::invalid_argument("Expected a number in detector error model.");
        }
        return v;
    }

    std::vector<DetectorErrorModel::Line> block(bool nested) {
        std::vector<DetectorErrorModel::Line> out;
        while (true) {
            skip_blank_lines();
            int c = peek();
            if (c == EOF) {
                if (nested) {
                    throw std::invalid_argument("Unterminated block in detector error model.");
                }
                return out;
            }
            if (c == '}') {
                if (!nested) {
                    throw std::invalid_argument("Uninitiated block: got a '}' without a '{'.");
                }
                i++;
                return out;
            }
            out.push_back(line());
        }
    }

    DetectorErrorModel::Line line() {
        DetectorErrorModel::Line l;
        std::string name = word();
        if (name == "error") {
            l.type = DemInstructionType::DEM_ERROR;
        } else if (name == "shift_detectors") {
            l.type = DemInstructionType::DEM_SHIFT_DETECTORS;
        } else if (name == "detector") {
            l.type = DemInstructionType::DEM_DETECTOR;
        } else if (name == "logical_observable") {
            l.type = DemInstructionType::DEM_LOGICAL_OBSERVABLE;
        } else if (name == "repeat") {
            l.type = DemInstructionType::DEM_REPEAT_BLOCK;
            skip_space();
            l.reps = integer();
            skip_space();
            if (peek() != '{') {
                throw std::invalid_argument("Expected '{' after repeat count.");
            }
            i++;
            l.body = block(true);
            return l;
        } else {
            throw std::invalid_argument("Unrecognized instruction name: '" + name + "'.");
        }
        if (peek() == '[') {
            while (peek() != ']') {
                if (peek() == EOF || peek() == '\n') {
                    throw std::invalid_argument("Unterminated tag in detector error model.");
                }
                i++;
            }
            i++;
        }
        if (peek() == '(') {
            i++;
            skip_space();
            while (peek() != ')') {
                l.args.push_back(real());
                skip_space();
                if (peek() == ',') {
                    i++;
                    skip_space();
                } else if (peek() != ')') {
                    throw std::invalid_argument("Expected ')' in detector error model.");
                }
            }
            i++;
        }
        while (true) {
            skip_space();
            int c = peek();
            if (c == EOF || c == '\n' || c == '}') {
                break;
            }
            if (l.type == DemInstructionType::DEM_SHIFT_DETECTORS) {
                l.targets.push_back({integer()});
            } else if (c == 'D' || c == 'd') {
                i++;
                l.targets.push_back(DemTarget::relative_detector_id(integer()));
            } else if (c == 'L' || c == 'l') {
                i++;
                l.targets.push_back(DemTarget::observable_id(integer()));
            } else if (c == '^') {
                i++;
                l.targets.push_back(DemTarget::separator());
            } else {
                throw std::invalid_argument("Unrecognized target in detector error model.");
            }
        }
        if (l.type == DemInstructionType::DEM_ERROR) {
            if (l.args.size() != 1) {
                throw std::invalid_argument("'error' instruction takes 1 argument.");
            }
            if (!(l.args[0] >= 0 && l.args[0] <= 1)) {
                throw std::invalid_argument("'error' instruction probability must be between 0 and 1.");
            }
        }
        return l;
    }
};

uint64_t total_shift(const std::vector<DetectorErrorModel::Line> &ls) {
    uint64_t r = 0;
    for (const auto &l : ls) {
        if (l.type == DemInstructionType::DEM_SHIFT_DETECTORS) {
            r += l.targets.empty() ? 0 : l.targets[0].data;
        } else if (l.type == DemInstructionType::DEM_REPEAT_BLOCK) {
            r += l.reps * total_shift(l.body);
        }
    }
    return r;
}

void max_ids(const std::vector<DetectorErrorModel::Line> &ls, uint64_t shift, uint64_t &nd, uint64_t &no) {
    for (const auto &l : ls) {
        if (l.type == DemInstructionType::DEM_SHIFT_DETECTORS) {
            shift += l.targets.empty() ? 0 : l.targets[0].data;
        } else if (l.type == DemInstructionType::DEM_REPEAT_BLOCK) {
            if (l.reps > 0) {
                uint64_t per = total_shift(l.body);
                max_ids(l.body, shift + per * (l.reps - 1), nd, no);
                shift += per * l.reps;
            }
        } else {
            for (auto t : l.targets) {
                if (t.is_relative_detector_id()) {
                    nd = std::max(nd, t.raw_id() + shift + 1);
                } else if (t.is_observable_id()) {
                    no = std::max(no, t.raw_id() + 1);
                }
            }
        }
    }
}

}  // namespace

DetectorErrorModel::DetectorErrorModel(std::string_view text) {
    Parser p{text};
    lines = p.block(false);
}

DetectorErrorModel DetectorErrorModel::from_file(FILE *file) {
    std::string s;
    int c;
    while ((c = getc(file)) != EOF) {
        s.push_back((char)c);
    }
    return DetectorErrorModel(s);
}

uint64_t DetectorErrorModel::count_detectors() const {
    uint64_t nd = 0, no = 0;
    max_ids(lines, 0, nd, no);
    return nd;
}

uint64_t DetectorErrorModel::count_observables() const {
    uint64_t nd = 0, no = 0;
    max_ids(lines, 0, nd, no);
    return no;
}

std::map<uint64_t, std::vector<double>> DetectorErrorModel::get_detector_coordinates(
    const std::set<uint64_t> &included) const {
    std::map<uint64_t, std::vector<double>> r;
    for (auto k : included) {
        r[k];
    }
    for (const auto &l : lines) {
        if (l.type == DemInstructionType::DEM_DETECTOR) {
            for (auto t : l.targets) {
                auto it = r.find(t.raw_id());
                if (it != r.end() && it->second.empty()) {
                    it->second = l.args;
                }
            }
        }
    }
    return r;
}

// ---------------------------------------------------------------- shot formats

const std::map<std::string_view, FileFormatData> &format_name_to_enum_map() {
    static const std::map<std::string_view, FileFormatData> m{
        {"01", {"01", SAMPLE_FORMAT_01}},
        {"b8", {"b8", SAMPLE_FORMAT_B8}},
        {"ptb64", {"ptb64", SAMPLE_FORMAT_PTB64}},
        {"hits", {"hits", SAMPLE_FORMAT_HITS}},
        {"r8", {"r8", SAMPLE_FORMAT_R8}},
        {"dets", {"dets", SAMPLE_FORMAT_DETS}},
    };
    return m;
}

namespace {

using Reader = MeasureRecordReader<MAX_BITWORD_WIDTH>;

struct Reader01 : Reader {
    FILE *in;
    explicit Reader01(FILE *f) : in(f) {
    }
    bool start_and_read_entire_record(SparseShot &out) override {
        for (size_t k = 0; k < bits_per_record(); k++) {
            int b = getc(in);
            if (b == '1') {
                out.hits.push_back(k);
            } else if (b == '0') {
            } else if (b == EOF && k == 0) {
                return false;
            } else if (b == EOF || b == '\n' || b == '\r') {
                throw std::invalid_argument("01 data ended in middle of record.");
            } else {
                throw std::invalid_argument("Unexpected character in 01 format data.");
            }
        }
        int last = getc(in);
        if (bits_per_record() == 0 && last == EOF) {
            return false;
        }
        if (last == '\r') {
            last = getc(in);
        }
        if (last != '\n') {
            throw std::invalid_argument("01 data didn't end with a newline after the expected data length.");
        }
        move_obs_in_shots_to_mask_assuming_sorted(out);
        return true;
    }
};

struct ReaderB8 : Reader {
    FILE *in;
    explicit ReaderB8(FILE *f) : in(f) {
    }
    bool start_and_read_entire_record(SparseShot &out) override {
        size_t n = bits_per_record();
        if (n == 0) {
            return false;
        }
        size_t nb = (n + 7) / 8;
        for (size_t k = 0; k < nb; k++) {
            int b = getc(in);
            if (b == EOF) {
                if (k == 0) {
                    return false;
                }
                throw std::invalid_argument("b8 data ended in middle of record at byte position " + std::to_string(k) + ".");
            }
            for (size_t r = 0; r < 8; r++) {
                if (b & (1 << r)) {
                    size_t bit = k * 8 + r;
                    if (bit >= n) {
                        throw std::invalid_argument("dirty padding");
                    }
                    out.hits.push_back(bit);
                }
            }
        }
        move_obs_in_shots_to_mask_assuming_sorted(out);
        return true;
    }
};

struct ReaderR8 : Reader {
    FILE *in;
    explicit ReaderR8(FILE *f) : in(f) {
    }
    bool start_and_read_entire_record(SparseShot &out) override {
        int c = getc(in);
        if (c == EOF) {
            return false;
        }
        size_t n = bits_per_record();
        size_t k = 0;
        while (true) {
            k += c;
            bool has_hit = c != 0xFF;
            if (has_hit) {
                if (k < n) {
                    out.hits.push_back(k);
                }
                k += 1;
            }
            if (k > n) {
                break;
            }
            c = getc(in);
            if (c == EOF) {
                throw std::invalid_argument("r8 data ended on a continuation (a 0xFF byte) or mid-record.");
            }
        }
        if (k != n + 1) {
            throw std::invalid_argument("r8 data jumped past the expected end of the record.");
        }
        move_obs_in_shots_to_mask_assuming_sorted(out);
        return true;
    }
};

// Reads a decimal integer; leaves the following character in `next`. Returns false on immediate non-digit.
bool read_uint(FILE *in, uint64_t &v, int &next) {
    if (!isdigit(next)) {
        return false;
    }
    v = 0;
    while (next != EOF && isdigit(next)) {
        v = v * 10 + (next - '0');
        next = getc(in);
    }
    return true;
}

void xor_toggle(std::vector<uint64_t> &hits, uint64_t v) {
    hits.push_back(v);
}

void canonicalize(std::vector<uint64_t> &hits) {
    std::sort(hits.begin(), hits.end());
    std::vector<uint64_t> out;
    for (auto h : hits) {
        if (!out.empty() && out.back() == h) {
            out.pop_back();
        } else {
            out.push_back(h);
        }
    }
    hits = out;
}

struct ReaderHits : Reader {
    FILE *in;
    explicit ReaderHits(FILE *f) : in(f) {
    }
    bool start_and_read_entire_record(SparseShot &out) override {
        int next = getc(in);
        if (next == EOF) {
            return false;
        }
        bool first = true;
        while (true) {
            uint64_t v;
            if (!read_uint(in, v, next)) {
                if (first && next == '\r') {
                    next = getc(in);
                }
                if (first && next == '\n') {
                    break;
                }
                throw std::invalid_argument("HITS data wasn't comma-separated integers terminated by a newline.");
            }
            first = false;
            if (v >= bits_per_record()) {
                throw std::invalid_argument("hit index is too large.");
            }
            xor_toggle(out.hits, v);
            if (next == '\r') {
                next = getc(in);
            }
            if (next == '\n') {
                break;
            }
            if (next != ',') {
                throw std::invalid_argument("HITS data wasn't comma-separated integers terminated by a newline.");
            }
            next = getc(in);
        }
        canonicalize(out.hits);
        move_obs_in_shots_to_mask_assuming_sorted(out);
        return true;
    }
};

struct ReaderDets : Reader {
    FILE *in;
    explicit ReaderDets(FILE *f) : in(f) {
    }
    bool start_and_read_entire_record(SparseShot &out) override {
        int next = getc(in);
        while (next == ' ' || next == '\n' || next == '\r' || next == '\t') {
            next = getc(in);
        }
        if (next == EOF) {
            return false;
        }
        for (const char *p = "shot"; *p; p++) {
            if (next != *p) {
                throw std::invalid_argument("DETS data didn't start with 'shot'");
            }
            next = getc(in);
        }
        while (true) {
            bool had_space = false;
            while (next == ' ') {
                had_space = true;
                next = getc(in);
            }
            if (next == '\r') {
                next = getc(in);
            }
            if (next == '\n' || next == EOF) {
                break;
            }
            if (!had_space) {
                throw std::invalid_argument("DETS data wasn't single-space-separated with no trailing spaces.");
            }
            char type = (char)next;
            next = getc(in);
            uint64_t v;
            if (!read_uint(in, v, next)) {
                throw std::invalid_argument("DETS data had a value prefix not followed by an integer.");
            }
            uint64_t offset, len;
            if (type == 'M') {
                offset = 0;
                len = num_measurements;
            } else if (type == 'D') {
                offset = num_measurements;
                len = num_detectors;
            } else if (type == 'L') {
                offset = num_measurements + num_detectors;
                len = num_observables;
            } else {
                throw std::invalid_argument("Unrecognized DETS prefix.");
            }
            if (v >= len) {
                throw std::invalid_argument("DETS index too large.");
            }
            xor_toggle(out.hits, offset + v);
        }
        canonicalize(out.hits);
        move_obs_in_shots_to_mask_assuming_sorted(out);
        return true;
    }
};

struct Writer01 : MeasureRecordWriter {
    FILE *out;
    explicit Writer01(FILE *f) : out(f) {
    }
    void write_bit(bool b) override {
        putc('0' + b, out);
    }
    void write_end() override {
        putc('\n', out);
    }
};

struct WriterB8 : MeasureRecordWriter {
    FILE *out;
    uint8_t payload = 0;
    uint8_t count = 0;
    explicit WriterB8(FILE *f) : out(f) {
    }
    void write_bit(bool b) override {
        payload |= b << count;
        count++;
        if (count == 8) {
            putc(payload, out);
            count = 0;
            payload = 0;
        }
    }
    void write_end() override {
        if (count > 0) {
            putc(payload, out);
            count = 0;
            payload = 0;
        }
    }
};

struct WriterR8 : MeasureRecordWriter {
    FILE *out;
    int run = 0;
    explicit WriterR8(FILE *f) : out(f) {
    }
    void write_bit(bool b) override {
        if (b) {
            putc(run, out);
            run = 0;
        } else {
            run++;
            if (run == 255) {
                putc(run, out);
                run = 0;
            }
        }
    }
    void write_end() override {
        putc(run, out);
        run = 0;
    }
};

struct WriterHits : MeasureRecordWriter {
    FILE *out;
    uint64_t pos = 0;
    bool first = true;
    explicit WriterHits(FILE *f) : out(f) {
    }
    void write_bit(bool b) override {
        if (b) {
            if (!first) {
                putc(',', out);
            }
            first = false;
            fprintf(out, "%llu", (unsigned long long)pos);
        }
        pos++;
    }
    void write_end() override {
        putc('\n', out);
        pos = 0;
        first = true;
    }
};

struct WriterDets : MeasureRecordWriter {
    FILE *out;
    uint64_t pos = 0;
    char type = 'M';
    bool started = false;
    explicit WriterDets(FILE *f) : out(f) {
    }
    void start() {
        if (!started) {
            fprintf(out, "shot");
            started = true;
        }
    }
    void begin_result_type(char t) override {
        type = t;
        pos = 0;
    }
    void write_bit(bool b) override {
        start();
        if (b) {
            fprintf(out, " %c%llu", type, (unsigned long long)pos);
        }
        pos++;
    }
    void write_end() override {
        start();
        putc('\n', out);
        pos = 0;
        started = false;
    }
};

}  // namespace

template <>
std::unique_ptr<Reader> Reader::make(FILE *in, SampleFormat format, size_t nm, size_t nd, size_t no) {
    std::unique_ptr<Reader> r;
    switch (format) {
        case SAMPLE_FORMAT_01:
            r = std::make_unique<Reader01>(in);
            break;
        case SAMPLE_FORMAT_B8:
            r = std::make_unique<ReaderB8>(in);
            break;
        case SAMPLE_FORMAT_R8:
            r = std::make_unique<ReaderR8>(in);
            break;
        case SAMPLE_FORMAT_HITS:
            r = std::make_unique<ReaderHits>(in);
            break;
        case SAMPLE_FORMAT_DETS:
            r = std::make_unique<ReaderDets>(in);
            break;
        default:
            throw std::invalid_argument("Sample format not supported by the simulation's Stim stand-in.");
    }
    r->num_measurements = nm;
    r->num_detectors = nd;
    r->num_observables = no;
    return r;
}

std::unique_ptr<MeasureRecordWriter> MeasureRecordWriter::make(FILE *out, SampleFormat format) {
    switch (format) {
        case SAMPLE_FORMAT_01:
            return std::make_unique<Writer01>(out);
        case SAMPLE_FORMAT_B8:
            return std::make_unique<WriterB8>(out);
        case SAMPLE_FORMAT_R8:
            return std::make_unique<WriterR8>(out);
        case SAMPLE_FORMAT_HITS:
            return std::make_unique<WriterHits>(out);
        case SAMPLE_FORMAT_DETS:
            return std::make_unique<WriterDets>(out);
        default:
            throw std::invalid_argument("Sample format not supported by the simulation's Stim stand-in.");
    }
}

// ---------------------------------------------------------------- command line arguments

void check_for_unknown_arguments(
    const std::vector<const char *> &known,
    const std::vector<const char *> &deprecated,
    const char *for_mode,
    int argc,
    const char **argv) {
    for (int i = 1; i < argc; i++) {
        if (for_mode != nullptr && i == 1 && strcmp(argv[i], for_mode) == 0) {
            continue;
        }
        if (argv[i][0] == '-' && argv[i][1] == '-') {
            bool ok = false;
            for (const auto *lst : {&known, &deprecated}) {
                for (auto *k : *lst) {
                    size_t n = strlen(k);
                    if (strncmp(argv[i], k, n) == 0 && (argv[i][n] == 0 || argv[i][n] == '=')) {
                        ok = true;
                    }
                }
            }
            if (!ok) {
                throw std::invalid_argument(std::string("Unrecognized command line argument ") + argv[i]);
            }
        }
    }
}

const char *find_argument(const char *name, int argc, const char **argv) {
    size_t n = strlen(name);
    for (int i = 1; i < argc; i++) {
        const char *a = argv[i];
        if (strncmp(a, name, n) != 0) {
            continue;
        }
        if (a[n] == '=') {
            return a + n + 1;
        }
        if (a[n] == 0) {
            if (i == argc - 1 || (argv[i + 1][0] == '-' && !isdigit((unsigned char)argv[i + 1][1]))) {
                return a + n;
            }
            return argv[i + 1];
        }
    }
    return nullptr;
}

const char *require_find_argument(const char *name, int argc, const char **argv) {
    const char *r = find_argument(name, argc, argv);
    if (r == nullptr) {
        throw std::invalid_argument(std::string("Missing command line argument: '") + name + "'");
    }
    return r;
}

bool find_bool_argument(const char *name, int argc, const char **argv) {
    const char *r = find_argument(name, argc, argv);
    if (r == nullptr) {
        return false;
    }
    if (r[0] == 0) {
        return true;
    }
    throw std::invalid_argument(std::string("Got non-empty value '") + r + "' for boolean flag '" + name + "'.");
}

int64_t find_int64_argument(
    const char *name, int64_t default_value, int64_t min_value, int64_t max_value, int argc, const char **argv) {
    const char *r = find_argument(name, argc, argv);
    int64_t v = r == nullptr || *r == 0 ? default_value : strtoll(r, nullptr, 10);
    if (v < min_value || v > max_value) {
        throw std::invalid_argument(std::string("Integer value out of range for flag '") + name + "'.");
    }
    return v;
}

FILE *find_open_file_argument(const char *name, FILE *default_file, const char *mode, int argc, const char **argv) {
    const char *path = find_argument(name, argc, argv);
    if (path == nullptr) {
        if (default_file == nullptr) {
            throw std::invalid_argument(std::string("Missing command line argument: '") + name + "'");
        }
        return default_file;
    }
    if (path[0] == 0) {
        throw std::invalid_argument(std::string("Command line argument '") + name + "' can't be empty.");
    }
    FILE *f = open_file_seam != nullptr ? open_file_seam(path, mode) : fopen(path, mode);
    if (f == nullptr) {
        throw std::invalid_argument(std::string("Failed to open '") + path + "'");
    }
    return f;
}

}  // namespace stim
