// A small stand-in for the parts of Stim that PyMatching's driver sources use.
//
// Stim itself is not available in this sandbox (no network, no package), and /repo's driver
// (user_graph.*, mwpm_decoding.*, namespaced_main.*) does not compile without it. This header is
// written from Stim's documented file formats and public API: the detector error model text format
// and the 01/b8/r8/hits/dets shot formats. It is a *stub* component of the simulation: the parsing
// and formatting here is not what the properties are about, the PyMatching code that drives it is.
// Every byte it reads or writes goes through a FILE* that the simulator owns (fopencookie), using
// getc/putc/fread/fwrite exactly as Stim does, so stream faults reach PyMatching in the same shape.
#ifndef SIM_STIM_STUB_H
#define SIM_STIM_STUB_H

#include <algorithm>
#include <array>
#include <cassert>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>

namespace stim {

constexpr size_t MAX_BITWORD_WIDTH = 64;

template <typename T>
struct SpanRef {
    T *ptr_start = nullptr;
    T *ptr_end = nullptr;
    SpanRef() = default;
    SpanRef(T *b, T *e) : ptr_start(b), ptr_end(e) {
    }
    T *begin() const {
        return ptr_start;
    }
    T *end() const {
        return ptr_end;
    }
    size_t size() const {
        return ptr_end - ptr_start;
    }
    bool empty() const {
        return ptr_end == ptr_start;
    }
    T &operator[](size_t k) const {
        return ptr_start[k];
    }
    T &back() const {
        return *(ptr_end - 1);
    }
};

constexpr uint64_t OBSERVABLE_BIT = uint64_t{1} << 63;
constexpr uint64_t SEPARATOR_SYGIL = UINT64_MAX;

struct DemTarget {
    uint64_t data;
    static DemTarget observable_id(uint64_t id) {
        return {OBSERVABLE_BIT | id};
    }
    static DemTarget relative_detector_id(uint64_t id) {
        return {id};
    }
    static DemTarget separator() {
        return {SEPARATOR_SYGIL};
    }
    bool is_separator() const {
        return data == SEPARATOR_SYGIL;
    }
    bool is_observable_id() const {
        return data != SEPARATOR_SYGIL && (data & OBSERVABLE_BIT);
    }
    bool is_relative_detector_id() const {
        return data != SEPARATOR_SYGIL && !(data & OBSERVABLE_BIT);
    }
    uint64_t raw_id() const {
        return data & ~OBSERVABLE_BIT;
    }
    uint64_t val() const {
        if (data == SEPARATOR_SYGIL) {
            throw std::invalid_argument("Separator doesn't have an integer value.");
        }
        return raw_id();
    }
};

enum class DemInstructionType : uint8_t {
    DEM_ERROR,
    DEM_SHIFT_DETECTORS,
    DEM_DETECTOR,
    DEM_LOGICAL_OBSERVABLE,
    DEM_REPEAT_BLOCK,
};

struct DemInstruction {
    SpanRef<const double> arg_data;
    SpanRef<const DemTarget> target_data;
    std::string_view tag;
    DemInstructionType type;
};

struct DetectorErrorModel {
    struct Line {
        DemInstructionType type;
        std::vector<double> args;
        std::vector<DemTarget> targets;
        uint64_t reps = 0;
        std::vector<Line> body;
    };
    std::vector<Line> lines;

    DetectorErrorModel() = default;
    explicit DetectorErrorModel(std::string_view text);
    static DetectorErrorModel from_file(FILE *file);

    uint64_t count_detectors() const;
    uint64_t count_observables() const;
    /// Coordinates of the included detectors, as far as the model declares them (shifts are not supported).
    std::map<uint64_t, std::vector<double>> get_detector_coordinates(const std::set<uint64_t> &included) const;

    template <typename CALLBACK>
    void iter_flatten_error_instructions(const CALLBACK &callback) const {
        uint64_t shift = 0;
        std::vector<DemTarget> buf;
        iter_lines(lines, shift, buf, callback);
    }

   private:
    template <typename CALLBACK>
    static void iter_lines(
        const std::vector<Line> &ls, uint64_t &shift, std::vector<DemTarget> &buf, const CALLBACK &callback) {
        for (const auto &l : ls) {
            if (l.type == DemInstructionType::DEM_ERROR) {
                buf.clear();
                for (auto t : l.targets) {
                    if (t.is_relative_detector_id()) {
                        t.data += shift;
                    }
                    buf.push_back(t);
                }
                DemInstruction inst{
                    {l.args.data(), l.args.data() + l.args.size()},
                    {buf.data(), buf.data() + buf.size()},
                    std::string_view{},
                    DemInstructionType::DEM_ERROR};
                callback(inst);
            } else if (l.type == DemInstructionType::DEM_SHIFT_DETECTORS) {
                shift += l.targets.empty() ? 0 : l.targets[0].data;
            } else if (l.type == DemInstructionType::DEM_REPEAT_BLOCK) {
                for (uint64_t k = 0; k < l.reps; k++) {
                    iter_lines(l.body, shift, buf, callback);
                }
            }
        }
    }
};

/// Bit vector holding an observable mask (Stim: simd_bits<64>).
struct ObsBits {
    std::vector<uint64_t> u64;
    void ensure(size_t num_bits) {
        if (u64.size() * 64 < num_bits) {
            u64.resize((num_bits + 63) / 64);
        }
    }
    void clear() {
        std::fill(u64.begin(), u64.end(), 0);
    }
    void flip(size_t k) {
        ensure(k + 1);
        u64[k >> 6] ^= uint64_t{1} << (k & 63);
    }
    bool operator[](size_t k) const {
        return (k >> 6) < u64.size() && ((u64[k >> 6] >> (k & 63)) & 1);
    }
};

struct SparseShot {
    std::vector<uint64_t> hits;
    ObsBits obs_mask;
    void clear() {
        hits.clear();
        obs_mask.clear();
    }
    uint64_t obs_mask_as_u64() const {
        return obs_mask.u64.empty() ? 0 : obs_mask.u64[0];
    }
};

enum SampleFormat { SAMPLE_FORMAT_01, SAMPLE_FORMAT_B8, SAMPLE_FORMAT_PTB64, SAMPLE_FORMAT_HITS, SAMPLE_FORMAT_R8, SAMPLE_FORMAT_DETS };

struct FileFormatData {
    const char *name;
    SampleFormat id;
};

const std::map<std::string_view, FileFormatData> &format_name_to_enum_map();

template <size_t W>
struct MeasureRecordReader {
    size_t num_measurements = 0;
    size_t num_detectors = 0;
    size_t num_observables = 0;
    virtual ~MeasureRecordReader() = default;
    virtual bool start_and_read_entire_record(SparseShot &out) = 0;
    size_t bits_per_record() const {
        return num_measurements + num_detectors + num_observables;
    }
    static std::unique_ptr<MeasureRecordReader<W>> make(
        FILE *in, SampleFormat format, size_t num_measurements, size_t num_detectors, size_t num_observables);

   protected:
    void move_obs_in_shots_to_mask_assuming_sorted(SparseShot &shot) const {
        if (num_observables == 0) {
            return;
        }
        shot.obs_mask.ensure(num_observables);
        size_t nd = num_measurements + num_detectors;
        while (!shot.hits.empty() && shot.hits.back() >= nd) {
            shot.obs_mask.flip(shot.hits.back() - nd);
            shot.hits.pop_back();
        }
    }
};

struct MeasureRecordWriter {
    virtual ~MeasureRecordWriter() = default;
    static std::unique_ptr<MeasureRecordWriter> make(FILE *out, SampleFormat format);
    virtual void begin_result_type(char) {
    }
    virtual void write_bit(bool b) = 0;
    virtual void write_end() = 0;
};

void check_for_unknown_arguments(
    const std::vector<const char *> &known_arguments,
    const std::vector<const char *> &known_but_deprecated_arguments,
    const char *for_mode,
    int argc,
    const char **argv);
const char *find_argument(const char *name, int argc, const char **argv);
const char *require_find_argument(const char *name, int argc, const char **argv);
bool find_bool_argument(const char *name, int argc, const char **argv);
int64_t find_int64_argument(
    const char *name, int64_t default_value, int64_t min_value, int64_t max_value, int argc, const char **argv);
FILE *find_open_file_argument(const char *name, FILE *default_file, const char *mode, int argc, const char **argv);

template <typename T>
T find_enum_argument(
    const char *name, const char *default_key, const std::map<std::string_view, T> &values, int argc, const char **argv) {
    const char *text = find_argument(name, argc, argv);
    if (text == nullptr) {
        if (default_key == nullptr) {
            throw std::invalid_argument(std::string("Must specify a value for enum flag '") + name + "'.");
        }
        return values.at(default_key);
    }
    auto it = values.find(text);
    if (it == values.end()) {
        throw std::invalid_argument(std::string("Unrecognized value '") + text + "' for enum flag '" + name + "'.");
    }
    return it->second;
}

/// Simulator seam: opens a path for the stub. The simulator installs a function returning simulated
/// files; the default is fopen.
extern FILE *(*open_file_seam)(const char *path, const char *mode);

}  // namespace stim

#endif
