// Minimal stand-in for the parts of Stim's C++ API that PyMatching's driver uses.
// Stim itself is not available offline.  This is a test double: a parser for the detector error
// model text format (error / detector / logical_observable / shift_detectors / repeat), the record
// readers and writers for the 01 and b8 formats, and the argument helpers.  It is deliberately
// simple and independent of PyMatching.
#ifndef VERIF_STIM_SHIM_H
#define VERIF_STIM_SHIM_H
#include <cassert>
#include <cctype>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

namespace stim {

constexpr size_t MAX_BITWORD_WIDTH = 64;

constexpr uint64_t OBSERVABLE_BIT = uint64_t{1} << 63;
constexpr uint64_t SEPARATOR_SYGIL = UINT64_MAX;

struct DemTarget {
    uint64_t data;
    bool is_separator() const {
        return data == SEPARATOR_SYGIL;
    }
    bool is_observable_id() const {
        return data != SEPARATOR_SYGIL && (data & OBSERVABLE_BIT);
    }
    bool is_relative_detector_id() const {
        return data != SEPARATOR_SYGIL && !(data & OBSERVABLE_BIT);
    }
    uint64_t raw_id() const {
        return data & ~OBSERVABLE_BIT;
    }
    uint64_t val() const {
        return data == SEPARATOR_SYGIL ? data : raw_id();
    }
};

template <typename T>
struct SpanRef {
    const T *ptr_start = nullptr;
    const T *ptr_end = nullptr;
    const T *begin() const {
        return ptr_start;
    }
    const T *end() const {
        return ptr_end;
    }
    size_t size() const {
        return ptr_end - ptr_start;
    }
    bool empty() const {
        return ptr_end == ptr_start;
    }
    const T &operator[](size_t k) const {
        return ptr_start[k];
    }
};

enum class DemInstructionType : uint8_t { DEM_ERROR, DEM_SHIFT_DETECTORS, DEM_DETECTOR, DEM_LOGICAL_OBSERVABLE, DEM_REPEAT_BLOCK };

struct DemInstruction {
    SpanRef<double> arg_data;
    SpanRef<DemTarget> target_data;
    DemInstructionType type;
};

struct DetectorErrorModel {
    struct Op {
        DemInstructionType type;
        std::vector<double> args;
        std::vector<DemTarget> targets;
        uint64_t count = 0;  // shift amount or repetitions
        std::vector<Op> body;
    };
    std::vector<Op> ops;

    DetectorErrorModel() {
    }
    explicit DetectorErrorModel(const char *text) {
        std::string s(text);
        size_t pos = 0;
        parse_block(s, pos, ops, false);
    }
    explicit DetectorErrorModel(const std::string &text) : DetectorErrorModel(text.c_str()) {
    }
    static DetectorErrorModel from_file(FILE *f) {
        std::string s;
        int c;
        while ((c = getc(f)) != EOF)
            s.push_back((char)c);
        return DetectorErrorModel(s.c_str());
    }

    uint64_t count_detectors() const {
        uint64_t shift = 0, best = 0;
        count_rec(ops, shift, best, false);
        return best;
    }
    uint64_t count_observables() const {
        uint64_t shift = 0, best = 0;
        count_rec(ops, shift, best, true);
        return best;
    }
    template <typename CALLBACK>
    void iter_flatten_error_instructions(const CALLBACK &callback) const {
        uint64_t shift = 0;
        iter_rec(ops, shift, callback);
    }

    // Detectors that are asked for but were given no coordinates map to an empty list.
    std::map<uint64_t, std::vector<double>> get_detector_coordinates(const std::set<uint64_t> &included) const {
        std::map<uint64_t, std::vector<double>> out;
        uint64_t n = count_detectors();
        for (auto d : included) {
            if (d >= n)
                throw std::invalid_argument("Detector index " + std::to_string(d) + " is too big.");
            out[d];
        }
        uint64_t shift = 0;
        std::vector<double> cshift;
        coords_rec(ops, shift, cshift, out);
        return out;
    }

   private:
    static void coords_rec(
        const std::vector<Op> &block, uint64_t &shift, std::vector<double> &cshift, std::map<uint64_t, std::vector<double>> &out) {
        for (const auto &op : block) {
            if (op.type == DemInstructionType::DEM_SHIFT_DETECTORS) {
                shift += op.count;
                if (op.args.size() > cshift.size())
                    cshift.resize(op.args.size());
                for (size_t k = 0; k < op.args.size(); k++)
                    cshift[k] += op.args[k];
            } else if (op.type == DemInstructionType::DEM_REPEAT_BLOCK) {
                for (uint64_t k = 0; k < op.count; k++)
                    coords_rec(op.body, shift, cshift, out);
            } else if (op.type == DemInstructionType::DEM_DETECTOR) {
                for (const auto &x : op.targets) {
                    if (!x.is_relative_detector_id())
                        continue;
                    auto it = out.find(x.raw_id() + shift);
                    if (it == out.end())
                        continue;
                    it->second = op.args;
                    for (size_t k = 0; k < it->second.size() && k < cshift.size(); k++)
                        it->second[k] += cshift[k];
                }
            }
        }
    }
    template <typename CALLBACK>
    static void iter_rec(const std::vector<Op> &block, uint64_t &shift, const CALLBACK &callback) {
        for (const auto &op : block) {
            if (op.type == DemInstructionType::DEM_SHIFT_DETECTORS) {
                shift += op.count;
            } else if (op.type == DemInstructionType::DEM_REPEAT_BLOCK) {
                for (uint64_t k = 0; k < op.count; k++)
                    iter_rec(op.body, shift, callback);
            } else if (op.type == DemInstructionType::DEM_ERROR) {
                std::vector<DemTarget> t = op.targets;
                for (auto &x : t)
                    if (x.is_relative_detector_id())
                        x.data += shift;
                DemInstruction inst{
                    {op.args.data(), op.args.data() + op.args.size()}, {t.data(), t.data() + t.size()}, op.type};
                callback(inst);
            }
        }
    }
    static void count_rec(const std::vector<Op> &block, uint64_t &shift, uint64_t &best, bool observables) {
        for (const auto &op : block) {
            if (op.type == DemInstructionType::DEM_SHIFT_DETECTORS) {
                shift += op.count;
            } else if (op.type == DemInstructionType::DEM_REPEAT_BLOCK) {
                for (uint64_t k = 0; k < op.count; k++)
                    count_rec(op.body, shift, best, observables);
            } else {
                for (const auto &x : op.targets) {
                    if (observables && x.is_observable_id())
                        best = std::max(best, x.raw_id() + 1);
                    if (!observables && x.is_relative_detector_id())
                        best = std::max(best, x.raw_id() + shift + 1);
                }
            }
        }
    }
    static void skip_ws(const std::string &s, size_t &pos) {
        while (pos < s.size()) {
            if (isspace((unsigned char)s[pos]))
                pos++;
            else if (s[pos] == '#')
                while (pos < s.size() && s[pos] != '\n')
                    pos++;
            else
                break;
        }
    }
    static void parse_block(const std::string &s, size_t &pos, std::vector<Op> &out, bool nested) {
        while (true) {
            skip_ws(s, pos);
            if (pos >= s.size()) {
                if (nested)
                    throw std::invalid_argument("Unterminated block.");
                return;
            }
            if (s[pos] == '}') {
                if (!nested)
                    throw std::invalid_argument("Unexpected '}'.");
                pos++;
                return;
            }
            std::string name;
            while (pos < s.size() && (isalpha((unsigned char)s[pos]) || s[pos] == '_'))
                name.push_back((char)tolower(s[pos++]));
            if (pos < s.size() && s[pos] == '[') {
                while (pos < s.size() && s[pos] != ']')
                    pos++;
                pos++;
            }
            Op op;
            if (pos < s.size() && s[pos] == '(') {
                pos++;
                while (true) {
                    while (pos < s.size() && (s[pos] == ' ' || s[pos] == ','))
                        pos++;
                    if (pos < s.size() && s[pos] == ')') {
                        pos++;
                        break;
                    }
                    char *e;
                    double v = strtod(s.c_str() + pos, &e);
                    if (e == s.c_str() + pos)
                        throw std::invalid_argument("Bad argument in detector error model.");
                    op.args.push_back(v);
                    pos = e - s.c_str();
                }
            }
            if (name == "error")
                op.type = DemInstructionType::DEM_ERROR;
            else if (name == "detector")
                op.type = DemInstructionType::DEM_DETECTOR;
            else if (name == "logical_observable")
                op.type = DemInstructionType::DEM_LOGICAL_OBSERVABLE;
            else if (name == "shift_detectors")
                op.type = DemInstructionType::DEM_SHIFT_DETECTORS;
            else if (name == "repeat")
                op.type = DemInstructionType::DEM_REPEAT_BLOCK;
            else
                throw std::invalid_argument("Unrecognized instruction name: " + name);
            bool has_number = false;
            while (pos < s.size() && s[pos] != '\n' && s[pos] != '{' && s[pos] != '#') {
                char c = s[pos];
                if (c == ' ' || c == '\t' || c == '\r') {
                    pos++;
                } else if (c == '^') {
                    op.targets.push_back({SEPARATOR_SYGIL});
                    pos++;
                } else if (c == 'D' || c == 'd' || c == 'L' || c == 'l') {
                    pos++;
                    char *e;
                    uint64_t v = strtoull(s.c_str() + pos, &e, 10);
                    if (e == s.c_str() + pos)
                        throw std::invalid_argument("Bad target.");
                    pos = e - s.c_str();
                    op.targets.push_back({(c == 'D' || c == 'd') ? v : (v | OBSERVABLE_BIT)});
                } else if (isdigit((unsigned char)c)) {
                    char *e;
                    op.count = strtoull(s.c_str() + pos, &e, 10);
                    pos = e - s.c_str();
                    has_number = true;
                } else {
                    throw std::invalid_argument(std::string("Unexpected character '") + c + "' in detector error model.");
                }
            }
            if (op.type == DemInstructionType::DEM_REPEAT_BLOCK) {
                skip_ws(s, pos);
                if (!has_number || pos >= s.size() || s[pos] != '{')
                    throw std::invalid_argument("Bad repeat block.");
                pos++;
                parse_block(s, pos, op.body, true);
            }
            if (op.type == DemInstructionType::DEM_ERROR) {
                if (op.args.size() != 1 || op.args[0] < 0 || op.args[0] > 1)
                    throw std::invalid_argument("error instruction needs one probability argument.");
            }
            out.push_back(std::move(op));
        }
    }
};

// ---- circuits -----------------------------------------------------------------------------------
// A stand-in "circuit" is a text with the two models Stim could derive from it, after the lines "#decomposed" (used when
// decomposition was asked for) and "#plain", and lines saying for which options Stim would refuse it: "#gauge" (has gauge
// detectors), "#undecomposable" (some error cannot be decomposed), "#disjoint p" (needs approximating with threshold p).
struct Circuit {
    std::string decomposed, plain;
    bool gauge = false, undecomposable = false;
    double disjoint = 0;
    static Circuit from_text(const std::string &text) {
        Circuit c;
        std::string *to = nullptr;
        std::stringstream in(text);
        std::string line;
        while (std::getline(in, line)) {
            if (line == "#decomposed")
                to = &c.decomposed;
            else if (line == "#plain")
                to = &c.plain;
            else if (line == "#gauge")
                c.gauge = true;
            else if (line == "#undecomposable")
                c.undecomposable = true;
            else if (line.rfind("#disjoint ", 0) == 0)
                c.disjoint = atof(line.c_str() + 10);
            else if (to)
                *to += line + "\n";
            else
                throw std::invalid_argument("Unrecognized circuit line '" + line + "'.");
        }
        return c;
    }
    Circuit() {
    }
    explicit Circuit(const char *text) : Circuit(from_text(text)) {
    }
    static Circuit from_file(FILE *f) {
        std::string s;
        int c;
        while ((c = getc(f)) != EOF)
            s.push_back((char)c);
        return from_text(s);
    }
};
struct ErrorAnalyzer {
    static DetectorErrorModel circuit_to_detector_error_model(
        const Circuit &circuit,
        bool decompose_errors,
        bool fold_loops,
        bool allow_gauge_detectors,
        double approximate_disjoint_errors_threshold,
        bool ignore_decomposition_failures,
        bool block_decomposition_from_introducing_remnant_edges) {
        (void)fold_loops;
        (void)block_decomposition_from_introducing_remnant_edges;
        if (circuit.gauge && !allow_gauge_detectors)
            throw std::invalid_argument("The circuit contains non-deterministic detectors.");
        if (circuit.undecomposable && decompose_errors && !ignore_decomposition_failures)
            throw std::invalid_argument("Failed to decompose errors into graphlike components.");
        if (circuit.disjoint > approximate_disjoint_errors_threshold)
            throw std::invalid_argument("Encountered an operation with disjoint errors.");
        return DetectorErrorModel(decompose_errors ? circuit.decomposed : circuit.plain);
    }
};

// ---- shot data ----------------------------------------------------------------------------------
enum class SampleFormat : uint8_t {
    SAMPLE_FORMAT_01,
    SAMPLE_FORMAT_B8,
    SAMPLE_FORMAT_HITS,
    SAMPLE_FORMAT_R8,
    SAMPLE_FORMAT_DETS,
};
struct FileFormatData {
    const char *name;
    SampleFormat id;
};
inline const std::map<std::string, FileFormatData> &format_name_to_enum_map() {
    static const std::map<std::string, FileFormatData> m = {
        {"01", {"01", SampleFormat::SAMPLE_FORMAT_01}},
        {"b8", {"b8", SampleFormat::SAMPLE_FORMAT_B8}},
        {"hits", {"hits", SampleFormat::SAMPLE_FORMAT_HITS}},
        {"r8", {"r8", SampleFormat::SAMPLE_FORMAT_R8}},
        {"dets", {"dets", SampleFormat::SAMPLE_FORMAT_DETS}}};
    return m;
}

struct ObsBits {
    std::vector<bool> bits;
    bool operator==(const ObsBits &o) const {
        return bits == o.bits;
    }
    bool operator[](size_t k) const {
        return bits.at(k);
    }
    std::vector<bool>::reference operator[](size_t k) {
        return bits.at(k);
    }
};

struct SparseShot {
    std::vector<uint64_t> hits;
    ObsBits obs_mask;
    void clear() {
        hits.clear();
        obs_mask.bits.assign(obs_mask.bits.size(), false);
    }
    uint64_t obs_mask_as_u64() const {
        uint64_t r = 0;
        for (size_t k = 0; k < obs_mask.bits.size() && k < 64; k++)
            if (obs_mask.bits[k])
                r |= uint64_t{1} << k;
        return r;
    }
};

template <size_t W>
struct MeasureRecordReader {
    FILE *in;
    SampleFormat fmt;
    size_t num_detectors;
    size_t num_observables;

    static std::unique_ptr<MeasureRecordReader<W>> make(
        FILE *in, SampleFormat fmt, size_t num_measurements, size_t num_detectors, size_t num_observables) {
        (void)num_measurements;
        auto r = std::make_unique<MeasureRecordReader<W>>();
        r->in = in;
        r->fmt = fmt;
        r->num_detectors = num_detectors;
        r->num_observables = num_observables;
        return r;
    }
    bool start_and_read_entire_record(SparseShot &out) {
        size_t n = num_detectors + num_observables;
        // As in Stim, a record is added to what the shot already holds; the caller clears it.
        if (out.obs_mask.bits.size() < num_observables)
            out.obs_mask.bits.resize(num_observables, false);
        auto put = [&](size_t k) {
            if (k < num_detectors)
                out.hits.push_back(k);
            else
                out.obs_mask.bits[k - num_detectors] = !out.obs_mask.bits[k - num_detectors];
        };
        if (fmt == SampleFormat::SAMPLE_FORMAT_01) {
            int c = getc(in);
            if (c == EOF)
                return false;
            for (size_t k = 0; k < n; k++) {
                if (c != '0' && c != '1')
                    throw std::invalid_argument("Expected a 0 or 1 in 01 format data.");
                if (c == '1')
                    put(k);
                c = getc(in);
            }
            if (c == '\r')
                c = getc(in);
            if (c != '\n')
                throw std::invalid_argument("01 data didn't end in a newline after the expected data length.");
            return true;
        }
        if (fmt == SampleFormat::SAMPLE_FORMAT_HITS) {
            int c = getc(in);
            if (c == EOF)
                return false;
            while (c != '\n' && c != EOF) {
                size_t k = 0;
                bool any = false;
                while (c >= '0' && c <= '9') {
                    k = k * 10 + (size_t)(c - '0');
                    any = true;
                    c = getc(in);
                }
                if (!any || k >= n)
                    throw std::invalid_argument("Bad hits format data.");
                put(k);
                if (c == ',')
                    c = getc(in);
                else if (c != '\n' && c != EOF)
                    throw std::invalid_argument("Bad hits format data.");
            }
            return true;
        }
        if (fmt == SampleFormat::SAMPLE_FORMAT_DETS) {
            int c = getc(in);
            while (c == ' ' || c == '\n' || c == '\t')
                c = getc(in);
            if (c == EOF)
                return false;
            for (const char *w = "shot"; *w; w++) {
                if (c != *w)
                    throw std::invalid_argument("DETS data didn't start with 'shot'");
                c = getc(in);
            }
            while (true) {
                while (c == ' ')
                    c = getc(in);
                if (c == '\n' || c == EOF)
                    return true;
                char t = (char)c;
                c = getc(in);
                size_t k = 0;
                while (c >= '0' && c <= '9') {
                    k = k * 10 + (size_t)(c - '0');
                    c = getc(in);
                }
                if (t == 'D' && k < num_detectors)
                    put(k);
                else if (t == 'L' && k < num_observables)
                    put(num_detectors + k);
                else
                    throw std::invalid_argument("Bad DETS format data.");
            }
        }
        if (fmt == SampleFormat::SAMPLE_FORMAT_R8) {
            size_t pos = 0;
            bool first = true;
            while (pos <= n) {
                int c = getc(in);
                if (c == EOF) {
                    if (first)
                        return false;
                    throw std::invalid_argument("r8 data ended in middle of record.");
                }
                first = false;
                pos += (size_t)c;
                if (c != 255) {
                    if (pos > n)
                        throw std::invalid_argument("r8 data jumped past the end of the record.");
                    if (pos < n)
                        put(pos);
                    pos++;
                }
            }
            return true;
        }
        size_t nb = (n + 7) / 8;
        for (size_t b = 0; b < nb; b++) {
            int c = getc(in);
            if (c == EOF) {
                if (b == 0)
                    return false;
                throw std::invalid_argument("b8 data ended in middle of record.");
            }
            for (size_t r = 0; r < 8; r++)
                if (((c >> r) & 1) && b * 8 + r < n)
                    put(b * 8 + r);
        }
        return nb != 0;
    }
};

struct MeasureRecordWriter {
    FILE *out;
    SampleFormat fmt;
    char result_type = 'M';
    std::vector<bool> bits;
    static std::unique_ptr<MeasureRecordWriter> make(FILE *out, SampleFormat fmt) {
        auto r = std::make_unique<MeasureRecordWriter>();
        r->out = out;
        r->fmt = fmt;
        return r;
    }
    void begin_result_type(char t) {
        result_type = t;
    }
    void write_bit(bool b) {
        bits.push_back(b);
    }
    void write_end() {
        switch (fmt) {
            case SampleFormat::SAMPLE_FORMAT_01:
                for (bool b : bits)
                    putc(b ? '1' : '0', out);
                putc('\n', out);
                break;
            case SampleFormat::SAMPLE_FORMAT_B8:
                for (size_t k = 0; k < bits.size(); k += 8) {
                    int v = 0;
                    for (size_t r = 0; r < 8 && k + r < bits.size(); r++)
                        v |= (int)bits[k + r] << r;
                    putc(v, out);
                }
                break;
            case SampleFormat::SAMPLE_FORMAT_HITS: {
                bool first = true;
                for (size_t k = 0; k < bits.size(); k++)
                    if (bits[k]) {
                        fprintf(out, first ? "%zu" : ",%zu", k);
                        first = false;
                    }
                putc('\n', out);
                break;
            }
            case SampleFormat::SAMPLE_FORMAT_DETS:
                fprintf(out, "shot");
                for (size_t k = 0; k < bits.size(); k++)
                    if (bits[k])
                        fprintf(out, " %c%zu", result_type, k);
                putc('\n', out);
                break;
            case SampleFormat::SAMPLE_FORMAT_R8: {
                size_t run = 0;
                auto flush = [&]() {
                    while (run >= 255) {
                        putc(255, out);
                        run -= 255;
                    }
                    putc((int)run, out);
                    run = 0;
                };
                for (bool b : bits) {
                    if (b)
                        flush();
                    else
                        run++;
                }
                flush();
                break;
            }
        }
        bits.clear();
    }
};

// ---- arguments ----------------------------------------------------------------------------------
inline const char *find_argument(const char *name, int argc, const char **argv) {
    size_t n = strlen(name);
    for (int i = 1; i < argc; i++) {
        if (strncmp(argv[i], name, n) == 0) {
            if (argv[i][n] == '=')
                return argv[i] + n + 1;
            if (argv[i][n] == '\0') {
                if (i + 1 < argc && argv[i + 1][0] != '-')
                    return argv[i + 1];
                return "";
            }
        }
    }
    return nullptr;
}
inline void check_for_unknown_arguments(
    const std::vector<const char *> &known,
    const std::vector<const char *> &deprecated,
    const char *mode,
    int argc,
    const char **argv) {
    for (int i = 1; i < argc; i++) {
        if (mode != nullptr && i == 1 && strcmp(argv[i], mode) == 0)
            continue;
        if (strncmp(argv[i], "--", 2) != 0)
            continue;
        std::string a(argv[i]);
        a = a.substr(0, a.find('='));
        bool ok = false;
        for (auto k : known)
            ok |= a == k;
        for (auto k : deprecated)
            ok |= a == k;
        if (!ok)
            throw std::invalid_argument("Unrecognized command line argument " + a);
    }
}
inline bool find_bool_argument(const char *name, int argc, const char **argv) {
    const char *t = find_argument(name, argc, argv);
    if (t == nullptr)
        return false;
    if (*t == '\0')
        return true;
    throw std::invalid_argument(std::string("Got non-empty value for boolean argument ") + name);
}
inline FILE *find_open_file_argument(const char *name, FILE *def, const char *mode, int argc, const char **argv) {
    const char *p = find_argument(name, argc, argv);
    if (p == nullptr) {
        if (def == nullptr)
            throw std::invalid_argument(std::string("Missing command line argument: '") + name + "'");
        return def;
    }
    FILE *f = fopen(p, mode);
    if (f == nullptr)
        throw std::invalid_argument(std::string("Failed to open '") + p + "'");
    return f;
}
inline const char *require_find_argument(const char *name, int argc, const char **argv) {
    const char *t = find_argument(name, argc, argv);
    if (t == nullptr)
        throw std::invalid_argument(std::string("Missing command line argument: '") + name + "'");
    return t;
}
inline int64_t find_int64_argument(
    const char *name, int64_t def, int64_t lo, int64_t hi, int argc, const char **argv) {
    const char *t = find_argument(name, argc, argv);
    int64_t v = def;
    if (t != nullptr && *t != '\0') {
        char *e;
        v = strtoll(t, &e, 10);
        if (*e != '\0')
            throw std::invalid_argument(std::string("Got non-integer value for integer argument ") + name);
    } else if (def < lo || def > hi) {
        throw std::invalid_argument(std::string("Must specify a value for int argument '") + name + "'.");
    }
    if (v < lo || v > hi)
        throw std::invalid_argument(std::string("Integer value out of range for argument ") + name);
    return v;
}
template <typename T>
T find_enum_argument(const char *name, const char *def, const std::map<std::string, T> &values, int argc, const char **argv) {
    const char *t = find_argument(name, argc, argv);
    if (t == nullptr && def == nullptr)
        throw std::invalid_argument(std::string("Must specify a value for enum argument '") + name + "'.");
    std::string key = t == nullptr ? def : t;
    auto it = values.find(key);
    if (it == values.end())
        throw std::invalid_argument(std::string("Unrecognized value '") + key + "' for argument " + name);
    return it->second;
}

}  // namespace stim
#endif
