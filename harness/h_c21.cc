// C21: the command line tools, run in-process on generated models and shot files in a scratch folder.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <string.h>
#include <unistd.h>

#include "demgen.h"
#include "pmh.h"
#include "pymatching/sparse_blossom/diagram/animation_main.h"
#include "pymatching/sparse_blossom/driver/namespaced_main.h"
#include "stim.h"
using namespace vh;

// The animation command draws pictures; it is not part of what is monitored here.
int pm::main_animation(int, const char **) {
    return 7;
}

struct Shot {
    std::vector<u64> dets;
    std::vector<bool> obs;
};

static std::string record(const std::string &fmt, const std::vector<bool> &bits, size_t nd) {
    std::string o;
    if (fmt == "01") {
        for (bool b : bits)
            o.push_back(b ? '1' : '0');
        o.push_back('\n');
    } else if (fmt == "b8") {
        for (size_t k = 0; k < bits.size(); k += 8) {
            unsigned v = 0;
            for (size_t j = 0; j < 8 && k + j < bits.size(); j++)
                v |= (unsigned)bits[k + j] << j;
            o.push_back((char)v);
        }
    } else if (fmt == "hits") {
        for (size_t k = 0; k < bits.size(); k++)
            if (bits[k])
                o += (o.empty() ? "" : ",") + std::to_string(k);
        o.push_back('\n');
    } else if (fmt == "dets") {
        o = "shot";
        for (size_t k = 0; k < bits.size(); k++)
            if (bits[k])
                o += k < nd ? " D" + std::to_string(k) : " L" + std::to_string(k - nd);
        o.push_back('\n');
    } else {
        int run = 0;
        auto flush = [&]() {
            while (run >= 255) {
                o.push_back((char)255);
                run -= 255;
            }
            o.push_back((char)run);
            run = 0;
        };
        for (bool b : bits)
            if (b)
                flush();
            else
                run++;
        flush();
    }
    return o;
}

static void write_file(const std::string &p, const std::string &c) {
    FILE *f = fopen(p.c_str(), "wb");
    if (!f || fwrite(c.data(), 1, c.size(), f) != c.size())
        throw std::runtime_error("harness: cannot write " + p);
    fclose(f);
}
static std::string read_file(const std::string &p) {
    FILE *f = fopen(p.c_str(), "rb");
    if (!f)
        return "<no file>";
    std::string s;
    char b[4096];
    size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0)
        s.append(b, k);
    fclose(f);
    return s;
}
static std::string show(const std::string &s) {
    return jesc(s.substr(0, 400));
}

// Runs the command line entry point with standard input, output and error redirected to files.
struct Redirect {
    int saved[3];
    Redirect(const std::string &in, const std::string &out, const std::string &err) {
        fflush(stdout);
        fflush(stderr);
        for (int k = 0; k < 3; k++)
            saved[k] = dup(k);
        if (!freopen(in.c_str(), "rb", stdin) || !freopen(out.c_str(), "wb", stdout))
            throw std::runtime_error("harness: redirect");
        int e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(e, 2);
        close(e);
    }
    ~Redirect() {
        fflush(stdout);
        fflush(stderr);
        for (int k = 0; k < 3; k++) {
            dup2(saved[k], k);
            close(saved[k]);
        }
    }
};
// Closes what the tool left open and returns how many that were. Only descriptors of files in the scratch directory count:
// the sanitizer's memory watch opens /proc files now and then in a thread of its own.
static int close_strays(int keep, const std::string &dir) {
    int left = 0;
    for (int fd = keep; fd < keep + 24; fd++) {
        char to[4096];
        ssize_t k = readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), to, sizeof to);
        if (k > (ssize_t)dir.size() && !memcmp(to, dir.data(), dir.size()) && close(fd) == 0)
            left++;
    }
    return left;
}

int main(int argc, char **argv) {
    const char *sd = getenv("VH_SCRATCH");
    std::string dir = sd ? sd : "/tmp/vh_c21_manual";
    if (!sd)
        mkdir(dir.c_str(), 0755);
    if (char *p = realpath(dir.c_str(), nullptr)) {
        dir = p;
        free(p);
    }
    int keep = 0;
    return run_cases(argc, argv, "C21", [&](Rng &r, u64 idx) {
        if (!keep) {
            keep = dup(0);
            close(keep);
        }
        bool count = r.chance(0.5);
        DemGenOpts o;
        o.n_lo = 1;
        o.n_hi = 10;
        int n = (int)r.range(1, r.chance(0.15) ? 60 : 10);
        o.nobs = r.chance(0.15) ? (int)r.range(60, 90) : (int)r.range(1, 9);
        o.errors_lo = 1;
        o.errors_hi = n > 10 ? 90 : 18;
        bool corr = r.chance(0.3);
        o.half = corr || r.chance(0.5);
        // The decoder with correlations refuses components with more than two detectors.
        auto errs = gen_dem_errors(r, o, n);
        int extra_n = r.chance(0.2) ? (int)r.range(1, 9) : 0, extra_o = r.chance(0.2) && o.nobs < 60 ? (int)r.range(1, 4) : 0;
        int nd = n + extra_n, no = o.nobs + extra_o;
        std::string dem = dem_text(errs, nd, no);
        RefDem ref(errs);
        // shots
        std::vector<Shot> shots;
        int ns = (int)r.range(0, r.chance(0.1) ? 40 : 8);
        if (n <= 10 && r.chance(0.004))
            ns = (int)r.range(200, 1400);
        bool many = n <= 4 && idx % 1201 < 40 && r.chance(0.05);
        if (many)  // more shots, and more mistakes, than fit in 16 bits
            ns = (int)r.range(66000, 140000);
        int bad_at = -1;
        for (int k = 0; k < ns; k++) {
            Shot s;
            std::vector<bool> d(nd, false);
            s.obs.assign(no, false);
            double p = r.unit() * 0.5;
            for (auto &e : ref.edges)
                if (r.chance(p)) {
                    d[e.u] = !d[e.u];
                    if (e.v >= 0)
                        d[e.v] = !d[e.v];
                    for (auto x : e.obs)
                        s.obs[x] = !s.obs[x];
                }
            if (r.chance(many ? 0.97 : 0.3))
                s.obs[no > 64 && r.chance(0.5) ? r.range(64, no - 1) : r.below(no)].flip();
            for (int i = 0; i < nd; i++)
                if (d[i])
                    s.dets.push_back(i);
            shots.push_back(s);
        }
        if (ns && extra_n && r.chance(0.15)) {
            bad_at = (int)r.below(ns);  // a detector no error touches cannot fire
            shots[bad_at].dets.push_back(nd - 1);
        }
        // Expected answers: each shot alone on a decoder of its own.
        std::vector<std::vector<bool>> want;
        bool any_bad = false;
        stim::DetectorErrorModel model(dem.c_str());
        std::string ctx = std::string(count ? "count_mistakes" : "predict") + (corr ? " corr" : "") + " dem={" + dem + "} shots=";
        if (many) {
            ctx += std::to_string(ns) + " random shots";
            vh::count("runs of more than 65536 shots");
        } else
            for (auto &s : shots)
                ctx += vstr(s.dets) + ";";
        note(ctx);
        std::map<std::vector<u64>, std::pair<bool, std::vector<bool>>> known;  // only with many shots
        for (auto &s : shots) {
            if (many) {
                auto it = known.find(s.dets);
                if (it != known.end()) {
                    any_bad |= it->second.first;
                    want.push_back(it->second.second);
                    continue;
                }
            }
            auto m = pm::detector_error_model_to_mwpm(model, pm::NUM_DISTINCT_WEIGHTS, corr, corr);
            auto out = decode(m, s.dets, no, corr);
            if (!out.ok)
                any_bad = true;
            std::vector<bool> b(no, false);
            for (int k = 0; k < no && out.ok; k++)
                b[k] = out.obs[k] & 1;
            want.push_back(b);
            if (many)
                known[s.dets] = {!out.ok, b};
        }
        // Files and arguments
        const char *fmts[] = {"01", "b8", "hits", "dets", "r8"};
        std::string infmt = fmts[r.below(5)], outfmt = fmts[r.below(5)], obsfmt = fmts[r.below(5)];
        bool appended = r.chance(0.5);
        std::string indata, obsdata;
        for (auto &s : shots) {
            std::vector<bool> bits(nd, false);
            for (auto d : s.dets)
                bits[d] = true;
            if (appended)
                bits.insert(bits.end(), s.obs.begin(), s.obs.end());
            indata += record(infmt, bits, nd);
            // an observable-only record has no detectors in front
            obsdata += record(obsfmt, s.obs, 0);
        }
        std::string fi = dir + "/in", fo = dir + "/out", fd = dir + "/dem", fb = dir + "/obs", fe = dir + "/err", fs = dir + "/sout";
        write_file(fi, indata);
        write_file(fb, obsdata);
        write_file(fd, dem);
        unlink(fo.c_str());
        std::vector<std::vector<std::string>> parts;
        auto opt = [&](const std::string &k, const std::string &v) {
            if (r.chance(0.3))
                parts.push_back({k + "=" + v});
            else
                parts.push_back({k, v});
        };
        bool via_stdin = r.chance(0.25), via_stdout = r.chance(0.25);
        opt("--dem", fd);
        if (!via_stdin)
            opt("--in", fi);
        if (!via_stdout)
            opt("--out", fo);
        if (infmt != (count ? "01" : "b8") || r.chance(0.5))
            opt("--in_format", infmt);
        if (!count && (outfmt != "01" || r.chance(0.5)))
            opt("--out_format", outfmt);
        bool short_obs = false;
        // Calls that do not say enough must be refused.
        std::string broken;
        if (r.chance(0.03))
            broken = count && !appended && r.chance(0.6) ? "no observable data" : r.chance(0.3) ? "unreadable model" : r.chance(0.2) ? "unknown format" : r.chance(0.5) ? "unknown option" : r.chance(0.2) ? "no command" : "unknown command";
        if (count && !appended && broken == "no observable data") {
        } else if (count && !appended) {
            opt("--obs_in", fb);
            if (obsfmt != "01" || r.chance(0.5))
                opt("--obs_in_format", obsfmt);
            if (ns && r.chance(0.05)) {
                short_obs = true;
                std::string less;
                for (int k = 0; k + 1 < ns; k++)
                    less += record(obsfmt, shots[k].obs, 0);
                write_file(fb, less);
            }
        }
        if (broken == "unreadable model")
            write_file(fd, dem + "no_such_instruction D0\n");
        if (broken == "unknown format") {
            std::string key = count && !appended ? "--obs_in_format" : count ? "--in_format" : "--out_format";
            std::erase_if(parts, [&](auto &p) {
                return p[0] == key || p[0].rfind(key + "=", 0) == 0;
            });
            parts.push_back({key, "b9"});
        }
        if (appended)
            parts.push_back({"--in_includes_appended_observables"});
        if (broken == "unknown option")
            parts.push_back({"--shots_in", fi});
        if (corr)
            parts.push_back({"--enable_correlations"});
        if (count && r.chance(0.2))
            parts.push_back({"--time"});
        for (size_t k = parts.size(); k > 1; k--)
            std::swap(parts[k - 1], parts[r.below(k)]);
        std::vector<std::string> args = {"pymatching", count ? "count_mistakes" : "predict"};
        for (auto &p : parts)
            for (auto &a : p)
                args.push_back(a);
        if (broken == "no command")
            args.resize(1);
        if (broken == "unknown command")
            args[1] = r.chance(0.5) ? "decode" : "predictions";
        std::vector<const char *> av;
        for (auto &a : args) {
            av.push_back(a.c_str());
            ctx += " " + a;
        }
        note(ctx);
        int rc = -1;
        std::string threw;
        {
            Redirect rd(via_stdin ? fi : "/dev/null", fs, fe);
            try {
                av.push_back(nullptr);
                rc = pm::main((int)av.size() - 1, av.data());
            } catch (const std::exception &e) {
                threw = e.what();
            }
        }
        int left = close_strays(keep, dir);
        std::string got = read_file(via_stdout ? fs : fo);
        evaluated();
        vh::count(count ? "count_mistakes runs" : "predict runs");
        // also when the call was refused
        if (left)
            fail("open", "the tool left " + std::to_string(left) + " of the files it opened open: " + ctx);
        if (!broken.empty()) {
            if (rc == 0)
                fail("accepted", "the tool reported success although the call is incomplete (" + broken + "): " + ctx);
            vh::count("incomplete calls refused");
            return;
        }
        if (any_bad || short_obs) {
            if (rc == 0)
                fail("accepted", "the tool reported success although " + std::string(short_obs ? "the observable data is short" : "a shot cannot be decoded") + ": " + ctx);
            vh::count("refusals");
            return;
        }
        if (!threw.empty() || rc != 0)
            fail("failed", "the tool failed (status " + std::to_string(rc) + ", " + threw + read_file(fe).substr(0, 300) + "): " + ctx);
        std::string expect;
        if (count) {
            size_t wrong = 0;
            for (size_t k = 0; k < shots.size(); k++)
                wrong += shots[k].obs != want[k];
            expect = std::to_string(wrong) + " / " + std::to_string(shots.size()) + "\n";
        } else {
            for (auto &b : want)
                expect += record(outfmt, b, 0);
        }
        if (got != expect)
            fail("output", "the tool wrote \"" + show(got) + "\" instead of \"" + show(expect) + "\": " + ctx);
        vh::count("shots compared", shots.size());
        vh::count("input format " + infmt);
        if (!count)
            vh::count("output format " + outfmt);
        if (shots.size() >= 2) {
            u64 h = mix(count, corr);
            for (char c : dem + indata + infmt + outfmt)
                h = mix(h, (unsigned char)c);
            nontrivial(h);
        }
        if (idx < 4 && shots.size() >= 2)
            sample(std::string(count ? "count_mistakes" : "predict") + " detectors=" + std::to_string(nd) + " observables=" +
                   std::to_string(no) + " shots=" + std::to_string(shots.size()) + " in=" + infmt + " wrote " + show(got).substr(0, 60));
    });
}
