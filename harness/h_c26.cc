// C26: the animation of a decode.  Every frame file is read back and compared, in order, with a second decoder that is
// stepped alongside, one flooding event at a time.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include "demgen.h"
#include "pmh.h"
#include "pymatching/sparse_blossom/diagram/animation_main.h"
#include "pymatching/sparse_blossom/diagram/mwpm_diagram.h"
#include "pymatching/sparse_blossom/driver/namespaced_main.h"
#include "stim.h"
using namespace vh;

typedef std::pair<float, float> P;
typedef std::vector<P> Coords;

static std::string read_file(const std::string &p) {
    FILE *f = fopen(p.c_str(), "rb");
    if (!f)
        return "";
    std::string s;
    char b[65536];
    size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0)
        s.append(b, k);
    fclose(f);
    return s;
}
static void write_file(const std::string &p, const std::string &c) {
    FILE *f = fopen(p.c_str(), "wb");
    if (!f || fwrite(c.data(), 1, c.size(), f) != c.size())
        throw std::runtime_error("harness: cannot write " + p);
    fclose(f);
}
static std::vector<std::string> list_dir(const std::string &d) {
    std::vector<std::string> v;
    DIR *h = opendir(d.c_str());
    if (!h)
        return v;
    while (dirent *e = readdir(h))
        if (e->d_name[0] != '.')
            v.push_back(e->d_name);
    closedir(h);
    std::sort(v.begin(), v.end());
    return v;
}
static void clear_dir(const std::string &d) {
    for (auto &f : list_dir(d))
        unlink((d + "/" + f).c_str());
    rmdir(d.c_str());
}

// ------------------------------------------------------------------------------------- pictures
struct Elem {
    std::string tag;
    std::map<std::string, std::string> at;
    std::string get(const std::string &k) const {
        auto it = at.find(k);
        return it == at.end() ? "" : it->second;
    }
    double num(const std::string &k) const {
        return strtod(get(k).c_str(), nullptr);
    }
};
struct Line {
    double x1, y1, x2, y2;
};
struct Poly {
    std::vector<std::pair<double, double>> pts;
    std::string fill, stroke;
};
struct Picture {
    bool complete = false;
    double width = 0, height = 0;
    std::map<std::string, std::vector<Line>> lines;                              // by kind
    std::map<std::string, std::vector<std::pair<double, double>>> circles;      // by fill
    std::vector<Poly> polys;
};
static Picture parse(const std::string &s) {
    Picture p;
    size_t pos = 0;
    bool opened = false, closed = false;
    while (pos < s.size()) {
        if (isspace((unsigned char)s[pos])) {
            pos++;
            continue;
        }
        if (s[pos] != '<' || closed)
            return p;
        if (s.compare(pos, 6, "</svg>") == 0) {
            closed = true;
            pos += 6;
            continue;
        }
        pos++;
        Elem e;
        while (pos < s.size() && isalpha((unsigned char)s[pos]))
            e.tag.push_back(s[pos++]);
        bool self = false;
        while (true) {
            while (pos < s.size() && isspace((unsigned char)s[pos]))
                pos++;
            if (pos >= s.size())
                return p;
            if (s[pos] == '/') {
                self = true;
                pos++;
                continue;
            }
            if (s[pos] == '>') {
                pos++;
                break;
            }
            std::string k, v;
            while (pos < s.size() && s[pos] != '=')
                k.push_back(s[pos++]);
            if (pos + 1 >= s.size() || s[pos + 1] != '"')
                return p;
            pos += 2;
            while (pos < s.size() && s[pos] != '"')
                v.push_back(s[pos++]);
            if (pos >= s.size())
                return p;
            pos++;
            e.at[k] = v;
        }
        if (e.tag == "svg") {
            opened = true;
            p.width = e.num("width");
            p.height = e.num("height");
            continue;
        }
        if (!self || !opened)
            return p;
        if (e.tag == "line") {
            std::string kind = e.get("stroke") + (e.at.count("stroke-width") ? "/" + e.get("stroke-width") : "") +
                               (e.at.count("stroke-dasharray") ? "/dashed" : "");
            p.lines[kind].push_back({e.num("x1"), e.num("y1"), e.num("x2"), e.num("y2")});
        } else if (e.tag == "circle") {
            p.circles[e.get("fill")].push_back({e.num("cx"), e.num("cy")});
        } else if (e.tag == "path") {
            Poly q;
            q.fill = e.get("fill");
            q.stroke = e.get("stroke");
            std::string d = e.get("d");
            for (auto &c : d)
                if (isalpha((unsigned char)c) && c != 'e' && c != 'n' && c != 'a' && c != 'i' && c != 'f')
                    c = ' ';
            std::istringstream in(d);
            double x, y;
            while (in >> x >> y)
                q.pts.push_back({x, y});
            p.polys.push_back(q);
        }
    }
    p.complete = opened && closed;
    return p;
}
static bool close_to(double a, double b) {
    return std::abs(a - b) <= 1e-3 * std::max(1.0, std::max(std::abs(a), std::abs(b)) * 0.05) + 1e-4 * std::abs(a);
}
static bool same_line(const Line &a, const Line &b) {
    return (close_to(a.x1, b.x1) && close_to(a.y1, b.y1) && close_to(a.x2, b.x2) && close_to(a.y2, b.y2)) ||
           (close_to(a.x1, b.x2) && close_to(a.y1, b.y2) && close_to(a.x2, b.x1) && close_to(a.y2, b.y1));
}
template <typename T, typename F>
static std::string differ(std::vector<T> want, std::vector<T> got, F same) {
    if (want.size() != got.size())
        return std::to_string(got.size()) + " drawn instead of " + std::to_string(want.size());
    for (auto &w : want) {
        bool ok = false;
        for (size_t k = 0; k < got.size(); k++)
            if (same(w, got[k])) {
                got[k] = got.back();
                got.pop_back();
                ok = true;
                break;
            }
        if (!ok)
            return "one is missing or in the wrong place";
    }
    return "";
}

struct Checker {
    pm::Mwpm &m;  // stepped alongside
    const Graph &g;
    const Coords &c, &bc;
    std::vector<u64> events;
    std::string dir, ctx;
    size_t frame = 0;
    u64 polygons = 0, blossom_frames = 0, tree_frames = 0;
    std::map<std::string, u64> seen;

    [[noreturn]] void bad(const std::string &key, const std::string &msg) {
        throw Violation(key, "frame " + std::to_string(frame) + ": " + msg + ": " + ctx);
    }
    Line ln(int a, int b) const {
        P e = b < 0 ? bc[a] : c[b];
        return {c[a].first, c[a].second, e.first, e.second};
    }
    int id(const pm::DetectorNode *p) const {
        return p ? (int)(p - &m.flooder.graph.nodes[0]) : -1;
    }
    // at: the moment the picture shows; ev: the event it highlights
    void check(i64 at, const pm::MwpmEvent &ev) {
        char name[32];
        snprintf(name, sizeof name, "/frame_%05zu.svg", frame);
        std::string text = read_file(dir + name);
        if (text.empty())
            bad("missing", "the frame was not written");
        Picture p = parse(text);
        if (!p.complete)
            bad("svg", "the file is not a complete picture");
        auto pt = [](const std::pair<double, double> &a, const std::pair<double, double> &b) {
            return close_to(a.first, b.first) && close_to(a.second, b.second);
        };
        // The graph
        std::vector<Line> edges, bedges;
        for (auto &e : g.edges)
            (e.v < 0 ? bedges : edges).push_back(ln(e.u, e.v));
        std::string d;
        if ((d = differ(edges, p.lines["#CCC"], same_line)) != "")
            bad("edges", "edges of the graph: " + d);
        if ((d = differ(bedges, p.lines["#FAA/dashed"], same_line)) != "")
            bad("edges", "boundary edges of the graph: " + d);
        std::vector<std::pair<double, double>> on, off;
        for (int k = 0; k < g.n; k++)
            (std::count(events.begin(), events.end(), (u64)k) ? on : off).push_back(c[k]);
        if ((d = differ(off, p.circles["#CCC"], pt)) != "")
            bad("detectors", "detectors without event: " + d);
        if ((d = differ(on, p.circles["red"], pt)) != "")
            bad("detectors", "detection events: " + d);
        for (int k = 0; k < g.n; k++)
            for (auto *q : {&c, &bc})
                if ((*q)[k].first < 0 || (*q)[k].second < 0 || (*q)[k].first > p.width || (*q)[k].second > p.height)
                    bad("span", "a detector or boundary point lies outside the picture");
#ifndef VH_NO_INTERNALS
        auto &nodes = m.flooder.graph.nodes;
        std::set<pm::GraphFillRegion *> regions;
        for (int k = 0; k < g.n; k++)
            for (auto *r = nodes[k].region_that_arrived; r; r = r->blossom_parent)
                regions.insert(r);
        std::vector<Line> matched, blossom, solid, dashed;
        std::set<pm::AltTreeNode *> tree;
        for (auto *r : regions) {
            if (!r->blossom_parent && r->radius.is_frozen())
                matched.push_back(ln(id(r->match.edge.loc_from), id(r->match.edge.loc_to)));
            for (auto &e : r->blossom_children)
                blossom.push_back(ln(id(e.edge.loc_from), id(e.edge.loc_to)));
            if (r->alt_tree_node)
                tree.insert(r->alt_tree_node);
        }
        for (auto *t : tree) {
            if (t->inner_region)
                solid.push_back(ln(id(t->inner_to_outer_edge.loc_from), id(t->inner_to_outer_edge.loc_to)));
            for (auto &ch : t->children)
                dashed.push_back(ln(id(ch.edge.loc_from), id(ch.edge.loc_to)));
        }
        if ((d = differ(matched, p.lines["#000/4"], same_line)) != "")
            bad("matches", "matched pairs: " + d);
        if ((d = differ(blossom, p.lines["#22F/4"], same_line)) != "")
            bad("blossoms", "blossom cycles: " + d);
        if ((d = differ(solid, p.lines["#000"], same_line)) != "")
            bad("trees", "matched tree edges: " + d);
        if ((d = differ(dashed, p.lines["#000/dashed"], same_line)) != "")
            bad("trees", "unmatched tree edges: " + d);
        blossom_frames += !blossom.empty();
        tree_frames += !solid.empty();
        // Clusters: colour by what they do, extent by how far they have grown at that moment.
        std::map<pm::GraphFillRegion *, std::string> colour;
        std::map<std::string, size_t> want_min;
        for (auto *r : regions) {
            auto *top = r;
            while (top->blossom_parent)
                top = top->blossom_parent;
            std::string col = top->radius.is_growing()     ? "#FF000080"
                              : !top->radius.is_frozen()   ? "#0000FF80"
                              : top->match.edge.loc_to     ? "#00FF0080"
                                                           : "#00200080";
            colour[r] = col;
            want_min[col]++;
        }
        std::map<std::string, std::vector<std::pair<double, double>>> verts;
        std::map<std::string, size_t> npoly;
        for (auto &q : p.polys) {
            if (q.fill == "white")
                continue;
            npoly[q.fill]++;
            for (auto &v : q.pts)
                verts[q.fill].push_back(v);
        }
        std::string focus = ev.event_type == pm::REGION_HIT_BOUNDARY ? "#80800080" : ev.event_type == pm::BLOSSOM_SHATTER ? "#FF800080" : "";
        for (auto &kv : npoly)
            if (!want_min.count(kv.first) && kv.first != focus)
                bad("clusters", "a cluster is drawn in the colour " + kv.first + " of a state no cluster is in");
        for (auto &kv : want_min)
            if (npoly[kv.first] < kv.second)
                bad("clusters", std::to_string(kv.second) + " clusters should be drawn in " + kv.first + ", but only " +
                                    std::to_string(npoly[kv.first]) + " shapes are");
        for (int k = 0; k < g.n; k++) {
            auto &v = nodes[k];
            if (!v.region_that_arrived)
                continue;
            pm::GraphFillRegion *top = v.region_that_arrived;
            i64 loc = top->radius.get_distance_at_time(at);
            while (top->blossom_parent) {
                top = top->blossom_parent;
                loc += top->radius.get_distance_at_time(at);
            }
            loc -= v.radius_of_arrival;
            std::vector<std::pair<double, double>> need;
            if (loc == 0) {
                need.push_back(c[k]);
            } else {
                for (size_t j = 0; j < v.neighbors.size(); j++) {
                    auto *nb = v.neighbors[j];
                    double w = v.neighbor_weights[j];
                    if (nb && nb->region_that_arrived) {
                        auto *t2 = nb->region_that_arrived;
                        while (t2->blossom_parent)
                            t2 = t2->blossom_parent;
                        if (t2 == top)
                            continue;
                    }
                    if (loc < 0)
                        continue;
                    double ratio = w == 0 ? 0 : std::min(1.0, (double)loc / w);
                    P to = nb ? c[id(nb)] : bc[k];
                    need.push_back({c[k].first + ratio * (to.first - c[k].first), c[k].second + ratio * (to.second - c[k].second)});
                }
            }
            for (auto &q : need) {
                bool ok = false;
                for (auto &x : verts[colour[top]])
                    ok |= pt(q, x);
                if (!ok)
                    bad("extent", "the cluster that covers detector " + std::to_string(k) + " is not drawn as far as it has grown (" +
                                      std::to_string(loc) + ") at time " + std::to_string(at));
                polygons++;
            }
        }
        for (auto &q : p.circles["orange"]) {
            // A collision about to happen: two different clusters (or a cluster and the boundary) touch there.
            bool ok = false;
            for (int k = 0; k < g.n && !ok; k++) {
                auto &v = nodes[k];
                if (!v.region_that_arrived_top)
                    continue;
                i64 r1 = v.local_radius().get_distance_at_time(at);
                for (size_t j = 0; j < v.neighbors.size() && !ok; j++) {
                    auto *nb = v.neighbors[j];
                    if (nb && (!nb->region_that_arrived_top || nb->region_that_arrived_top == v.region_that_arrived_top))
                        continue;
                    i64 r2 = nb ? nb->local_radius().get_distance_at_time(at) : 0;
                    if (r1 + r2 != (i64)v.neighbor_weights[j])
                        continue;
                    double ratio = v.neighbor_weights[j] == 0 ? 0 : (double)r1 / (double)v.neighbor_weights[j];
                    P to = nb ? c[id(nb)] : bc[k];
                    ok = pt(q, {c[k].first + ratio * (to.first - c[k].first), c[k].second + ratio * (to.second - c[k].second)});
                }
            }
            if (!ok)
                bad("collisions", "a collision is drawn where no two clusters touch");
            seen["collisions drawn"]++;
        }
        // What is highlighted
        std::vector<Line> hi;
        if (ev.event_type == pm::REGION_HIT_REGION)
            hi.push_back(ln(id(ev.region_hit_region_event_data.edge.loc_from), id(ev.region_hit_region_event_data.edge.loc_to)));
        if ((d = differ(hi, p.lines["#F80/12"], same_line)) != "")
            bad("focus", "highlighted collision: " + d);
        if (!focus.empty() && !npoly.count(focus))
            bad("focus", "the event is not highlighted");
#endif
        seen["frames"]++;
        frame++;
    }
};

static int pick_frames(Rng &r) {
    return r.chance(0.3) ? 0 : (int)r.range(1, 3);
}

int main(int argc, char **argv) {
    const char *sd = getenv("VH_SCRATCH");
    std::string base = sd ? sd : "/tmp/vh_c26_manual";
    if (!sd)
        mkdir(base.c_str(), 0755);
    int keep = 0;
    return run_cases(argc, argv, "C26", [&](Rng &r, u64 idx) {
        if (!keep) {
            keep = dup(0);
            close(keep);
        }
        bool cli = r.chance(0.5);
        std::string dir = base + "/frames";
        clear_dir(dir);
        Graph g;
        Coords c, bc;
        std::string demtext;
        std::vector<u64> syn;
        std::function<pm::Mwpm()> make;
        std::vector<std::vector<double>> given;
        int ppu = (int)r.range(4, 40);
        if (!cli) {
            GenOpts o;
            o.allow_negative = false;
            o.nobs = 1;
            o.n_lo = 2;
            o.n_hi = r.chance(0.2) ? 18 : 9;
            if (r.chance(0.3))
                o.family = 7;
            g = gen_graph(r, o);
            for (int k = 0; k < g.n; k++) {
                c.push_back({(float)(40 + 37 * (k % 7)), (float)(40 + 41 * (k / 7) + (k * 13) % 29)});
                bc.push_back({c[k].first + (float)r.range(-30, 30), c[k].second - (float)r.range(11, 35)});
            }
            make = [&g]() {
                return build_mwpm(g, false);
            };
            syn = r.chance(0.4) ? gen_syndrome(r, g, 0.8) : r.chance(0.5) ? gen_syndrome(r, g) : gen_error_syndrome(r, g, 0.4);
        } else {
            DemGenOpts o;
            o.half = true;
            o.nobs = (int)r.range(1, 3);
            o.errors_lo = 1;
            o.errors_hi = 16;
            int n = (int)r.range(1, 10);
            auto errs = gen_dem_errors(r, o, n);
            int nd = n + (r.chance(0.1) ? 1 : 0);
            std::ostringstream t;
            int dims = (int)r.below(5);
            given.assign(nd, {});
            double sx = 0, sy = 0;
            for (int k = 0; k < nd; k++) {
                if (r.chance(0.1))
                    continue;
                if (r.chance(0.1)) {
                    double ax = (double)r.range(-3, 3), ay = (double)r.range(-3, 3);
                    t << "shift_detectors(" << ax << "," << ay << ") 0\n";
                    sx += ax;
                    sy += ay;
                }
                t << "detector(";
                for (int j = 0; j < dims; j++) {
                    double v = (double)r.range(-20, 20) * (r.chance(0.2) ? 0.5 : 1);
                    if (j >= 2)
                        v = (double)r.range(0, 1);
                    t << (j ? "," : "") << v;
                    given[k].push_back(v + (j == 0 ? sx : j == 1 ? sy : 0));
                }
                t << ") D" << k << "\n";
            }
            demtext = t.str() + dem_text(errs, nd, o.nobs);
            // dem_text ends with a bare "detector D" line, which must not take coordinates away
            if (!given[nd - 1].empty()) {
                size_t at = demtext.rfind("detector D");
                size_t e = demtext.find('\n', at);
                demtext.erase(at, e - at + 1);
            }
            RefDem ref(errs);
            g.n = nd;
            g.nobs = o.nobs;
            g.family = "dem";
            stim::DetectorErrorModel model(demtext.c_str());
            make = [demtext]() {
                return pm::detector_error_model_to_mwpm(stim::DetectorErrorModel(demtext.c_str()), 1000);
            };
            auto tw = make();
            for (auto &e : ref.edges) {
                // The weights the decoder works with; how they come about is judged elsewhere.
                auto &nd2 = tw.flooder.graph.nodes[e.u];
                i64 w = -1;
                for (size_t j = 0; j < nd2.neighbors.size(); j++)
                    if (nd2.neighbors[j] == (e.v < 0 ? nullptr : &tw.flooder.graph.nodes[e.v]))
                        w = (i64)nd2.neighbor_weights[j];
                if (w < 0)
                    fail("edges", "an edge of the model is missing from the decoder: " + demtext);
                g.edges.push_back({e.u, e.v, w / 2, {}});
            }
            auto cc = pm::pick_coords_for_drawing_from_dem(model, (float)ppu);
            c = cc.first;
            bc = cc.second;
            std::string where = "ppu=" + std::to_string(ppu) + " dem={" + demtext + "}";
            if ((int)c.size() != nd || (int)bc.size() != nd)
                fail("coords", "coordinates for " + std::to_string(c.size()) + " of " + std::to_string(nd) + " detectors: " + where);
            for (int a = 0; a < nd; a++) {
                if (!(c[a].first >= 0 && c[a].second >= 0 && bc[a].first >= 0 && bc[a].second >= 0))
                    fail("coords", "negative coordinates: " + where);
                double bd = std::hypot(bc[a].first - c[a].first, bc[a].second - c[a].second);
                if (std::abs(bd - 5.0 * ppu) > 1e-2 * ppu)
                    fail("coords", "the boundary point of detector " + std::to_string(a) + " is not five units away: " + where);
                for (int b = 0; b < a; b++) {
                    auto flat = [&](int k) {
                        std::vector<double> v = given[k];
                        if (v.empty())
                            v = {(double)k, 0};
                        if (v.size() == 1)
                            v.push_back(0);
                        v.resize(std::max<size_t>(v.size(), 5), 0);
                        return v;
                    };
                    auto va = flat(a), vb = flat(b);
                    bool comparable = true;
                    for (int j = 2; j < 5; j++)
                        comparable &= va[j] == vb[j];
                    if (comparable && (std::abs(c[a].first - c[b].first - ppu * (va[0] - vb[0])) > 1e-2 * ppu ||
                                       std::abs(c[a].second - c[b].second - ppu * (va[1] - vb[1])) > 1e-2 * ppu))
                        fail("coords", "detectors " + std::to_string(a) + " and " + std::to_string(b) +
                                           " are not placed as their coordinates say: " + where);
                }
            }
            syn = r.chance(0.5) ? gen_syndrome(r, g) : gen_error_syndrome(r, g, 0.4);
            std::sort(syn.begin(), syn.end());
        }
        MatchOracle mo(g);
        bool feas = mo.feasible(syn);
        // Event times of this decode, to choose how often to draw.
        i64 end_time = 0;
        {
            auto m = make();
            m.flooder.queue.cur_time = 0;
            for (auto e : syn)
                m.create_detection_event(&m.flooder.graph.nodes[e]);
            while (true) {
                auto ev = m.flooder.run_until_next_mwpm_notification();
                if (ev.event_type == pm::NO_EVENT)
                    break;
                m.process_event(ev);
            }
            end_time = m.flooder.queue.cur_time;
        }
        size_t fpe = pick_frames(r), fs = pick_frames(r), fe = pick_frames(r);
        size_t growth = r.chance(0.3) ? 0 : (size_t)(end_time / (i64)r.range(1, 12) + r.range(1, 3));
        if (cli && growth > 1000000)
            growth = 1000000;
        std::string ctx = std::string(cli ? "animate dem={" + demtext + "}" : g.str()) + " events=" + vstr(syn) + " frames per event " +
                          std::to_string(fpe) + " start " + std::to_string(fs) + " end " + std::to_string(fe) + " growth " + std::to_string(growth);
        note(ctx);
        bool threw = false;
        int rc = 0;
        std::string why;
        bool missing = false;
        pm::Mwpm anim = make();
        if (cli) {
            std::string fd = base + "/model.dem", fi = base + "/shot";
            write_file(fd, demtext);
            std::string shot, tail;
            bool app = r.chance(0.3);
            for (int k = 0; k < g.n; k++)
                shot.push_back(std::count(syn.begin(), syn.end(), (u64)k) ? '1' : '0');
            for (int k = 0; app && k < g.nobs; k++)
                shot.push_back(r.chance(0.5) ? '1' : '0');
            bool empty = r.chance(0.03);
            write_file(fi, empty ? "" : shot + "\n" + (r.chance(0.3) ? std::string(shot.size(), '0') + "\n" : ""));
            std::vector<std::vector<std::string>> parts = {
                {"--dets_in", fi}, {"--dets_in_format", "01"}, {"--dem_in", fd}, {"--out_dir", dir + (r.chance(0.5) ? "/" : "")},
                {"--held_frames_per_event", std::to_string(fpe)}, {"--held_frames_at_start", std::to_string(fs)},
                {"--held_frames_at_end", std::to_string(fe)}, {"--max_growth_between_frames", std::to_string(growth)},
                {"--pixels_per_unit_length", std::to_string(ppu)}, {"--quiet"}};
            if (app)
                parts.push_back({"--dets_in_includes_appended_observables"});
            if (r.chance(0.04)) {
                missing = true;
                parts.erase(parts.begin() + r.below(9));
            }
            missing |= empty;
            for (size_t k = parts.size(); k > 1; k--)
                std::swap(parts[k - 1], parts[r.below(k)]);
            std::vector<std::string> args = {"pymatching", "animate"};
            for (auto &q : parts)
                for (auto &a : q)
                    args.push_back(a);
            std::vector<const char *> av;
            for (auto &a : args)
                av.push_back(a.c_str());
            if (r.chance(0.5))
                mkdir(dir.c_str(), 0755);
            // What the tool says on refusal does not belong into the log.
            fflush(stderr);
            int saved = dup(2), nul = open("/dev/null", O_WRONLY);
            dup2(nul, 2);
            close(nul);
            try {
                rc = pm::main((int)av.size(), av.data());
            } catch (const std::invalid_argument &e) {
                threw = true;
                why = e.what();
            }
            dup2(saved, 2);
            close(saved);
        } else {
            mkdir(dir.c_str(), 0755);
            std::vector<uint64_t> ev(syn.begin(), syn.end());
            try {
                pm::write_animated_decoding_svg_frames(anim, c, bc, ev, dir + "/", false, fpe, fs, fe, growth);
            } catch (const std::invalid_argument &e) {
                threw = true;
                why = e.what();
            }
        }
        for (int f = keep; f < keep + 16; f++) {
            char to[4096];
            ssize_t len = readlink(("/proc/self/fd/" + std::to_string(f)).c_str(), to, sizeof to);
            if (len > (ssize_t)base.size() && !memcmp(to, base.data(), base.size())) {
                close(f);
                fail("open", "the call left " + std::string(to, len) + " open: " + ctx);
            }
        }
        evaluated();
        if (missing || !feas) {
            if (!threw && rc == 0)
                fail("accepted", missing ? "an incomplete call was accepted: " + ctx : "a shot that cannot be matched was accepted: " + ctx);
            vh::count(missing ? "incomplete calls refused" : "unmatchable shots refused");
            clear_dir(dir);
            return;
        }
        if (threw || rc)
            fail("failed", "the animation failed (" + why + "): " + ctx);
        auto files = list_dir(dir);
        auto m = make();
        Checker ch{m, g, c, bc, syn, dir, ctx};
        m.flooder.queue.cur_time = 0;
        for (auto e : syn)
            m.create_detection_event(&m.flooder.graph.nodes[e]);
        for (size_t k = 0; k < fs; k++)
            ch.check(0, pm::MwpmEvent::no_event());
        auto done = [&]() {
            return m.node_arena.allocated.size() == m.node_arena.available.size();
        };
        i64 next = (i64)growth;
        bool drew = false;
        u64 nev = 0;
        while (!done()) {
            auto t = m.flooder.dequeue_valid();
            if (t.tentative_event_type == pm::NO_FLOOD_CHECK_EVENT)
                fail("stuck", "the decoder stopped before everything was matched: " + ctx);
            i64 cur = m.flooder.queue.cur_time;
            while ((drew || growth) && cur > next) {
                ch.check(next, pm::MwpmEvent::no_event());
                ch.seen["growth frames"]++;
                next += (i64)growth;
                drew = false;
            }
            auto ev = m.flooder.process_tentative_event_returning_mwpm_event(t);
            if (ev.event_type == pm::NO_EVENT)
                continue;
            nev++;
            for (size_t k = 0; k < fpe; k++) {
                ch.check(cur, ev);
                next = cur;
                drew = true;
            }
            m.process_event(ev);
        }
        for (size_t k = 0; k < fe; k++)
            ch.check(m.flooder.queue.cur_time, pm::MwpmEvent::no_event());
        if (files.size() != ch.frame)
            fail("count", std::to_string(files.size()) + " files written instead of " + std::to_string(ch.frame) + " frames: " + ctx);
        if (!cli) {
            // What the animated decoder ended with.
            i64 w = 0;
            for (auto e : syn) {
                auto *reg = anim.flooder.graph.nodes[e].region_that_arrived_top;
                if (reg) {
                    auto res = anim.shatter_blossom_and_extract_matches(reg);
                    w += res.weight;
                }
            }
            if (w != mo.min_weight(syn))
                fail("weight", "the animated decode ends with weight " + std::to_string(w) + " instead of " + std::to_string(mo.min_weight(syn)) + ": " + ctx);
        }
        for (auto &kv : ch.seen)
            vh::count(kv.first, kv.second);
        vh::count("cluster extents compared", ch.polygons);
        vh::count("frames with blossoms", ch.blossom_frames);
        vh::count("frames with trees", ch.tree_frames);
        vh::count("events", nev);
        vh::count(cli ? "runs of the command" : "runs of the library function");
        evaluated(ch.frame);
        if (syn.size() >= 2 && ch.frame) {
            u64 h = mix(g.hash(), fpe * 1000 + fs * 100 + fe * 10);
            for (auto e : syn)
                h = mix(h, e);
            nontrivial(mix(h, growth));
        }
        if (idx < 60 && syn.size() >= 2)
            sample(g.family + " n=" + std::to_string(g.n) + " events=" + std::to_string(syn.size()) + " matching events=" +
                   std::to_string(nev) + " frames=" + std::to_string(ch.frame) + " end time=" + std::to_string(end_time));
        clear_dir(dir);
    });
}
