// Event-by-event monitor of a decode in progress: what the flooding state and the matching structure must look like.
// The graph, shortest distances and observable masks come from the harness's own model of the graph.
#ifndef VERIF_INV_H
#define VERIF_INV_H
#include "pmh.h"
#include "pymatching/sparse_blossom/flooder/graph_fill_region.h"
#include "pymatching/sparse_blossom/matcher/alternating_tree.h"

namespace vh {

// Shortest length of a walk from a source to (node, observable mask); node n is the boundary.
struct WalkTable {
    int n, K;
    std::vector<i64> d;
    void build(const Graph &g, int src) {
        n = g.n;
        K = 1 << g.nobs;
        d.assign((size_t)(n + 1) * K, INF);
        std::vector<std::vector<std::tuple<int, i64, int>>> adj(n);
        for (auto &e : g.edges) {
            int m = 0;
            for (auto o : e.obs)
                m ^= 1 << o;
            i64 w = 2 * std::abs(e.w);
            int v = e.v < 0 ? n : e.v;
            adj[e.u].push_back({v, w, m});
            if (v < n)
                adj[v].push_back({e.u, w, m});
        }
        typedef std::pair<i64, int> P;
        std::priority_queue<P, std::vector<P>, std::greater<P>> q;
        d[(size_t)src * K] = 0;
        q.push({0, src * K});
        while (!q.empty()) {
            auto [x, s] = q.top();
            q.pop();
            if (x > d[s])
                continue;
            int u = s / K, m = s % K;
            if (u == n)
                continue;
            for (auto &[v, w, mm] : adj[u]) {
                int t = v * K + (m ^ mm);
                if (x + w < d[t]) {
                    d[t] = x + w;
                    q.push({d[t], t});
                }
            }
        }
    }
    i64 at(int node, u64 mask) const {
        if (mask >= (u64)K)
            return INF;
        return d[(size_t)node * K + mask];
    }
};

struct Monitor {
    const Graph &g;
    pm::Mwpm &m;
    std::vector<int> events;
    std::map<int, WalkTable> walks;
    i64 last_time = 0;
    u64 steps = 0, blossoms_seen = 0, max_depth = 0, tree_depth = 0, shatters = 0;
    std::string ctx;

    Monitor(const Graph &g, pm::Mwpm &m, const std::vector<u64> &ev, const std::string &ctx) : g(g), m(m), ctx(ctx) {
        for (auto e : ev) {
            events.push_back((int)e);
            walks[(int)e].build(g, (int)e);
        }
    }
    int id(const pm::DetectorNode *p) const {
        if (!p)
            return g.n;
        i64 k = p - &m.flooder.graph.nodes[0];
        if (k < 0 || k >= g.n)
            bad("pointer", "a recorded node is not a node of the graph");
        return (int)k;
    }
    [[noreturn]] void bad(const std::string &key, const std::string &msg) const {
        throw Violation(key, msg + " at time " + std::to_string(m.flooder.queue.cur_time) + " after " + std::to_string(steps) +
                                 " steps: " + ctx);
    }
    i64 now() const {
        return m.flooder.queue.cur_time;
    }
    // Total radius of everything from region r up to and including region `upto`.
    i64 chain_radius(const pm::GraphFillRegion *r, const pm::GraphFillRegion *upto) const {
        i64 tot = 0;
        int guard = 0;
        while (r) {
            tot += r->radius.get_distance_at_time(now());
            if (r == upto)
                return tot;
            r = r->blossom_parent;
            if (++guard > 10000)
                bad("owner", "cluster nesting does not end");
        }
        bad("owner", "a cluster is not inside the cluster it should be in");
    }
    static const pm::GraphFillRegion *top_of(const pm::GraphFillRegion *r) {
        while (r->blossom_parent)
            r = r->blossom_parent;
        return r;
    }
    // How far ownership extends past node v, recomputed from the cluster nesting.
    i64 local(const pm::DetectorNode &v) const {
        if (!v.region_that_arrived)
            return 0;
        return chain_radius(v.region_that_arrived, top_of(v.region_that_arrived)) - v.radius_of_arrival;
    }

    // ---------------------------------------------------------------- C22
    void flooding() {
        auto &nodes = m.flooder.graph.nodes;
        if (now() < last_time)
            bad("time", "simulated time went from " + std::to_string(last_time) + " backwards");
        last_time = now();
        std::vector<i64> lr(g.n, 0);
        std::vector<const pm::GraphFillRegion *> top(g.n, nullptr);
        std::set<const pm::GraphFillRegion *> regions;
        for (int i = 0; i < g.n; i++) {
            auto &v = nodes[i];
            if (!v.region_that_arrived) {
                if (v.region_that_arrived_top || v.reached_from_source)
                    bad("owner", "node " + std::to_string(i) + " has no owner but is marked as reached");
                continue;
            }
            top[i] = top_of(v.region_that_arrived);
            for (const pm::GraphFillRegion *r = v.region_that_arrived; r; r = r->blossom_parent) {
                regions.insert(r);
                if (r->blossom_parent_top != top[i])
                    bad("owner", "a cluster's recorded outermost cluster is not its outermost cluster");
            }
            if (v.region_that_arrived_top != top[i])
                bad("owner", "node " + std::to_string(i) + "'s recorded outermost owner is not its outermost owner");
            lr[i] = local(v);
            if (v.local_radius().get_distance_at_time(now()) != lr[i])
                bad("radius", "node " + std::to_string(i) + "'s recorded local radius " +
                                  std::to_string(v.local_radius().get_distance_at_time(now())) + " is not " + std::to_string(lr[i]));
            if (lr[i] < 0)
                bad("radius", "node " + std::to_string(i) + " is still owned although its cluster has receded past it");
            // source
            const pm::DetectorNode *s = v.reached_from_source;
            int si = id(s);
            if (!walks.count(si))
                bad("source", "node " + std::to_string(i) + "'s source is not a detection event");
            if (!s->region_that_arrived || top_of(s->region_that_arrived) != top[i])
                bad("source", "node " + std::to_string(i) + "'s source is in another cluster");
            i64 dist = local(*s) - lr[i];
            i64 want = walks[si].at(i, v.observables_crossed_from_source);
            if (want != dist)
                bad("source", "node " + std::to_string(i) + " was reached from event " + std::to_string(si) + " over distance " +
                                  std::to_string(dist) + " crossing observables " +
                                  std::to_string(v.observables_crossed_from_source) + ", but the shortest such path has length " +
                                  std::to_string(want));
        }
        // shell areas partition the owned nodes
        std::map<const pm::DetectorNode *, int> in_shell;
        for (auto *r : regions)
            for (auto *v : r->shell_area) {
                in_shell[v]++;
                if (v->region_that_arrived != r)
                    bad("shell", "a cluster lists node " + std::to_string(id(v)) + " that it does not own");
            }
        for (int i = 0; i < g.n; i++)
            if (top[i] && in_shell[&nodes[i]] != 1)
                bad("shell", "node " + std::to_string(i) + " is listed " + std::to_string(in_shell[&nodes[i]]) + " times by its owner");
        // Nodes leave in the reverse order of arrival.
        for (auto *r : regions)
            for (size_t k = 1; k < r->shell_area.size(); k++)
                if (r->shell_area[k]->radius_of_arrival < r->shell_area[k - 1]->radius_of_arrival)
                    bad("shell", "a cluster's nodes are not in order of arrival");
        // coverage of edges
        for (auto &e : g.edges) {
            i64 w = 2 * std::abs(e.w);
            if (e.v < 0) {
                if (top[e.u] && lr[e.u] > w)
                    bad("coverage", "boundary edge at " + std::to_string(e.u) + " of length " + std::to_string(w) + " is covered " +
                                        std::to_string(lr[e.u]));
            } else if (top[e.u] != top[e.v]) {
                if (lr[e.u] + lr[e.v] > w)
                    bad("coverage", "edge " + std::to_string(e.u) + "-" + std::to_string(e.v) + " of length " + std::to_string(w) +
                                        " is covered " + std::to_string(lr[e.u]) + "+" + std::to_string(lr[e.v]));
            }
            evaluated();
        }
        evaluated(g.n);
    }
    // Called when the flooder says that nothing more will happen.
    void flooding_end() {
        for (auto &e : g.edges) {
            auto &u = m.flooder.graph.nodes[e.u];
            auto grows = [&](const pm::DetectorNode &x) {
                return x.region_that_arrived && top_of(x.region_that_arrived)->radius.is_growing();
            };
            auto shrinks = [&](const pm::DetectorNode &x) {
                return x.region_that_arrived && top_of(x.region_that_arrived)->radius.is_shrinking();
            };
            if (e.v < 0) {
                if (grows(u))
                    bad("missed", "the queue ran dry while a cluster grows towards the boundary at node " + std::to_string(e.u));
            } else {
                auto &v = m.flooder.graph.nodes[e.v];
                bool same = u.region_that_arrived && v.region_that_arrived &&
                            top_of(u.region_that_arrived) == top_of(v.region_that_arrived);
                if (!same && ((grows(u) && !shrinks(v)) || (grows(v) && !shrinks(u))))
                    bad("missed", "the queue ran dry while a cluster grows along edge " + std::to_string(e.u) + "-" + std::to_string(e.v));
            }
        }
        for (auto ev : events) {
            auto &x = m.flooder.graph.nodes[ev];
            if (x.region_that_arrived && top_of(x.region_that_arrived)->radius.is_shrinking())
                bad("missed", "the queue ran dry while the cluster of event " + std::to_string(ev) + " shrinks");
        }
        evaluated();
    }

    // ---------------------------------------------------------------- C23
    void edge_between(const pm::CompressedEdge &e, const pm::GraphFillRegion *a, const pm::GraphFillRegion *b, const char *what) {
        int f = id(e.loc_from), t = id(e.loc_to);
        if (!walks.count(f))
            bad("edge-end", std::string(what) + " starts at node " + std::to_string(f) + ", which is not a detection event");
        if (b ? !walks.count(t) : t != g.n)
            bad("edge-end", std::string(what) + " ends at the wrong kind of node");
        auto inside = [&](const pm::DetectorNode *x, const pm::GraphFillRegion *r) {
            for (const pm::GraphFillRegion *q = x->region_that_arrived; q; q = q->blossom_parent)
                if (q == r)
                    return true;
            return false;
        };
        if (!inside(e.loc_from, a))
            bad("edge-end", std::string(what) + " starts at event " + std::to_string(f) + ", which is not in its first cluster");
        if (b && !inside(e.loc_to, b))
            bad("edge-end", std::string(what) + " ends at event " + std::to_string(t) + ", which is not in its second cluster");
        i64 len = chain_radius(e.loc_from->region_that_arrived, a) + (b ? chain_radius(e.loc_to->region_that_arrived, b) : 0);
        i64 want = walks[f].at(t, e.obs_mask);
        if (want != len)
            bad("edge-path", std::string(what) + " " + std::to_string(f) + "-" + (b ? std::to_string(t) : "boundary") + " covers distance " +
                                 std::to_string(len) + " crossing observables " + std::to_string(e.obs_mask) +
                                 ", but the shortest such path has length " + std::to_string(want));
        evaluated();
    }
    void cluster(const pm::GraphFillRegion *r, std::set<const pm::GraphFillRegion *> &seen, std::map<int, int> &ev, u64 depth) {
        if (!seen.insert(r).second)
            bad("blossom", "a cluster occurs twice in the nesting");
        max_depth = std::max(max_depth, depth);
        if (r->blossom_children.empty()) {
            int n_ev = 0;
            for (auto *v : r->shell_area)
                if (walks.count(id(v)) && v->reached_from_source == v) {
                    ev[id(v)]++;
                    n_ev++;
                }
            if (n_ev != 1)
                bad("blossom", "an elementary cluster holds " + std::to_string(n_ev) + " detection events");
            return;
        }
        blossoms_seen++;
        size_t k = r->blossom_children.size();
        if (k % 2 == 0 || k < 3)
            bad("blossom", "a blossom has " + std::to_string(k) + " children");
        for (size_t i = 0; i < k; i++) {
            auto &c = r->blossom_children[i];
            if (c.region->blossom_parent != r)
                bad("blossom", "a blossom's child has another parent");
            if (!c.region->radius.is_frozen())
                bad("blossom", "a blossom's child is not frozen");
            edge_between(c.edge, c.region, r->blossom_children[(i + 1) % k].region, "blossom cycle edge");
            cluster(c.region, seen, ev, depth + 1);
        }
    }
    void structure(bool finished) {
        auto &nodes = m.flooder.graph.nodes;
        std::set<const pm::GraphFillRegion *> tops;
        for (auto e : events) {
            auto &x = nodes[e];
            if (!x.region_that_arrived || x.reached_from_source != &x)
                bad("event", "detection event " + std::to_string(e) + " is not the source of its own territory");
            tops.insert(top_of(x.region_that_arrived));
        }
        std::set<const pm::GraphFillRegion *> seen;
        std::map<int, int> ev;
        for (auto *t : tops)
            cluster(t, seen, ev, 0);
        for (auto e : events)
            if (ev[e] != 1)
                bad("event", "detection event " + std::to_string(e) + " is in " + std::to_string(ev[e]) + " elementary clusters");
        std::set<const pm::AltTreeNode *> tree_nodes, roots;
        for (auto *t : tops) {
            if (t->alt_tree_node) {
                const pm::AltTreeNode *a = t->alt_tree_node;
                if (a->outer_region == t) {
                    if (!t->radius.is_growing())
                        bad("tree", "an outer cluster does not grow");
                } else if (a->inner_region == t) {
                    if (!t->radius.is_shrinking())
                        bad("tree", "an inner cluster does not shrink");
                } else {
                    bad("tree", "a cluster's tree node does not hold it");
                }
                tree_nodes.insert(a);
                int guard = 0;
                while (a->parent.alt_tree_node) {
                    a = a->parent.alt_tree_node;
                    if (++guard > 100000)
                        bad("tree", "a tree has no root");
                }
                roots.insert(a);
                tree_depth = std::max<u64>(tree_depth, guard);
            } else {
                if (!t->radius.is_frozen())
                    bad("match", "a matched cluster is not frozen");
                const pm::GraphFillRegion *p = t->match.region;
                if (p) {
                    if (!tops.count(p))
                        bad("match", "a cluster is matched to something that is not an outermost cluster");
                    if (p == t)
                        bad("match", "a cluster is matched to itself");
                    if (p->alt_tree_node)
                        bad("match", "a cluster is matched to a cluster that is in a tree");
                    if (p->match.region != t)
                        bad("match", "a match is not symmetric");
                    if (p->match.edge.loc_from != t->match.edge.loc_to || p->match.edge.loc_to != t->match.edge.loc_from ||
                        p->match.edge.obs_mask != t->match.edge.obs_mask)
                        bad("match", "the two sides of a match record different paths");
                }
                edge_between(t->match.edge, t, p, "match");
            }
            evaluated();
        }
        // trees
        std::set<const pm::AltTreeNode *> reached;
        std::function<void(const pm::AltTreeNode *)> walk = [&](const pm::AltTreeNode *a) {
            if (!reached.insert(a).second)
                bad("tree", "a tree node has two parents");
            if (!tree_nodes.count(a))
                bad("tree", "a tree contains a node none of whose clusters is an outermost cluster");
            if (!a->outer_region || a->outer_region->alt_tree_node != a || !tops.count(a->outer_region))
                bad("tree", "a tree node's outer cluster does not belong to it");
            if (a->inner_region) {
                if (a->inner_region->alt_tree_node != a || !tops.count(a->inner_region))
                    bad("tree", "a tree node's inner cluster does not belong to it");
                if (!a->parent.alt_tree_node)
                    bad("tree", "a root has an inner cluster");
                edge_between(a->inner_to_outer_edge, a->inner_region, a->outer_region, "inner-to-outer edge");
            } else if (a->parent.alt_tree_node) {
                bad("tree", "a non-root tree node has no inner cluster");
            }
            for (auto &c : a->children) {
                auto *b = c.alt_tree_node;
                if (b->parent.alt_tree_node != a)
                    bad("tree", "a child does not name its parent");
                if (b->parent.edge.loc_from != c.edge.loc_to || b->parent.edge.loc_to != c.edge.loc_from ||
                    b->parent.edge.obs_mask != c.edge.obs_mask)
                    bad("tree", "parent and child record different paths");
                if (!b->inner_region)
                    bad("tree", "a child has no inner cluster");
                edge_between(c.edge, a->outer_region, b->inner_region, "tree edge");
                walk(b);
            }
            evaluated();
        };
        for (auto *a : roots)
            walk(a);
        if (reached.size() != tree_nodes.size())
            bad("tree", "a tree node is not listed by its parent");
        // nothing lost
        i64 live_regions = (i64)m.flooder.region_arena.allocated.size() - (i64)m.flooder.region_arena.available.size();
        i64 live_nodes = (i64)m.node_arena.allocated.size() - (i64)m.node_arena.available.size();
        if (live_regions != (i64)seen.size())
            bad("lost", std::to_string(live_regions) + " clusters are allocated, " + std::to_string(seen.size()) + " are in use");
        if (live_nodes != (i64)tree_nodes.size())
            bad("lost", std::to_string(live_nodes) + " tree nodes are allocated, " + std::to_string(tree_nodes.size()) + " are in use");
        if (finished && !roots.empty())
            bad("unfinished", "decoding ended with an alternating tree left");
        evaluated();
    }
};

}  // namespace vh
#endif
