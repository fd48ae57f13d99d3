"""Stand-in for the part of rustworkx that pymatching uses."""


class PyGraph:
    def __init__(self, multigraph=True):
        self.multigraph = multigraph
        self._nodes = []
        self._edges = []

    def __len__(self):
        return len(self._nodes)

    def __getitem__(self, i):
        return self._nodes[i]

    def __setitem__(self, i, v):
        self._nodes[i] = v

    def add_node(self, payload):
        self._nodes.append(payload)
        return len(self._nodes) - 1

    def add_nodes_from(self, payloads):
        return [self.add_node(p) for p in payloads]

    def node_indices(self):
        return list(range(len(self._nodes)))

    def add_edge(self, u, v, payload):
        if not (0 <= u < len(self._nodes) and 0 <= v < len(self._nodes)):
            raise IndexError("One of the endpoints of the edge does not exist in graph")
        if not self.multigraph:
            for k, (a, b, _) in enumerate(self._edges):
                if {a, b} == {u, v}:
                    self._edges[k] = (a, b, payload)
                    return k
        self._edges.append((u, v, payload))
        return len(self._edges) - 1

    def extend_from_weighted_edge_list(self, edges):
        for u, v, p in edges:
            while len(self._nodes) <= max(u, v):
                self._nodes.append(None)
            self.add_edge(u, v, p)

    def weighted_edge_list(self):
        return list(self._edges)
