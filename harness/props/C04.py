"""ordered directed graphs"""
from hypothesis import strategies as st

from core import Test, check, same

RULE = ("histories of up to 30 node/edge additions, updates and removals, attribute writes, "
        "copies, subgraphs, reversals in place and conversions on ordered digraphs, with attribute dicts handed in "
        "repeatedly, compared with a model of ordered adjacency lists after every step; "
        "non-trivial: some node has several successors or predecessors and the history "
        "removes or updates an edge, or copies")

NODES = [0, 1, 2, 3, "a", "b"]


class Model(object):
    def __init__(self):
        self.node = {}          # node -> attrs
        self.adj = {}           # ordered: u -> ordered list of v
        self.pred = {}
        self.data = {}          # (u, v) -> attrs

    def sub(self, nodes):
        """shares its attributes with the whole"""
        m = Model()
        for n in self.adj:
            if n in nodes:
                m.node[n] = self.node[n]
                m.adj[n] = [v for v in self.adj[n] if v in nodes]
                m.pred[n] = [u for u in self.pred[n] if u in nodes]
        m.data = {e: d for e, d in self.data.items() if set(e) <= set(nodes)}
        return m

    def flip(self):
        self.adj, self.pred = self.pred, self.adj
        self.data = {(v, u): d for (u, v), d in self.data.items()}

    def copy(self):
        m = Model()
        m.node = {n: dict(d) for n, d in self.node.items()}
        m.adj = {n: list(v) for n, v in self.adj.items()}
        m.pred = {n: list(v) for n, v in self.pred.items()}
        m.data = {e: dict(d) for e, d in self.data.items()}
        return m

    def add_node(self, n, attrs):
        if n not in self.node:
            self.node[n] = {}
            self.adj[n] = []
            self.pred[n] = []
        self.node[n].update(attrs)

    def add_edge(self, u, v, attrs):
        self.add_node(u, {})
        self.add_node(v, {})
        if (u, v) not in self.data:
            self.adj[u].append(v)
            self.pred[v].append(u)
            self.data[u, v] = {}
        self.data[u, v].update(attrs)

    def rm_edge(self, u, v):
        if (u, v) not in self.data:
            return False
        del self.data[u, v]
        self.adj[u].remove(v)
        self.pred[v].remove(u)
        return True

    def rm_node(self, n):
        if n not in self.node:
            return False
        for u, v in list(self.data):
            if n in (u, v):
                self.rm_edge(u, v)
        del self.node[n], self.adj[n], self.pred[n]
        return True


def items(d):
    return sorted([k, v] for k, v in d.items())


def key(n):
    return (isinstance(n, str), n)


def by_node(rows):
    return sorted(rows, key=lambda r: key(r[0]))


def expected(m):
    edges = [(u, v) for u in m.adj for v in m.adj[u]]
    return {"nodes": by_node([n, items(d)] for n, d in m.node.items()),
            "order": [[u, v] for u, v in edges],
            "data": [[u, v, items(m.data[u, v])] for u, v in edges],
            "succ": by_node([n, m.adj[n]] for n in m.adj),
            "pred": by_node([n, m.pred[n]] for n in m.pred),
            "predattr": by_node([v, [[u, items(m.data[u, v])] for u in m.pred[v]]]
                                for v in m.pred),
            "deg": by_node([n, len(m.pred[n]), len(m.adj[n])] for n in m.adj),
            "size": [len(m.node), len(m.node), len(edges)]}


def compare(o, m, where, skip=()):
    e = expected(m)
    for k in e:
        if k in skip:
            continue
        got = o[k]
        if k in ("nodes", "succ", "pred", "predattr", "deg"):
            got = by_node(got)
        same(got, e[k], "%s: %s" % (where, k))


def apply(m, op, pool):
    """the exception expected, or None"""
    kind = op[0]
    if kind == "node":
        m.add_node(op[1], op[2])
    elif kind == "noded":
        m.add_node(op[1], pool[op[2]])
    elif kind == "nodekw":
        m.add_node(op[1], dict(pool[op[2]], **op[3]))
    elif kind == "nodes":
        for n in op[1]:
            m.add_node(n, op[2])
    elif kind == "edge":
        m.add_edge(op[1], op[2], op[3])
    elif kind == "edged":
        m.add_edge(op[1], op[2], pool[op[3]])
    elif kind == "edgekw":
        m.add_edge(op[1], op[2], dict(pool[op[3]], **op[4]))
    elif kind in ("edges", "edgesd"):
        common = op[2] if kind == "edges" else dict(pool[op[2]], **op[3])
        for e in op[1]:
            m.add_edge(e[0], e[1], dict(common, **(e[2] if len(e) > 2 else {})))
    elif kind == "path":
        for u, v in zip(op[1], op[1][1:]):
            m.add_edge(u, v, {})
    elif kind == "rmnode":
        return None if m.rm_node(op[1]) else "NetworkXError"
    elif kind == "rmnodes":
        for n in op[1]:
            m.rm_node(n)
    elif kind == "rmedge":
        return None if m.rm_edge(op[1], op[2]) else "NetworkXError"
    elif kind == "rmedges":
        for e in op[1]:
            m.rm_edge(e[0], e[1])
    elif kind == "setnode":
        if op[1] not in m.node:
            return "KeyError"
        m.node[op[1]][op[2]] = op[3]
    elif kind == "setedge":
        if (op[1], op[2]) not in m.data:
            return "KeyError"
        m.data[op[1], op[2]][op[3]] = op[4]
    elif kind == "clear":
        m.__init__()
    elif kind == "flip":
        m.flip()
    elif kind in ("baddict", "badedge"):
        return "NetworkXError"
    return None


def run_history(case, w):
    r = w.call("graphs.ordered", **case)
    models = [Model()]
    labels = set()
    for i, (op, (res, obs)) in enumerate(zip(case["ops"], r["trace"])):
        where = "step %d %r" % (i, op)
        m = models[-1]
        old = models[-2].copy() if len(models) > 1 else None
        skip = ()
        if op[0] == "sub":
            models.append(m.sub(op[1]))
            labels.update(["copied", "sub"])
            want = None
        elif op[0] in ("copy", "new"):
            models.append(m.copy())
            labels.add("copied")
            if op[0] == "new":
                n = models[-1]
                if op[1] == "edges":
                    for x in [x for x in n.node
                              if not n.adj[x] and not n.pred[x]]:
                        n.rm_node(x)
                    for x in n.node:
                        n.node[x] = {}
                # the order of nodes and predecessors follows the data read
                fresh = Model()
                if op[1] == "graph":
                    for x in m.adj:
                        fresh.add_node(x, m.node[x])
                for u in m.adj:
                    for v in m.adj[u]:
                        fresh.add_edge(u, v, m.data[u, v])
                models[-1] = fresh
            want = None
        else:
            want = apply(m, op, case["pool"])
        same(res, want, where + ": outcome")
        for o, mm in zip(reversed(obs), reversed(models)):
            compare(o, mm, where, skip)
        if op[0] in ("rmnode", "rmedge", "setedge", "edgekw", "edged") and want is None \
                and any(len(v) > 1 for v in m.adj.values()):
            labels.update(["nontrivial", op[0]])
    if "copied" in labels and models[-1].data:
        labels.add("nontrivial")
    for got, want in zip(r["pool"], case["pool"]):
        same(got, items(want), "attribute dict handed in by the caller")
    return labels


node = st.sampled_from(NODES)
attrs = st.dictionaries(st.sampled_from(["x", "y"]), st.integers(0, 5), max_size=2)
pi = st.integers(0, 2)
edge = st.one_of(st.tuples(node, node), st.tuples(node, node, attrs))
edge2 = st.tuples(node, node)
op = st.one_of(
    st.tuples(st.just("node"), node, attrs),
    st.tuples(st.just("noded"), node, pi),
    st.tuples(st.just("nodekw"), node, pi, attrs),
    st.tuples(st.just("nodes"), st.lists(node, max_size=3), attrs),
    st.tuples(st.just("edge"), node, node, attrs),
    st.tuples(st.just("edged"), node, node, pi),
    st.tuples(st.just("edgekw"), node, node, pi, attrs),
    st.tuples(st.just("edges"), st.lists(edge, max_size=4), attrs),
    st.tuples(st.just("edgesd"), st.lists(edge, max_size=3), pi, attrs),
    st.tuples(st.just("path"), st.lists(node, min_size=1, max_size=4)),
    st.tuples(st.just("rmnode"), node),
    st.tuples(st.just("rmnodes"), st.lists(node, max_size=2)),
    st.tuples(st.just("rmedge"), node, node),
    st.tuples(st.just("rmedges"), st.lists(edge2, max_size=3)),
    st.tuples(st.just("setnode"), node, st.sampled_from("xy"), st.integers(0, 9)),
    st.tuples(st.just("setedge"), node, node, st.sampled_from("xy"), st.integers(0, 9)),
    st.tuples(st.just("sub"), st.lists(node, max_size=6)),
    st.just(("flip",)),
    st.sampled_from([("clear",), ("copy",), ("copy",), ("new", "graph"), ("new", "edges"),
                     ("baddict", 1), ("badedge",)]))
TESTS = [
    Test("history", st.integers(1, 30).flatmap(
        lambda n: st.fixed_dictionaries({
            "pool": st.lists(attrs, min_size=3, max_size=3),
            "ops": st.lists(op, min_size=n, max_size=n)})), run_history, 2400),
]
