"""linguistic graphs"""
import string

from hypothesis import strategies as st

from core import Test, check, same
from props.C04 import Model, expected, items, key

RULE = ("histories building rooted, labelled graphs (trees, shared and cyclic structures, "
        "punctuation, empty nodes, node ids that are false) with token, label and root "
        "updates, followed by terminal and yield queries; every accessor compared with a "
        "model after every step; non-trivial: a yield of at least two terminals, or of a graph "
        "with a re-entrant node, was compared")
NODES = [0, 1, 2, "", "n1", "n2", "n3"]
TOKENS = ["de", "man", ",", ".", "(", "caf\u00e9", "a.b", "'s", "-de", "de-"]


def srt(xs):
    return sorted(xs, key=key)


class Graph(Model):
    def empty(self, n):
        return not self.node[n]["tokens"]

    def punct(self, n):
        t = self.node[n]["tokens"]
        return bool(t) and all(len(x) == 1 and x in string.punctuation for x in t)

    def terminal(self, n, with_punct, with_empty):
        return not self.adj[n] and (with_punct or not self.punct(n)) \
            and (with_empty or not self.empty(n))

    def term_yield(self, n, *flags):
        seen, out = set(), []

        def visit(v):
            seen.add(v)
            if self.terminal(v, *flags):
                out.append(v)
            for x in self.adj[v]:
                if x not in seen:
                    visit(x)

        visit(n)
        return out


def run_history(case, w):
    r = w.call("graphs.daeso", **case)
    m = Graph()
    gid, tokens, root = (list(case["init"]) + [None] * 3)[:3]
    labels = set()
    for i, (op, (res, o)) in enumerate(zip(case["ops"], r["trace"])):
        where = "step %d %r" % (i, op)
        want = None
        kind = op[0]
        if kind == "node":
            args = list(op[1]) + [None]
            at = dict(op[2])
            toks = at.pop("tokens", None) or args[2] or []
            m.add_node(args[0], dict(at, label=args[1], tokens=toks))
        elif kind == "noded":
            m.add_node(op[1], dict(case["pool"][op[4]], label=op[2], tokens=op[3] or []))
        elif kind == "nodes":
            want = True
        elif kind in ("edge", "edged"):
            if kind == "edge":
                (u, v), at = op[1][:2], dict(op[2])
                at["label"] = op[1][2] if len(op[1]) > 2 else at.get("label")
            else:
                u, v = op[1], op[2]
                at = dict(case["pool"][op[4]], label=op[3])
            if u in m.node and v in m.node:
                m.add_edge(u, v, at)
            else:
                want = "exc:ValueError"
        elif kind == "edges":
            at = dict(op[2])
            at.setdefault("label", None)
            for e in op[1]:
                if e[0] not in m.node or e[1] not in m.node:
                    want = "exc:ValueError"
                    break
                m.add_edge(e[0], e[1], dict(at, **(e[2] if len(e) > 2 else {})))
        elif kind in ("settok", "settokstr"):
            if op[1] in m.node:
                m.node[op[1]]["tokens"] = op[2] if kind == "settok" else op[2].split(" ")
            else:
                want = "exc:KeyError"
        elif kind == "setedge":
            if (op[1], op[2]) in m.data:
                m.data[op[1], op[2]][op[3]] = op[4]
            else:
                want = "exc:KeyError"
        elif kind == "gtokstr":
            tokens = op[1].split()
        elif kind == "root":
            root = op[1]
        elif kind == "rmnode":
            want = None if m.rm_node(op[1]) else "exc:NetworkXError"
        elif kind == "rmedge":
            want = None if m.rm_edge(op[1], op[2]) else "exc:NetworkXError"
        elif kind in ("badedge", "badedges"):
            if kind == "badedge" and not (op[1] in m.node and op[2] in m.node):
                want = "exc:ValueError"
            else:
                want = "exc:NetworkXError"
        elif kind == "yield":
            n = op[1][0] if op[1] and op[1][0] is not None else root
            if n not in m.node:
                check(isinstance(res, str) and res.startswith("exc:"),
                      "%s: yield of an absent node is %r", where, res)
                want = res
            else:
                f = [op[2].get("with_punct", True), op[2].get("with_empty", True)]
                if len(op[1]) > 1:
                    f[0] = op[1][1]
                want = m.term_yield(n, *f)
                if len(want) > 1 or any(len(p) > 1 for p in m.pred.values()):
                    labels.add("nontrivial")
                if any(len(p) > 1 for p in m.pred.values()):
                    labels.add("re-entrant")
        same(res, want, where + ": result")
        e = expected(m)
        for k in e:
            got = o[k]
            if k in ("nodes", "succ", "pred", "predattr", "deg"):
                got = sorted(got, key=lambda x: key(x[0]))
            same(got, e[k], "%s: %s" % (where, k))
        order = srt(m.node)
        bynode = {k: {x[0]: x[1:] for x in o[k]} for k in ("tokens", "nodeflags")}
        for n in order:
            t = m.node[n]["tokens"]
            same(bynode["tokens"][n], [t, None if t is None else " ".join(t)],
                 "%s: tokens of %r" % (where, n))
            same(bynode["nodeflags"][n], [m.empty(n), m.punct(n), bool(m.adj[n])],
                 "%s: empty/punct/non-terminal of %r" % (where, n))
        same(o["graph"], [gid, tokens, None if tokens is None else " ".join(tokens), root, False],
             where + ": id, tokens, token string, root, failed parse")
        flags = [(a, b) for a in (True, False) for b in (True, False)]
        for what in ("terms", "terms2", "terms3", "terms4"):
            for f, got in zip(flags, o[what]):
                same(srt(got), srt(n for n in m.node if m.terminal(n, *f)),
                     "%s: terminals %r" % (where, f))
        for got in o["nonterms"]:
            same(srt(got), srt(n for n in m.node if m.adj[n]), where + ": non-terminals")
    for got, want in zip(r["pool"], case["pool"]):
        same(got, items(want), "attribute dict handed in by the caller")
    return labels


node = st.sampled_from(NODES)
label = st.sampled_from(["NP", "VP", "N", None])
tok = st.one_of(st.none(), st.lists(st.sampled_from(TOKENS), max_size=3))
attrs = st.dictionaries(st.sampled_from(["x", "y"]), st.integers(0, 5), max_size=2)
lattrs = st.one_of(attrs, st.fixed_dictionaries({"label": label, "x": st.integers(0, 3)}))
pi = st.integers(0, 1)
edge = st.one_of(st.tuples(node, node), st.tuples(node, node, lattrs))
flag = st.dictionaries(st.sampled_from(["with_punct", "with_empty"]), st.booleans())
add = st.one_of(
    st.tuples(st.just("node"), st.tuples(node, label, tok), attrs),
    st.tuples(st.just("node"), st.tuples(node, label),
              st.fixed_dictionaries({"tokens": tok})),
    st.tuples(st.just("noded"), node, label, tok, pi))
connect = st.one_of(
    st.tuples(st.just("edge"), st.tuples(node, node, label), attrs),
    st.tuples(st.just("edge"), st.tuples(node, node), lattrs),
    st.tuples(st.just("edged"), node, node, label, pi),
    st.tuples(st.just("edges"), st.lists(edge, max_size=4), lattrs))
query = st.one_of(
    st.tuples(st.just("yield"), st.one_of(st.just([]), st.tuples(st.one_of(st.none(), node))),
              flag),
    st.tuples(st.just("yield"), st.tuples(node, st.booleans()),
              st.just({"with_empty": False})))
other = st.one_of(
    st.tuples(st.just("settok"), node, tok),
    st.tuples(st.just("settokstr"), node, st.sampled_from(["de man", "de", ". ,", "a  b"])),
    st.tuples(st.just("gtokstr"), st.sampled_from(["de man ", " a\n b", "", "x"])),
    st.tuples(st.just("root"), st.one_of(st.none(), node)),
    st.tuples(st.just("rmnode"), node),
    st.tuples(st.just("rmedge"), node, node),
    st.tuples(st.just("setedge"), node, node, st.sampled_from(["x", "label"]), st.integers(0, 9)),
    st.tuples(st.just("nodes"), st.lists(node, max_size=2)),
    st.tuples(st.just("badedge"), node, node),
    st.just(("badedges",)))


@st.composite
def histories(draw):
    ops = draw(st.lists(add, min_size=1, max_size=8))
    nodes = sorted({o[1][0] if o[0] == "node" else o[1] for o in ops}, key=key)
    known = st.sampled_from(nodes)
    for _ in range(draw(st.integers(0, 10))):
        ops.append(["edge", [draw(known), draw(known), draw(label)], {}])
    made = [o[1][:2] for o in ops if o[0] == "edge"]
    for u, v in made[:draw(st.integers(0, 2))]:
        ops.append(["setedge", u, v, "x", draw(st.integers(0, 9))])
    ops += draw(st.lists(st.one_of(add, connect, query, query, other), max_size=12))
    for n in draw(st.permutations(nodes))[:4]:
        ops.append(["yield", [n], draw(flag)])
    init = draw(st.sampled_from([[], ["g1"], ["g1", ["a", "b"]], ["g1", ["a"], 0],
                                 [None, None, "n1"]]))
    return {"pool": [draw(attrs), draw(attrs)], "init": init, "ops": ops}


@st.composite
def shared(draw):
    """re-entrant graphs, now and then with a cycle, queried at every node"""
    n = draw(st.integers(4, len(NODES)))
    nodes = list(draw(st.permutations(NODES)))[:n]
    ops = [["node", [x, "L", draw(st.sampled_from([["a"], ["b"], ["."], ["c", ","], []]))], {}]
           for x in nodes]
    order = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)),
                          min_size=n, max_size=3 * n))
    back = draw(st.integers(0, 3)) == 0
    ops.append(["edges", [[nodes[i if back else min(i, j)], nodes[j if back else max(i, j)]]
                          for i, j in order if back or i != j], {}])
    ops.append(["root", nodes[0]])
    ops += [["yield", [x], {}] for x in nodes]
    ops += [["yield", [], {"with_punct": False}], ["yield", [], {"with_empty": False}]]
    return {"pool": [{}, {}], "init": ["g1"], "ops": ops}


TESTS = [Test("history", histories(), run_history, 2400),
         Test("shared", shared(), run_history, 900)]
