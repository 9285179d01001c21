"""node alignments of a graph pair"""
from hypothesis import strategies as st

from core import Test, check, same

RULE = ("histories of up to 25 add/delete/filter/copy/compare operations on "
        "one-to-one and many-to-many graph pairs whose source and target node "
        "ids overlap, checked against a relation-table model after every step; "
        "independently built pairs compared; non-trivial: the history deletes "
        "or re-aligns an aligned node (or the compared pairs differ in at most one part)")
NODES = ["n0", "n1", "n2", "n3", "t1"]
RELS = ["equals", "restates", "specifies"]


def model_add(al, one, a, b, r):
    if one:
        for k in [k for k in al if k[0] == a or k[1] == b]:
            del al[k]
    al[a, b] = r


def expected(al, one, roots):
    rows = sorted([a, b, r] for (a, b), r in al.items())
    o = {"al": rows, "iter": rows, "len": len(rows),
         "nodes": sorted(n for n in NODES if any(n in k for k in al)),
         "get": [[a, b, al.get((a, b))] for a in NODES for b in NODES],
         "roots": tuple(roots) in al}
    if one:
        src = {b: a for a, b in al}
        trg = {a: b for a, b in al}
        o["src"] = [[n, src.get(n)] for n in NODES]
        o["trg"] = [[n, trg.get(n)] for n in NODES]
    return o


def run_history(case, w):
    one = case["cls"] == "GraphMatching"
    trace = w.call("align.history", nodes=NODES, **case)
    models = [{}]
    labels = set([case["cls"]])
    for i, (op, (res, obs)) in enumerate(zip(case["ops"], trace)):
        al = models[op[1] % len(models)]
        where = "step %d %r" % (i, op)
        want = None
        if op[0] == "add":
            if any(k[0] == op[2] or k[1] == op[3] for k in al):
                labels.add("nontrivial")
            model_add(al, one, *op[2:])
        elif op[0] == "del":
            if (op[2], op[3]) in al:
                del al[op[2], op[3]]
                labels.update(["nontrivial", "deleted"])
            else:
                check(isinstance(res, str) and res.startswith("exc:"),
                      "%s: deleting an absent alignment is accepted", where)
                want = res
                labels.add("delete_absent")
        elif op[0] == "filter":
            rows = sorted([a, b, r] for (a, b), r in al.items()
                          if not op[2] or r in op[2])
            want = [rows, rows]
        elif op[0] == "copy":
            if len(models) < 3:
                models.append(dict(al))
                labels.add("copied")
        elif op[0] == "eq":
            e = al == models[op[2] % len(models)]
            want = [e, not e]
            labels.add("equal" if e else "unequal")
        same(res, want, where + ": result")
        same(len(obs), len(models), where + ": number of pairs")
        for n, (o, m) in enumerate(zip(obs, models)):
            e = expected(m, one, case["roots"])
            for k in e:
                same(o[k], e[k], "%s: pair %d, %s" % (where, n, k))
    return labels


def run_eq(case, w):
    o = w.call("align.eq_pairs", **case)
    a, b = case["pairs"]
    one = case["cls"] == "GraphMatching"

    def table(p):
        al = {}
        for x in p["al"]:
            model_add(al, one, *x)
        return al

    parts = [a["ids"] == b["ids"], a["banks"] == b["banks"],
             norm_meta(a["meta"]) == norm_meta(b["meta"]), table(a) == table(b)]
    e = all(parts)
    same(o["ab"], e, "equality")
    same(o["ba"], e, "equality, swapped")
    same(o["nab"], not e, "inequality")
    same(o["ac"], True, "equality with a deep copy")
    same(o["nac"], False, "inequality with a deep copy")
    same(o["cls"], case["cls"], "class of the deep copy")
    same(o["meta"], o["meta0"], "meta data of the deep copy")
    check(o["own_meta"], "the deep copy shares its meta data")
    check(o["shared"] and o["shared_banks"], "the deep copy duplicates graphs or banks")
    labels = ["equal" if e else "different"]
    if sum(parts) >= 3:
        labels.append("nontrivial")
    return labels


METAS = [None, "<graph_meta_data />", "<graph_meta_data>note</graph_meta_data>",
         "<graph_meta_data who='x' />", "<graph_meta_data who='y' />",
         "<graph_meta_data><a>caf\u00e9</a></graph_meta_data>",
         "<graph_meta_data><a>b</a></graph_meta_data>",
         "<graph_meta_data><a>b</a><a>c</a></graph_meta_data>"]


def norm_meta(m):
    return METAS[1] if m is None else m


def run_pair(case, w):
    v = case["vals"]
    o = w.call("align.pair_ops", vals=v)
    e = v[:2] == v[2:4]
    same(o["eq"], e, "equality of pairs")
    same(o["ne"], not e, "inequality of pairs")
    same(o["other"], [False, False], "equality with something else")
    for k in ("list", "attrs", "unpack"):
        same(o[k], v[:2], k)
    same(o["twice"], [v[:2], v[:2]], "iterating twice")
    same(o["set"], v[4:6], "set")
    same(o["half"], [v[0], None], "default target")
    check(o["repr_back"], "repr %s does not evaluate to the pair", o["repr"])
    same(o["str"], "Pair(source=x, target=y)", "str")
    return ["nontrivial"] if v[0] != v[1] else []


node = st.sampled_from(NODES)
rel = st.sampled_from(RELS)
idx = st.integers(0, 2)
op = st.one_of(
    st.tuples(st.just("add"), idx, node, node, rel),
    st.tuples(st.just("add"), idx, node, node, rel),
    st.tuples(st.just("add"), st.just(0), node, node, rel),
    st.tuples(st.just("del"), idx, node, node),
    st.tuples(st.just("filter"), idx, st.one_of(st.none(), st.lists(rel, max_size=2))),
    st.tuples(st.just("copy"), idx),
    st.tuples(st.just("eq"), idx, idx))


@st.composite
def histories(draw):
    """deletions mostly hit existing alignments: the model runs along"""
    cls = draw(st.sampled_from(["GraphMatching", "GraphMapping"]))
    n = draw(st.integers(1, 25))
    nodes = NODES[:draw(st.integers(2, len(NODES)))]
    nd = st.sampled_from(nodes)
    ops, models = [], [{}]
    for _ in range(n):
        i = draw(idx)
        al = models[i % len(models)]
        kind = draw(st.sampled_from(["add", "add", "add", "del", "del", "filter",
                                     "copy", "eq"]))
        if kind == "add":
            o = ["add", i, draw(nd), draw(nd), draw(rel)]
            model_add(al, cls == "GraphMatching", *o[2:])
        elif kind == "del":
            if al and draw(st.integers(0, 4)):
                a, b = draw(st.sampled_from(sorted(al)))
                del al[a, b]
            else:
                a, b = draw(nd), draw(nd)
                al.pop((a, b), None)
            o = ["del", i, a, b]
        elif kind == "filter":
            o = ["filter", i, draw(st.one_of(st.none(), st.lists(rel, max_size=2)))]
        elif kind == "copy":
            o = ["copy", i]
            if len(models) < 3:
                models.append(dict(al))
        else:
            o = ["eq", i, draw(idx)]
        ops.append(o)
    return {"cls": cls, "ops": ops,
            "roots": [draw(st.one_of(st.none(), nd)), draw(st.one_of(st.none(), nd))]}


@st.composite
def two_pairs(draw):
    def one():
        return {"ids": draw(st.sampled_from([["g1", "g2"], ["g1", "g3"], ["g2", "g1"]])),
                "banks": draw(st.sampled_from([["/nowhere/b1.xml", "/nowhere/b2.xml"],
                                               ["/nowhere/b1.xml", "/nowhere/b3.xml"]])),
                "meta": draw(st.sampled_from(METAS)),
                "al": draw(st.lists(st.tuples(node, node, rel), max_size=4))}
    a = one()
    if draw(st.integers(0, 3)):
        b = dict(a)
        if draw(st.booleans()):
            k = draw(st.sampled_from(["ids", "banks", "meta", "al"]))
            b[k] = one()[k]
        if draw(st.booleans()):
            b["al"] = draw(st.permutations(b["al"]))
    else:
        b = one()
    return {"cls": draw(st.sampled_from(["GraphMatching", "GraphMapping"])), "pairs": [a, b]}


val = st.one_of(st.none(), st.integers(0, 2), st.sampled_from(["a", "b"]))
TESTS = [
    Test("history", histories(), run_history, 3600),
    Test("equality", two_pairs(), run_eq, 2400),
    Test("pair", st.fixed_dictionaries({
        "vals": st.lists(val, min_size=6, max_size=6)}), run_pair, 600),
]
