"""indexed document trees"""
import copy
import os

from hypothesis import strategies as st

from core import TempDir, Test, check, same
from props.ptcgen import TAGS, TEXTS, flat, index, numbers, trees, write_tree

RULE = ("documents of 1 to 14 (or 70) nested elements over five tags with text and tails (blank, "
        "non-ASCII, markup characters), indexed under one to three successive settings of "
        "ignored, newline and blank line tags, with changes of identifiers and text, additions and "
        "removals of elements in between; non-trivial: an ignored element has content "
        "or descendants, or a later setting ignores fewer or other tags")

some_tags = st.lists(st.sampled_from(TAGS), max_size=3, unique=True)


@st.composite
def cases(draw):
    tree = draw(trees(big=20))
    settings = draw(st.lists(st.fixed_dictionaries({
        "ignore": st.one_of(st.none(), some_tags), "newline": st.one_of(st.none(), some_tags),
        "blankline": st.one_of(st.none(), some_tags),
        "edits": st.one_of(st.just([]), st.lists(st.tuples(
            st.sampled_from(["id", "text", "tail", "del", "add"]), st.integers(0, 99),
            st.integers(0, 9)), max_size=2)),
        "align": st.one_of(st.none(), st.integers(0, 99))}), min_size=1, max_size=3))
    return {"tree": tree, "settings": settings}


def edit(tree, kind, n, k):
    """one change of the tree"""
    nodes = flat(tree)
    node = nodes[n % len(nodes)]
    if kind == "id":
        node[1] = "new%d" % k
    elif kind == "text":
        node[2] = TEXTS[k]
    elif kind == "tail" and node is not tree:
        node[4] = TEXTS[k]
    elif kind == "add":
        node[3].append([TAGS[k % len(TAGS)], None, "added", [], ""])
    elif kind == "del":
        for other in nodes:
            other[3] = [c for c in other[3] if c is not node]


def run(case, w):
    tree = case["tree"]
    nodes = flat(tree)
    stages = []
    labels = []
    for n, t in enumerate(case["settings"]):
        if n:
            tree = copy.deepcopy(tree)
            for e in t["edits"]:
                edit(tree, *e)
                labels.append("edited")
        stages.append(tree)
    tree = case["tree"]
    with TempDir(w) as d:
        path = os.path.join(d, "doc.xml")
        write_tree(path, tree)
        req = []
        for n, t in enumerate(case["settings"]):
            kw = {k + "Tags": t[k] for k in ("ignore", "newline", "blankline")
                  if t[k] is not None}
            req.append({"kw": kw, "align": t["align"] % len(flat(stages[n - 1]))
                        if n and t["align"] is not None else None,
                        "edits": t["edits"] if n else []})
        got = w.call("ptc.index", file=path, settings=req)
    same(len(got), len(req), "results")
    last = None
    for tree, g, t in zip(stages, got, case["settings"]):
        nodes, ns = flat(tree), numbers(tree)
        text, recs = index(tree, t["ignore"] or (), t["newline"] or (), t["blankline"] or ())
        same(g["text"], text, "text under %r" % (t,))
        same(len(g["elems"]), len(nodes), "elements")
        for i, (e, node, rec) in enumerate(zip(g["elems"], nodes, recs)):
            what = "of element %d <%s> under %r" % (i, node[0], t)
            same(e["tag"], node[0], "tag " + what)
            same(int(e["n"]), ns[i], "_n " + what)
            same(e["id"], node[1], "id " + what)
            same(e["al"], [], "alignments " + what)
            same(e["ignore"], rec[1], "ignore mark " + what)
            same(e["text"], rec[0], "text " + what)
            if not rec[1]:
                same([e["start"], e["end"]], [rec[2], rec[2] + len(rec[0])], "position " + what)
        count, ids = {}, {}
        for i, node in enumerate(nodes):
            count.setdefault(node[0], []).append(i)
            ids[node[0], node[1]] = i
        same(dict((t, v) for t, v in g["count"]), count, "elements by tag")
        same({(t, i): v for t, i, v in g["ids"] if i is not None},
             {k: v for k, v in ids.items() if k[1] is not None}, "elements by tag and id")
        if any(r[1] and (n[3] or n[2].strip()) for r, n in zip(recs, nodes)):
            labels.append("nontrivial")
        marks = [r[1] for r in recs]
        if last is not None and any(a and not b for a, b in zip(last, marks)):
            labels.append("nontrivial")
            labels.append("restored")
        if last is not None and any(b and not a for a, b in zip(last, marks)):
            labels.append("hidden_later")
        last = marks
    return sorted(set(labels))


TESTS = [Test("index", cases(), run, 2500)]
