"""Hitaext documents"""
import copy
import os

from hypothesis import strategies as st

from core import TempDir, Test, check, same
from gen import sized
from props.ptcgen import (TAGS, flat, hitaext, link_elem, link_of, trees, with_ids, write_text,
                          write_tree)

RULE = ("histories of 1 to 14 operations on a new document (file names, pseudo roots, render "
        "elements, alignment method, links, clearing, writing and reading by name or stream); "
        "documents found through relative paths; generated links between two generated trees "
        "put on the trees and read back under either method, also through the tools; "
        "non-trivial: the document was re-read with render elements or links, or links of one "
        "element to several")
NAMES = ["a.xml", "dir/b.xml", "/abs/c d.xml", "caf\u00e9.xml", "x&y.xml", "..\\w.xml"]
SIDE = st.sampled_from(["from", "to"])
ATTRS = ["ignore", "skip", "newline", "blankline", "uniq"]
TREES = [["doc", None, "", [["p", None, "", [["s", None, "a", [], ""], ["s", None, "b", [], ""]],
                             ""], ["head", "h", "x", [], ""]], ""],
         ["p", None, "x", [["p", None, "y", [], ""]], ""],
         ["head", "1", "", [], ""]]
HTAGS = TAGS + ["font", "elements", "render"]
op = st.one_of(
    st.tuples(st.just("set_filename"), SIDE, st.sampled_from(NAMES)),
    st.tuples(st.just("set_filename"), SIDE, st.sampled_from(NAMES)),
    st.tuples(st.just("set_pseudo_root"), SIDE, st.sampled_from(HTAGS)),
    st.tuples(st.just("init_elems"), SIDE, st.integers(0, 2)),
    st.tuples(st.just("init_elems"), SIDE, st.integers(0, 2)),
    st.tuples(st.just("add_elem"), SIDE, st.sampled_from(HTAGS)),
    st.tuples(st.just("default_elem"), st.sampled_from(HTAGS)),
    st.tuples(st.just("set_attr"), SIDE, st.sampled_from(HTAGS), st.sampled_from(ATTRS),
              st.sampled_from(["True", "True", "True", "False", "other", "true", "1", ""])),
    st.tuples(st.just("has_elem"), SIDE, st.sampled_from(HTAGS)),
    st.tuples(st.just("set_alignment_method"), st.sampled_from(["n", "id", "id", "nid", ""])),
    st.tuples(st.just("set_alignment_method")),
    st.tuples(st.just("add_n_alignment"), st.sampled_from(HTAGS), st.integers(1, 12),
              st.sampled_from(HTAGS), st.integers(1, 12)),
    st.tuples(st.just("add_id_alignment"), st.sampled_from(HTAGS), st.sampled_from(["1", "caf\u00e9", "a b", "<"]),
              st.sampled_from(HTAGS), st.sampled_from(["1", "n2", "&"])),
    st.tuples(st.just("clear_alignments")),
    st.tuples(st.just("validate")),
    st.tuples(st.just("reread"), st.sampled_from(["name", "name", "file", "stream", "element", "utf-8", "latin-1"])),
    st.tuples(st.just("reread"), st.sampled_from(["name", "name", "file", "stream", "element", "utf-8", "latin-1"])),
)
named = st.sampled_from([[], [["set_filename", "from", "a.xml"], ["set_filename", "to", "dir/b.xml"]],
                         [["set_filename", "to", "x&y.xml"], ["set_filename", "from", "caf\u00e9.xml"]]])


def new_model():
    return {"from": {"filename": "", "root": None, "elems": []},
            "to": {"filename": "", "root": None, "elems": []},
            "method": None, "links": []}


def default(tag):
    return [tag, {"ignore": "False", "skip": "False", "newline": "False", "blankline": "False"}]


def items(attrs):
    return sorted([k, v] for k, v in attrs.items())


def view(m):
    out = {}
    for side in ("from", "to"):
        s = m[side]
        last = {}
        for t, a in s["elems"]:
            last[t] = [t, items(a)]
        out[side] = {
            "filename": ["ok", s["filename"]],
            "pseudo_root": s["root"],
            "pseudo_root_tags": [t for t, a in s["elems"] if a.get("uniq") == "True"],
            "elems": [[t, items(a)] for t, a in s["elems"]],
            "tags": [t for t, a in s["elems"]],
            "dict": sorted([t] + v for t, v in last.items()),
            "attr": {k: [t for t, a in s["elems"] if a.get(k) == "True"] for k in ATTRS}}
    out["method"] = m["method"]
    out["links"] = [["link", items(a)] for a in m["links"]]
    return out


def step(m, o):
    """apply the operation to the model; expected outcome"""
    name, a = o[0], o[1:]
    ok = ["ok", None]
    if name == "set_filename":
        m[a[0]]["filename"] = a[1]
    elif name == "set_pseudo_root":
        m[a[0]]["root"] = a[1]
    elif name == "init_elems":
        seen = {}
        for node in flat(TREES[a[1]]):
            if node[0] in seen:
                seen[node[0]]["uniq"] = "False"
            else:
                e = default(node[0])
                e[1]["uniq"] = "True"
                m[a[0]]["elems"].append(e)
                seen[node[0]] = e[1]
        m[a[0]]["root"] = TREES[a[1]][0]
    elif name == "add_elem":
        e = default(a[1])
        m[a[0]]["elems"].append(e)
        return ["ok", [e[0], items(e[1])]]
    elif name == "default_elem":
        e = default(a[0])
        return ["ok", [e[0], items(e[1])]]
    elif name in ("set_attr", "has_elem"):
        found = [e for e in m[a[0]]["elems"] if e[0] == a[1]]
        if name == "has_elem":
            return ["ok", bool(found)]
        if not found:
            return ["exc", "AttributeError"]
        found[0][1][a[2]] = a[3]
    elif name == "set_alignment_method":
        value = a[0] if a else "n"
        if value not in ("n", "id"):
            return ["exc", "AssertionError"]
        m["method"] = value
    elif name == "add_n_alignment":
        m["links"].append({"from_tag": a[0], "from_n": str(a[1]), "to_tag": a[2], "to_n": str(a[3])})
    elif name == "add_id_alignment":
        m["links"].append({"from_tag": a[0], "from_id": a[1], "to_tag": a[2], "to_id": a[3]})
    elif name == "clear_alignments":
        m["links"] = []
    elif name in ("validate", "reread"):
        if not (m["from"]["filename"] and m["to"]["filename"]):
            return ["exc", "AssertionError"]
    return ok


def run_history(case, w):
    labels = []
    with TempDir(w) as d:
        ops = []
        for o in case["ops"]:
            if o[0] == "init_elems":
                path = os.path.join(d, "t%d.xml" % o[2])
                write_tree(path, TREES[o[2]])
                o = [o[0], o[1], path]
            ops.append(list(o))
        got = w.call("ptc.history", ops=ops, path=os.path.join(d, "out.xml"))
    m = new_model()
    same(got[0], [["ok", None], view(m)], "new document")
    for o, g in zip(case["ops"], got[1:]):
        want = step(m, o)
        same(g[0], want, "outcome of %r" % (o,))
        same(g[1], view(m), "document after %r" % (o,))
        if o[0] == "reread" and want[0] == "ok" and (m["links"] or m["from"]["elems"] or m["to"]["elems"]):
            labels.append("nontrivial")
            labels.append("reread_" + o[1])
        if o[0] == "reread" and want[0] == "exc":
            labels.append("invalid")
    return sorted(set(labels))


# --- looking up file names ---

FN = ["t.xml", "sub/t.xml", "../t.xml", "sub/u.xml", "ABS/t.xml"]
DOCS = ["h.htd", "sub/h.htd", "other/h.htd"]
PLACES = ["t.xml", "sub/t.xml", "sub/u.xml", "other/t.xml", "other/sub/t.xml", "other/u.xml",
          "sub/sub/t.xml", "abs/t.xml"]


@st.composite
def search_cases(draw):
    return {"doc": draw(st.sampled_from(DOCS)), "cwd": draw(st.sampled_from([".", "sub", "other"])),
            "fn": [draw(st.sampled_from(FN)) for _ in "12"],
            "there": draw(st.lists(st.sampled_from(PLACES), unique=True, max_size=6)),
            "rel": draw(st.booleans()), "side": draw(SIDE),
            "pad": draw(st.sampled_from([["", ""], ["", ""], ["\n    ", "\n  "], [" ", ""]]))}


def run_search(case, w):
    with TempDir(w) as d:
        for p in ("sub", "other", "abs"):
            os.makedirs(os.path.join(d, p))
        for n, p in enumerate(case["there"]):
            write_tree(os.path.join(d, p), ["t%d" % n, None, "", [], ""])
        fns = [f.replace("ABS", os.path.join(d, "abs")) for f in case["fn"]]
        doc = os.path.join(d, case["doc"])
        write_text(doc, hitaext(*[case["pad"][0] + f + case["pad"][1] for f in fns], []))
        cwd = os.path.join(d, case["cwd"])
        ref = os.path.relpath(doc, cwd) if case["rel"] else doc
        names, tree, pair = w.call("ptc.search", cwd=cwd, doc=ref, side=case["side"])
        roots = []
        labels = []
        for fn, (plain, found) in zip(fns, names):
            same(plain, fn, "file name")
            here = os.path.dirname(doc)
            want = None
            for n, cand in enumerate((os.path.join(cwd, fn), os.path.join(here, fn),
                                      os.path.join(here, os.path.basename(fn)))):
                if os.path.exists(cand):
                    want = os.path.realpath(cand)
                    if n:
                        labels.append("nontrivial")
                    labels.append("candidate_%d" % n)
                    break
            if want is None:
                same(found, fn, "file name when there is no such file")
                roots.append(None)
            else:
                same(os.path.realpath(os.path.join(cwd, found)), want,
                     "file found for %r of %r in %r" % (fn, ref, case["cwd"]))
                rel = os.path.relpath(want, os.path.realpath(d))
                roots.append("t%d" % case["there"].index(rel))
        r = roots[case["side"] == "to"]
        same(tree, ["ok", r] if r else ["exc", "IOError"], "document tree")
        same(pair, ["ok", roots] if all(roots) else ["exc", "IOError"], "document trees")
    return sorted(set(labels))


# --- links on trees ---

@st.composite
def link_cases(draw):
    t1, t2 = draw(trees(8, big=20)), draw(trees(8, big=20))
    method = draw(st.sampled_from([None, "n", "id"]))
    to = draw(st.sampled_from([None, "n", "id"]))
    if "id" in (method, to):
        t1, t2 = with_ids(t1), with_ids(t2)
    n1, n2 = len(flat(t1)), len(flat(t2))
    links = draw(st.lists(st.tuples(st.integers(0, n1 - 1), st.integers(0, n2 - 1)),
                          max_size=8 if n1 < 17 else 25))
    return {"t1": t1, "t2": t2, "method": method, "to": to, "links": [list(l) for l in links],
            "ignore": draw(st.one_of(st.none(), st.tuples(*[st.lists(st.sampled_from(TAGS), max_size=2)
                                                            for _ in "12"])))}


def lay_out(d, case):
    write_tree(os.path.join(d, "t1.xml"), case["t1"])
    write_tree(os.path.join(d, "t2.xml"), case["t2"])
    links = [link_of(case["t1"], case["t2"], i, j, case["method"]) for i, j in case["links"]]
    path = os.path.join(d, "h.htd")
    write_text(path, hitaext(os.path.join(d, "t1.xml"), os.path.join(d, "t2.xml"), links,
                             case["method"]))
    return path, links


def run_links(case, w):
    t1, t2, links = case["t1"], case["t2"], case["links"]
    with TempDir(w) as d:
        path, given = lay_out(d, case)
        al, before, doc = w.call("ptc.links", doc=path, method=case["to"],
                                ignore=case["ignore"])
    same(before, [link_elem(l, case["method"]) for l in given], "links read")
    same(al[0], [[j for i, j in links if i == k] for k in range(len(flat(t1)))],
         "elements the source elements are aligned to")
    same(al[1], [[i for i, j in links if j == k] for k in range(len(flat(t2)))],
         "elements the target elements are aligned to")
    method = case["to"] or case["method"]
    ordered = sorted(links, key=lambda l: l[0])
    same(doc["method"], method, "method")
    same(doc["links"], [link_elem(link_of(t1, t2, i, j, method), method) for i, j in ordered],
         "links extracted")
    labels = []
    if len(set(i for i, j in links)) < len(links):
        labels.append("nontrivial")
    if method != case["method"]:
        labels.append("converted")
    return labels


# --- tools ---

CHDIR_NAMES = ["a.xml", "d/e/b.xml", "/x/c.xml", "C:\\dir\\w.xml", "dir\\v.xml", "C", "C:u.xml", "c:d/x.xml"]


@st.composite
def tool_cases(draw):
    cases = draw(st.lists(link_cases(), min_size=1, max_size=2))
    for c in cases:
        c["t1"], c["t2"] = with_ids(c["t1"]), with_ids(c["t2"])
        if c["method"] == "id":
            c["method"] = "n"
    return {"docs": cases, "verbose": draw(st.booleans()), "test": draw(st.booleans()),
            "names": draw(st.lists(st.tuples(st.sampled_from(CHDIR_NAMES), st.sampled_from(CHDIR_NAMES)),
                                   min_size=1, max_size=2)),
            "dir": draw(st.sampled_from([None, "new", "/n/d", "new/"]))}


def read_doc(path):
    import xml.etree.ElementTree as ET
    root = ET.parse(path).getroot()
    return {"names": [root.find("from/filename").text, root.find("to/filename").text],
            "method": root.find("alignment").get("method"),
            "links": [[e.tag, items(e.attrib)] for e in root.find("alignment")]}


def strip_windows(path):
    if len(path) > 1 and path[1] == ":" and path[0].isupper():
        path = path[2:]
    return path.replace("\\", "/")


def run_tools(case, w):
    labels = []
    with TempDir(w) as d:
        paths = []
        for n, c in enumerate(case["docs"]):
            sub = os.path.join(d, str(n))
            os.makedirs(sub)
            paths.append(lay_out(sub, c)[0])
        names = []
        for n, pair in enumerate(case["names"]):
            p = os.path.join(d, "n%d.htd" % n)
            write_text(p, hitaext(pair[0], pair[1], [["s", "1", "s", "2"]], "n"))
            names.append(p)
        originals = [open(p, "rb").read() for p in names]
        flag = ["-V"] if case["verbose"] else []
        chdir = flag + (["-t"] if case["test"] else [])
        if case["dir"] is not None:
            chdir += ["-d", case["dir"]]
        r = w.call("tools.run", calls=[["ptc_n_to_id.py", flag + paths],
                                       ["ptc_chdir.py", names + chdir]])
        for x in r:
            same(x[0], 0, "exit status (%s)" % x[2][-200:])
        for c, p in zip(case["docs"], paths):
            got = read_doc(p)
            ordered = sorted(c["links"], key=lambda l: l[0])
            same(got["links"], [link_elem(link_of(c["t1"], c["t2"], i, j, "id"), "id")
                                for i, j in ordered], "links by identifier")
            same(got["method"], "id", "method after conversion")
            same(got["names"], [os.path.join(os.path.dirname(p), n) for n in ("t1.xml", "t2.xml")],
                 "file names after conversion")
            if c["links"]:
                labels.append("nontrivial")
        for pair, p, orig in zip(case["names"], names, originals):
            if case["test"]:
                same(open(p, "rb").read(), orig, "document after a dry run")
                continue
            got = read_doc(p)
            same(got["names"], [os.path.join(case["dir"] or "", os.path.basename(strip_windows(n)))
                                for n in pair], "file names with another directory")
            same([got["method"], got["links"]], ["n", [link_elem(["s", "1", "s", "2"], "n")]],
                 "the rest of the document")
    return sorted(set(labels))


TESTS = [
    Test("history", st.fixed_dictionaries({"ops": st.tuples(named, sized(op.map(list), 14, 1)).map(
        lambda x: x[0] + x[1])}),
         run_history, 1500),
    Test("search", search_cases(), run_search, 700),
    Test("links", link_cases(), run_links, 1200),
    Test("tools", tool_cases(), run_tools, 400),
]
