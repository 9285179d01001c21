"""XML helpers, file patterns and directories"""
import fnmatch
import os
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from core import TempDir, Test, check, same

RULE = ("XML elements of up to 12 nodes with blank, mixed and non-ASCII content, near copies of "
        "them, indented at several levels and times and written to names, files and streams; "
        "file trees with one to three overlapping patterns; directories to make over existing "
        "directories and files; non-trivial: mixed content, near copies that differ, patterns "
        "that overlap, or a path through a file")
TAGS = ["a", "b", "file", "x1"]
TEXTS = [None, "", " ", "\n  ", "t", " t ", "x <&> y", "caf\u00e9", "\n\u20ac\n"]
INNER = ["x y", "x  y", "x\ny", " x y ", "xy"]
ATTRS = ["id", "n"]


@st.composite
def elements(draw, size=12):
    n = draw(st.integers(1, size))
    nodes = []
    depth = draw(st.sampled_from([1, 2, 99]))
    blank = draw(st.booleans())
    text = st.sampled_from(TEXTS[:4] if blank else TEXTS)
    for i in range(n):
        node = [draw(st.sampled_from(TAGS)), draw(st.sampled_from(TEXTS)), draw(text),
                draw(st.dictionaries(st.sampled_from(ATTRS), st.sampled_from(
                    ["1", "a b", "\u00e9<\"'"]), max_size=2)), []]
        if i:
            nodes[-draw(st.integers(1, min(len(nodes), depth)))][4].append(node)
        nodes.append(node)
    for x in nodes:
        if blank and x[4]:
            x[1] = draw(text)
    return nodes[0]


def nodes_of(e):
    out = [e]
    for c in e[4]:
        out += nodes_of(c)
    return out


def clone(e):
    return [e[0], e[1], e[2], dict(e[3]), [clone(c) for c in e[4]]]


def canon(e):
    return [e[0], (e[1] or "").strip(), (e[2] or "").strip(), e[3], [canon(c) for c in e[4]]]


@st.composite
def equal_cases(draw):
    base = draw(elements(6))
    out = [base]
    for _ in range(draw(st.integers(1, 3))):
        e = clone(draw(st.sampled_from(out)))
        ns = nodes_of(e)
        x = draw(st.sampled_from(ns))
        how = draw(st.sampled_from(["none", "tag", "text", "tail", "attr", "drop", "add", "swap",
                                    "space", "inner"]))
        if how == "tag":
            x[0] = draw(st.sampled_from(TAGS))
        elif how == "text":
            x[1] = draw(st.sampled_from(TEXTS))
        elif how == "tail":
            x[2] = draw(st.sampled_from(TEXTS))
        elif how == "attr":
            x[3] = draw(st.dictionaries(st.sampled_from(ATTRS), st.sampled_from(["1", "2"]), max_size=2))
        elif how == "drop" and x[4]:
            x[4].pop(draw(st.integers(0, len(x[4]) - 1)))
        elif how == "add":
            x[4].append(["a", None, None, {}, []])
        elif how == "swap" and len(x[4]) > 1:
            x[4][0], x[4][1] = x[4][1], x[4][0]
        elif how == "space":
            x[1], x[2] = " %s\n" % (x[1] or ""), "\t%s " % (x[2] or "")
        elif how == "inner":
            # blanks between words
            where = draw(st.integers(1, 2))
            x[where] = draw(st.sampled_from(INNER))
            out.append(clone(e))
            x[where] = draw(st.sampled_from(INNER))
        out.append(e)
    return {"elems": out}


def run_equals(case, w):
    els = case["elems"]
    got, kept = w.call("utils.equals", elems=els)
    check(kept, "comparison changed the elements")
    same(got, [[canon(a) == canon(b) for b in els] for a in els], "which elements are equal")
    return ["nontrivial"] if any(canon(e) != canon(els[0]) for e in els) else []


def blank(t):
    return not (t or "").strip()


def indented(e, level=0, last=None):
    """last: indentation after the element, None for the outermost at level 0"""
    pad = "\n" + "  " * (level + 1)
    kids = e[4]
    return [e[0], pad if kids and blank(e[1]) else e[1],
            "\n" + "  " * last if last is not None and blank(e[2]) else e[2], e[3],
            [indented(c, level + 1, level if c is kids[-1] else level + 1) for c in kids]]


@st.composite
def indent_cases(draw):
    return {"elem": draw(elements()), "level": draw(st.sampled_from([None, 0, 1, 3])),
            "times": draw(st.integers(1, 2))}


def run_indent(case, w):
    got = w.call("utils.indent", elem=case["elem"], level=case["level"], times=case["times"])
    level = case["level"] or 0
    want = indented(case["elem"], level, level or None)
    for g in got:
        same(g, want, "an indented element")
    ns = nodes_of(case["elem"])
    labels = []
    if len(ns) > 2 and any(not blank(x[1]) and x[4] or not blank(x[2]) for x in ns):
        labels.append("nontrivial")
    return labels


@st.composite
def write_cases(draw):
    kw = {}
    if draw(st.booleans()):
        kw["pprint"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        kw["encoding"] = "utf-8"
    return {"elem": draw(elements()), "kw": kw, "to": draw(st.sampled_from(["name", "file", "stream"])),
            "name": draw(st.sampled_from(["out.xml", "caf\u00e9.xml"])), "old": draw(st.booleans())}


def read_elem(e):
    return [e.tag, e.text or None, e.tail or None, dict(e.attrib), [read_elem(c) for c in e]]


def plain(e):
    return [e[0], e[1] or None, e[2] or None, e[3], [plain(c) for c in e[4]]]


def run_write(case, w):
    e = case["elem"]
    with TempDir(w) as d:
        path = os.path.join(d, case["name"])
        if case["old"]:
            with open(path, "w") as f:
                f.write("x" * 5000)
        text, after = w.call("utils.write", elem=e, kw=case["kw"], to=case["to"], path=path)
    if case["to"] != "name":
        check(text.endswith("<!-- more -->"), "stream not left open at the end of the text")
    head = '<?xml version="1.0" encoding="utf-8"?>\n'
    check(text.startswith(head), "no XML declaration: %r", text[:60])
    want = indented(e) if case["kw"].get("pprint") else e
    # nothing but blanks may follow the outermost element
    want = want[:2] + [None] + want[3:]
    if blank(e[2]):
        same(plain(read_elem(ET.fromstring(text.encode("utf-8")))), plain(want), "the element written")
        same(canon(after), canon(e), "the element after writing")
        if not case["kw"].get("pprint"):
            same(after, e, "the element after writing")
    return ["nontrivial"] if case["kw"].get("pprint") and len(nodes_of(e)) > 2 else []


# --- files ---

DIRS = ["", "d1/", "d2/", "d 1/"]
FILES = ["a.pgc", "b.pgc", "ab.xml", "c", "A.pgc", "a1.pgc", "\u00e92.pgc", ".hid"]
PATS = ["*.pgc", "*", "a*", "?.pgc", "[ab]*", "b.pgc", "*.none", "a*.*"]


@st.composite
def pattern_cases(draw):
    files = draw(st.lists(st.tuples(st.sampled_from(DIRS), st.sampled_from(FILES)), max_size=8,
                          unique=True))
    pats = draw(st.lists(st.tuples(st.sampled_from(DIRS + ["*/", "d?/"]), st.sampled_from(PATS)),
                         min_size=1, max_size=3))
    return {"files": ["".join(f) for f in files], "patterns": ["".join(p) for p in pats]}


def matching(tree, pat):
    """paths that match; * and ? do not match hidden names or slashes"""
    parts = pat.split("/")

    def ok(path):
        names = path.split("/")
        return len(names) == len(parts) and all(
            fnmatch.fnmatchcase(n, p) and not (n[0] == "." and p[0] != ".")
            for n, p in zip(names, parts))
    return [p for p in tree if ok(p)]


def run_patterns(case, w):
    with TempDir(w) as d:
        tree = set()
        for f in case["files"]:
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            with open(os.path.join(d, f), "w") as fh:
                fh.write("x")
            tree.add(f)
            if "/" in f:
                tree.add(f.split("/")[0])
        one, many, many2, many3 = w.call("utils.patterns", cwd=d, patterns=case["patterns"])

    def path_key(p):
        return p.encode("utf-8")
    want = [matching(tree, p) for p in case["patterns"]]
    for g, x, p in zip(one, want, case["patterns"]):
        same(decoded(g), sorted(x, key=path_key), "files matching %r" % p)
    total = sorted(sum(want, []), key=path_key)
    for g in (many, many2, many3):
        same(decoded(g), total, "files matching any of %r" % case["patterns"])
    return ["nontrivial"] if len(set(total)) < len(total) or sum(map(bool, want)) > 1 else []


def decoded(names):
    """names come back as text or as bytes read as Latin-1"""
    out = []
    for n in names:
        try:
            n = n.encode("latin-1").decode("utf-8")
        except UnicodeError:
            pass
        out.append(n)
    return out


PATHS = ["a", "a/b", "a/b/c", "b/c", "f", "f/x", "f/x/y", "a/", "./b", "a/g", "a/g/h"]


@st.composite
def dir_cases(draw):
    return {"files": draw(st.lists(st.sampled_from(["f", "a/g", "b"]), max_size=2, unique=True)),
            "paths": draw(st.lists(st.tuples(st.sampled_from(PATHS), st.sampled_from(
                [None, 0o777, 0o755])), min_size=1, max_size=5)), "abs": draw(st.booleans())}


def run_dirs(case, w):
    labels = set()
    with TempDir(w) as d, TempDir(w) as e:
        for f in case["files"]:
            for base in (d, e):
                os.makedirs(os.path.dirname(os.path.join(base, f)), exist_ok=True)
                open(os.path.join(base, f), "w").close()
        paths = [[os.path.join(d, p) if case["abs"] else p, m] for p, m in case["paths"]]
        got = w.call("utils.dirs", cwd=d, paths=paths)
        for (g, there), (p, _) in zip(got, case["paths"]):
            try:
                os.makedirs(os.path.join(e, p), exist_ok=True)
                want = "ok"
            except OSError:
                want = "exc"
                labels.add("nontrivial")
            same(g[0], want, "making the directory %r (%r)" % (p, g))
            same(there, os.path.isdir(os.path.join(e, p)), "whether %r is a directory then" % p)
        same(sorted(x[0][len(d):] for x in os.walk(d)), sorted(x[0][len(e):] for x in os.walk(e)),
             "directories made")
    return sorted(labels)


# --- pairs and headers ---

values = st.one_of(st.none(), st.integers(0, 2), st.sampled_from(["a", "b", ""]),
                   st.lists(st.integers(0, 1), max_size=1))


def run_pairs(case, w):
    items = [(list(x) + [None, None])[:2] for x in case["items"]]
    got = w.call("utils.pairs", items=case["items"])
    for g, a in zip(got, items):
        same(g["eq"], [[a == b, a != b] for b in items], "equality of pairs")
        same(g["list"], a, "iteration")
        same(g["roles"], a, "source and target")
        same(g["self"], True, "a pair equals its copy")
        same(g["other"], False, "a pair equals a tuple")
        same(g["eval"], a, "repr() read back")
        same(g["set"], [True, [None, None]], "set()")
    return ["nontrivial"] if len(items) > 1 and any(a == b for i, a in enumerate(items)
                                                     for b in items[:i]) else []


def run_header(case, w):
    ret, out = w.call("utils.header", head=case["head"], kw=case["kw"], stream=case["stream"])
    rule = case["kw"].get("char", "=") * case["kw"].get("width", 80)
    same(ret, "%s\n%s\n%s\n\n" % (rule, case["head"], rule), "header")
    same(out, ret if case["stream"] else "", "header written")
    return ["nontrivial"] if case["kw"] else []


TESTS = [
    Test("equals", equal_cases(), run_equals, 2500),
    Test("indent", indent_cases(), run_indent, 2000),
    Test("write", write_cases(), run_write, 1500),
    Test("patterns", pattern_cases(), run_patterns, 1000),
    Test("dirs", dir_cases(), run_dirs, 700),
    Test("pairs", st.fixed_dictionaries({"items": st.lists(st.lists(values, max_size=2),
                                                           min_size=1, max_size=4)}), run_pairs, 800),
    Test("header", st.fixed_dictionaries({
        "head": st.sampled_from(["", "REPORT", "two\nlines"]), "stream": st.booleans(),
        "kw": st.fixed_dictionaries({}, optional={"width": st.integers(0, 90),
                                                  "char": st.sampled_from("=-*")})}), run_header, 200),
]
