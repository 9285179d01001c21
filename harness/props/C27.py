"""statistics of corpora and graph banks"""
import fnmatch
import os
import random
import string
from xml.sax.saxutils import quoteattr

from hypothesis import strategies as st

from core import TempDir, Test, check, same
from props.C26 import LABELS, overalls, same_cells

RULE = ("one to three (or up to 14) corpora over two or three generated graph banks with punctuation, empty "
        "nodes, failed parses and unaligned roots, under all options, through functions and tools; directory "
        "trees of corpora (all, or those whose names match a pattern) summarised once or twice with chosen targets; non-trivial: graph "
        "pairs are left out or flagged, and some are counted")
ASSUMPTIONS = ["No importable graph bank format knows failed parses or nodes without tokens; the "
               "methods that tell them are replaced by ones that look at an attribute.",
               "Whether a graph aligned both as source and as target counts as single or "
               "multiple aligned is left open."]
BANKS = ["gb/a.xml", "gb/b c.xml", "gb/sub/a.xml"]
PGCS = ["x.pgc", "y z.pgc", "w.pgc"] + ["%d.pgc" % i for i in range(7, 18)]
RELS = ["equals", "restates", "generalizes", "specifies", "intersects"]
TOK = ["de", "kat", ".", ",", "slaapt", "!", "3", "'s", "nl.", "...", "?!"]


def punct(tokens):
    return all(t in string.punctuation for t in tokens)


@st.composite
def bank(draw):
    graphs = []
    for k in range(draw(st.integers(1, 3))):
        nodes = []
        for n in range(draw(st.integers(1, 4))):
            nodes.append(["n%d" % n, draw(st.lists(st.sampled_from(TOK), min_size=1, max_size=2))])
        graphs.append({"id": "g%d" % k, "nodes": nodes, "failed": draw(st.integers(0, 4)) == 0,
                       "root": draw(st.sampled_from([0, 0, 0, 1, None])),
                       "empty": draw(st.lists(st.sampled_from(["n0", "n1", "n2"]), max_size=2))
                       if draw(st.integers(0, 2)) == 0 else [],
                       "tokens": draw(st.lists(st.sampled_from(TOK), min_size=1, max_size=5))})
    return graphs


def big_bank(rng):
    return [{"id": "g%d" % k, "failed": rng.random() < .2, "root": rng.choice([0, 0, 0, 1, None]),
             "nodes": [["n%d" % n, [rng.choice(TOK) for _ in range(rng.randint(1, 3))]]
                       for n in range(rng.randint(1, 14))],
             "empty": ["n%d" % n for n in range(12) if rng.random() < .1],
             "tokens": [rng.choice(TOK) for _ in range(rng.randint(1, 30))]}
            for k in range(rng.randint(5, 12))]


def big_corpus(rng, banks):
    pairs = []
    # each graph on one side only, so that single and multiple alignment is defined
    graphs = [(b, g["id"]) for b in range(len(banks)) for g in banks[b]]
    sources = [g for n, g in enumerate(graphs) if n % 2]
    targets = [g for n, g in enumerate(graphs) if not n % 2]
    for _ in range(rng.randint(5, 30)):
        s, t = rng.choice(sources), rng.choice(targets)
        gs, gt = [banks[b][int(g[1:])] for b, g in (s, t)]
        k = rng.randint(0, min(len(gs["nodes"]), len(gt["nodes"])))
        al = {a[0]: b[0] for a, b in zip(rng.sample(gs["nodes"], k), rng.sample(gt["nodes"], k))}
        if rng.random() < .7 and root_of(gs) and root_of(gt):
            al = {a: b for a, b in al.items() if a != root_of(gs) and b != root_of(gt)}
            al[root_of(gs)] = root_of(gt)
        pairs.append({"s": list(s), "t": list(t),
                      "al": [[a, b, rng.choice(RELS)] for a, b in sorted(al.items())]})
    return pairs


def root_of(g):
    if g["root"] is None:
        return None
    return "n%d" % min(g["root"], len(g["nodes"]) - 1)


def bank_xml(graphs):
    out = ['<graphml><key id="tok" attr.name="tokens"/><key id="lab" for="node" '
           'attr.name="label"/><key id="root" for="graph" attr.name="root"/>'
           '<key id="failed" for="graph" attr.name="failed"/>'
           '<key id="empty" for="node" attr.name="empty"/>']
    for g in graphs:
        out.append('<graph id="%s" edgedefault="directed"><data key="tok">%s</data>' % (
            g["id"], " ".join(g["tokens"])))
        if root_of(g):
            out.append('<data key="root">%s</data>' % root_of(g))
        if g["failed"]:
            out.append('<data key="failed">1</data>')
        for n, toks in g["nodes"]:
            out.append('<node id="%s"><data key="lab">L</data><data key="tok">%s</data>%s</node>'
                       % (n, " ".join(toks),
                          '<data key="empty">1</data>' if n in g["empty"] else ""))
        for n, _ in g["nodes"][1:]:
            out.append('<edge source="n0" target="%s"/>' % n)
        out.append("</graph>")
    return "\n".join(out) + "</graphml>"


@st.composite
def corpus(draw, banks):
    pairs = []
    graphs = [(b, g["id"]) for b in range(len(banks)) for g in banks[b]]
    for _ in range(draw(st.integers(0, 4))):
        s, t = draw(st.sampled_from(graphs)), draw(st.sampled_from(graphs))
        if s == t:
            continue
        gs, gt = [banks[b][int(g[1:])] for b, g in (s, t)]
        al = {}
        for a, b in draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), max_size=4)):
            a, b = "n%d" % (a % len(gs["nodes"])), "n%d" % (b % len(gt["nodes"]))
            if a not in al and b not in al.values():
                al[a] = b
        if draw(st.booleans()) and root_of(gs) and root_of(gt):
            al = {a: b for a, b in al.items() if a != root_of(gs) and b != root_of(gt)}
            al[root_of(gs)] = root_of(gt)
        pairs.append({"s": list(s), "t": list(t),
                      "al": [[a, b, draw(st.sampled_from(RELS))] for a, b in sorted(al.items())]})
    return pairs


def corpus_xml(pairs, banks, paths):
    used = sorted({p[k][0] for p in pairs for k in "st"})
    out = ["<parallel_graph_corpus><corpus_meta_data/><graphbanks>"]
    out += ['<file id="b%d" format="graphml">%s</file>' % (i, paths[i]) for i in used]
    out.append("</graphbanks><node_relations>")
    out += ["<relation>%s</relation>" % r for r in RELS]
    out.append("</node_relations><aligned_graphs>")
    for p in pairs:
        out.append('<graph_pair from_bank_id="b%d" from_graph_id="%s" to_bank_id="b%d" '
                   'to_graph_id="%s">' % tuple(p["s"] + p["t"]))
        out += ["<node_pair from_node_id=%s to_node_id=%s relation=%s/>" % tuple(
            quoteattr(x) for x in a) for a in p["al"]]
        out.append("</graph_pair>")
    return "".join(out) + "</aligned_graphs></parallel_graph_corpus>"


def ratio(a, b, f=100.0):
    return a / b * f if b else 0.0


def corpus_stats(name, pairs, banks, kw):
    """row of the corpus table, rows of the graph bank table"""
    c = dict.fromkeys(LABELS["pgc"], 0)
    c["CORPUS"] = name
    used, bad_root, nodes = {}, set(), set()
    sides = {}
    for p in pairs:
        gs, gt = [banks[p[k][0]][int(p[k][1][1:])] for k in "st"]
        failed = gs["failed"] or gt["failed"]
        rooted = [root_of(gs), root_of(gt)] in [a[:2] for a in p["al"]]
        if (failed and not kw.get("with_failed_parses")) or (
                not rooted and not kw.get("with_unaligned_roots")):
            continue
        c["CGP"] += 1
        c["CGPFP"] += failed
        c["CGPUR"] += not rooted
        c["CGPFU"] += rooted and not failed
        for k in "st":
            key = tuple(p[k])
            used[key] = used.get(key, 0) + 1
            sides.setdefault(key, set()).add(k)
            if not rooted:
                bad_root.add(key)
        for a, b, rel in p["al"]:
            if not kw.get("with_punc") and (punct(dict(gs["nodes"])[a]) or punct(dict(gt["nodes"])[b])):
                continue
            if not kw.get("with_empty_nodes") and (a in gs["empty"] or b in gt["empty"]):
                continue
            c["CNP"] += 1
            c[{"equals": "CEQ", "restates": "CRE", "generalizes": "CGEN", "specifies": "CSPEC",
               "intersects": "CINT"}[rel]] += 1
            nodes.add((tuple(p["s"]), a))
            nodes.add((tuple(p["t"]), b))
    for x in ("FU", "FP", "UR"):
        c["PGP" + x] = ratio(c["CGP" + x], c["CGP"])
    for x in ("EQ", "RE", "GEN", "SPEC", "INT"):
        c["P" + x] = ratio(c["C" + x], c["CNP"])
    rows = []
    both = any(len(v) > 1 for v in sides.values())
    for b in sorted({p[k][0] for p in pairs for k in "st"}):
        rows.append(bank_stats(BANKS[b], b, banks[b], kw, used, bad_root, nodes))
    return [c[x] for x in LABELS["pgc"]], rows, both


def bank_stats(path, b, graphs, kw, used=(), bad_root=(), nodes=(), alone=False):
    g_ = dict.fromkeys(LABELS["gb"], 0)
    g_["BANK"] = os.path.basename(path)
    for g in graphs:
        key = (b, g["id"])
        if g["failed"] and not kw.get("with_failed_parses"):
            continue
        n = used[key] if key in used else 0
        if not n and not (alone or kw.get("with_unaligned_graphs")):
            continue
        g_["CG"] += 1
        g_["CGA"] += n > 0
        g_["CGU"] += n == 0
        g_["CGSA"] += n == 1
        g_["CGMA"] += n > 1
        g_["CGUR"] += key in bad_root
        g_["CGFP"] += g["failed"]
        g_["CT"] += sum(bool(kw.get("with_punc")) or t not in string.punctuation for t in g["tokens"])
        for node, toks in g["nodes"]:
            if (kw.get("with_punc") or not punct(toks)) and (
                    kw.get("with_empty_nodes") or node not in g["empty"]):
                g_["CN"] += 1
                g_["CNA"] += (key, node) in nodes
                g_["CNU"] += (key, node) not in nodes
    for x, y in (("A", "CG"), ("FP", "CG"), ("UR", "CG"), ("SA", "CGA"), ("MA", "CGA")):
        g_["PG" + x] = ratio(g_["CG" + x], g_[y])
    g_["PNA"] = ratio(g_["CNA"], g_["CN"])
    g_["ATG"], g_["ANG"] = ratio(g_["CT"], g_["CG"], 1.0), ratio(g_["CN"], g_["CG"], 1.0)
    return [g_[x] for x in LABELS["gb"]]


SKIP = [LABELS["gb"].index(x) for x in ("CGSA", "CGMA", "PGSA", "PGMA")]


def same_rows(got, want, cls, both, what, tol=1e-9, ordered=True):
    same(len(got), len(want), "rows of the " + what)

    def key(r):
        return [r[0]] + [round(float(x), 1) for n, x in enumerate(r)
                         if n and not isinstance(x, float) and not (both and n in SKIP)]
    if not ordered:
        got, want = sorted(got, key=key), sorted(want, key=key)
    for g, x in zip(got, want):
        if both and cls == "gb":
            g, x = [[v for n, v in enumerate(r) if n not in SKIP] for r in (g, x)]
        same_cells(g, x, "a row of the %s (%r)" % (what, x[0]), tol)


def same_table(got, rows, cls, both, what, tol=1e-9, ordered=True):
    same_rows(got["rows"], rows, cls, both, what, tol, ordered)
    g, x = got["overall"], overalls(cls, rows)
    if both and cls == "gb":
        g, x = [[v for n, v in enumerate(r) if n not in SKIP] for r in (g, x)]
    same_cells(g, x, "the totals of the " + what, tol)


def parse(text, classes):
    """the tables in a printed report, as dump() gives them"""
    lines = [l for l in text.split("\n") if l.strip()]
    out = []
    for cls in classes:
        labels = LABELS[cls]
        same(lines[0].split(), labels, "header of a table")
        check(set(lines[1]) == {"-"}, "no separator: %r", lines[1])
        k = 2
        rows = []
        while set(lines[k]) != {"-"}:
            rows.append(lines[k])
            k += 1
        width = len(lines[1])
        w0 = width - 8 * (len(labels) - 1)

        def cells(line):
            vals = [line[:w0].strip()]
            for n in range(len(labels) - 1):
                v = line[w0 + 8 * n:w0 + 8 * n + 8].strip()
                vals.append(None if v == "" else float(v) if "." in v else int(v))
            return vals
        table = {"rows": [cells(l) for l in rows]}
        rest = lines[k + 1:]
        if rest and not rest[0].split()[0] in ("CORPUS", "BANK"):
            table["overall"] = [None] + cells(rest[0])[1:]
            rest = rest[1:]
        else:
            table["overall"] = [None] * len(labels)
        legend = []
        while rest and rest[0].split()[0].isdigit():
            legend.append(rest.pop(0))
        table["legend"] = legend
        out.append(table)
        lines = rest
    same(lines, [], "lines after the tables")
    return out


OPTIONS = ["with_failed_parses", "with_punc", "with_unaligned_roots", "with_unaligned_graphs",
           "with_empty_nodes"]
FLAGS = {"with_failed_parses": ("-f", "--with-failed-parses"), "with_punc": ("-p", "--with-punc-nodes"),
         "with_unaligned_roots": ("-r", "--with-unaligned-roots"),
         "with_unaligned_graphs": ("-u", "--with_unaligned-graphs"),
         "with_empty_nodes": ("-e", "--with-empty-nodes")}


@st.composite
def cases(draw):
    banks = draw(st.lists(bank(), min_size=2, max_size=3))
    opts = draw(st.lists(st.sampled_from(OPTIONS), unique=True))
    if draw(st.integers(0, 4)) == 0:
        opts = OPTIONS
    if draw(st.integers(0, 9)) == 9:
        rng = random.Random(draw(st.integers(0, 2 ** 32)))
        banks = [big_bank(rng) for _ in range(3)]
        corpora = [big_corpus(rng, banks) for _ in range(rng.randint(1, len(PGCS)))]
    else:
        corpora = draw(st.lists(corpus(banks), min_size=1, max_size=3))
    return {"banks": banks, "corpora": corpora,
            "opts": opts, "legend": draw(st.booleans()), "all": draw(st.booleans()),
            "long": draw(st.booleans()), "nobanks": draw(st.booleans())}


def write_banks(d, banks):
    for path, b in zip(BANKS, banks):
        full = os.path.join(d, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w") as f:
            f.write(bank_xml(b))


def labels_for(rows, pairs):
    k = LABELS["pgc"].index("CGP")
    counted = sum(r[k] for r in rows)
    flagged = sum(r[k + 2] + r[k + 3] for r in rows)
    out = []
    if counted and (counted < sum(map(len, pairs)) or flagged):
        out.append("nontrivial")
    if flagged:
        out.append("flagged")
    return out


def run(case, w):
    banks = case["banks"]
    kw = {o: True for o in case["opts"]}
    with TempDir(w) as d:
        write_banks(d, banks)
        for name, pairs in zip(PGCS, case["corpora"]):
            with open(os.path.join(d, name), "w") as f:
                f.write(corpus_xml(pairs, banks, BANKS))
        files = PGCS[:len(case["corpora"])]
        pgc, gb = w.call("stats.corpora", dir=d, files=files, kw=kw)
        paths = [os.path.join(d, p) for p in BANKS[:len(banks)]]
        bkw = {k: v for k, v in kw.items()
               if k in ("with_failed_parses", "with_punc", "with_empty_nodes")}
        alone = w.call("stats.banks", files=paths, kw=bkw)
        flags = ["-l"] if case["legend"] else []
        if case["all"]:
            flags.append("-a")
        else:
            flags += [FLAGS[o][case["long"]] for o in sorted(case["opts"])]
        gflags = [f for f in flags if f not in FLAGS["with_unaligned_roots"]
                  and f not in FLAGS["with_unaligned_graphs"]]
        tools = w.call("stats.tools", cwd=d, calls=[
            ["pgc_stats.py", flags + (["-t", "0"] if case["long"] else []) + ["*.pgc"]],
            ["gb_stats.py", gflags + ["-F", "graphml", "gb/*.xml"]],
            ["pgc_stats.py", ["*.none"]]])
    rows, grows, both = [], [], False
    for name, pairs in zip(PGCS, case["corpora"]):
        r, g, b = corpus_stats(name, pairs, banks, kw)
        rows.append(r)
        grows.append(g)
        both = both or b
    same_table(pgc, rows, "pgc", both, "corpus table")
    same(len(gb["rows"]), sum(map(len, grows)), "rows of the graph bank table")
    at = 0
    for g in grows:
        same_rows(gb["rows"][at:at + len(g)], g, "gb", both, "graph bank table", ordered=False)
        at += len(g)
    same_table(gb, sum(grows, []), "gb", both, "graph bank table", ordered=False)
    same_table(alone, [bank_stats(p, n, b, bkw, alone=True)
                       for n, (p, b) in enumerate(zip(BANKS, banks))], "gb", False,
               "table of graph banks alone")
    # tools
    tkw = {o: True for o in (OPTIONS if case["all"] else case["opts"])}
    trows, tgrows, tboth = [], [], False
    for name, pairs in zip(PGCS, case["corpora"]):
        r, g, b = corpus_stats(name, pairs, banks, tkw)
        trows.append(r)
        tgrows += g
        tboth = tboth or b
    same([tools[0][0], tools[1][0]], [0, 0], "exit status (%s)" % tools[0][2][-300:])
    p, g = parse(tools[0][1], ["pgc", "gb"])
    same_table(p, trows, "pgc", tboth, "printed corpus table", 0.0051, ordered=False)
    same_table(g, tgrows, "gb", tboth, "printed graph bank table", 0.0051, ordered=False)
    for t, cls in ((p, "pgc"), (g, "gb")):
        same([l.split()[1] for l in t["legend"]], LABELS[cls] if case["legend"] else [], "legend")
    t = parse(tools[1][1], ["gb"])[0]
    same_table(t, [bank_stats(q, n, b, tkw, alone=True)
                   for n, (q, b) in enumerate(zip(BANKS, banks)) if q.count("/") == 1],
               "gb", False, "printed table of graph banks", 0.0051, ordered=False)
    check(tools[2][0] != 0, "no matching files, but exit status 0")
    return labels_for(rows, case["corpora"])


# --- directory trees ---

ANNOT = ["ma", "aa", "na"]
SUBS = ["s1", "s2", "d/s3"]


@st.composite
def seg_cases(draw):
    banks = draw(st.lists(bank(), min_size=2, max_size=2))
    subs = draw(st.lists(st.sampled_from(SUBS), min_size=1, max_size=2, unique=True))
    annots = draw(st.sampled_from([ANNOT, ANNOT, ["na"], ["ma", "na"], ["na", "ma"],
                                    ["aa", "na", "ma"], ["nb", "na"]]))
    targets = st.one_of(st.just([]), st.just(["all"]), st.lists(st.sampled_from(
        annots + subs + [a + "." + s for a in annots for s in subs]), min_size=1, max_size=2))
    tree = [[a, s, draw(st.lists(corpus(banks), max_size=2))] for a in annots for s in subs
            if draw(st.integers(0, 4))]
    more = [[draw(st.sampled_from(annots)), draw(st.sampled_from(subs)), draw(corpus(banks))]
            for _ in range(draw(st.integers(0, 2)))]
    return {"banks": banks, "subs": subs, "annots": annots, "tree": tree, "more": more,
            "name": draw(st.sampled_from(["SEG", "SEG", "news.2", "a b"])),
            "less": [[draw(st.sampled_from(annots)), draw(st.sampled_from(subs)), draw(st.booleans())]
                     for _ in range(draw(st.integers(0, 2)))],
            "broken": draw(st.sampled_from([None, None, None] + [[a, s] for a in annots for s in subs])),
            "targets": [draw(targets) for _ in "12"], "rel": draw(st.booleans()),
            "slash": draw(st.booleans()),
            "void": [[draw(st.sampled_from(annots)), draw(st.sampled_from(subs))]
                     for _ in range(draw(st.integers(0, 1)))],
            "pattern": draw(st.sampled_from([None, None, "c[02]*.pgc", "*1.pgc", "*.xml"])), "verbose": draw(st.sampled_from([None, True, False]))}


def run_seg(case, w):
    banks = case["banks"]
    labels = set()
    with TempDir(w) as d:
        write_banks(d, banks)
        here = os.path.join(d, "here")
        os.makedirs(here)
        paths = [os.path.join(d, p) for p in BANKS]
        there = {}
        sg = case["name"]

        def put(a, s, pairs):
            dr = os.path.join(d, sg, "pgc", a, s)
            os.makedirs(dr, exist_ok=True)
            known = there.setdefault((a, s), [])
            fn = "c%d.pgc" % len(known)
            with open(os.path.join(dr, fn), "w") as f:
                f.write(corpus_xml(pairs, banks, paths))
            known.append((fn, pairs))

        for a, s in case["void"]:
            # a directory without corpora
            os.makedirs(os.path.join(d, sg, "pgc", a, s), exist_ok=True)
            with open(os.path.join(d, sg, "pgc", a, s, "notes.txt"), "w") as f:
                f.write("no corpus")
        for a, s, cs in case["tree"]:
            for pairs in cs:
                put(a, s, pairs)
        seg = "../" + sg if case["rel"] else os.path.join(d, sg)
        kw = {"subseg_dirs": case["subs"]}
        if case["annots"] != ANNOT:
            kw["annot_dirs"] = case["annots"]
        if case["pattern"]:
            kw["pgc_files_pattern"] = case["pattern"]
        if case["verbose"] is not None:
            kw["verbose"] = case["verbose"]
        sub = {}
        before = set()
        args = {"cwd": here, "seg_dir": seg + ("/" if case["slash"] else ""), "kw": kw}
        if case["broken"]:
            # a summary that fails half-way
            dr = os.path.join(d, sg, "pgc", *case["broken"])
            os.makedirs(dr, exist_ok=True)
            with open(os.path.join(dr, "c0-1.pgc"), "w") as f:
                f.write("<parallel_graph_corpus>")
            got = w.call("stats.segments", targets=["all"], **args)
            check(got["cwd"], "working directory changed by a summary that failed")
            if case["pattern"] != "*.xml":
                check(got["error"], "a corpus that is not well-formed was accepted")
                labels.add("failed")
            os.remove(os.path.join(dr, "c0-1.pgc"))
            for fn in os.listdir(here):
                os.remove(os.path.join(here, fn))
        for n, targets in enumerate(case["targets"]):
            if n:
                for a, s, pairs in case["more"]:
                    put(a, s, pairs)
                for a, s, whole in case["less"]:
                    known = there.get((a, s), [])
                    for k in range(len(known))[0 if whole else 1:]:
                        if known[k][1] is not None:
                            os.remove(os.path.join(d, sg, "pgc", a, s, known[k][0]))
                            known[k] = (known[k][0], None)
                            labels.add("removed")
            got = w.call("stats.segments", targets=targets, **args)
            check(not got["error"], "failed: %s", got["error"])
            check(got["cwd"], "working directory changed")
            want = {"stats.%s.pgc" % sg: [], "stats.%s.gb" % sg: []}
            for a in case["annots"]:
                opts = {"with_unaligned_roots": True} if a == "na" else {}
                want["stats.%s.%s.pgc" % (sg, a)], want["stats.%s.%s.gb" % (sg, a)] = [], []
                for s in case["subs"]:
                    if not targets or set(targets) & {"all", a, s, a + "." + s}:
                        st_ = [corpus_stats(fn, pairs, banks, opts)
                               for fn, pairs in there.get((a, s), [])
                               if pairs is not None and fnmatch.fnmatchcase(fn, case["pattern"] or "*.pgc")]
                        sub[a, s] = ([x[0] for x in st_], sum([x[1] for x in st_], []),
                                     any(x[2] for x in st_))
                    elif n:
                        labels.add("kept")
                    base = "stats.%s.%s.%s" % (sg, a, s.replace("/", "."))
                    rows = sub.get((a, s), ([], [], False))
                    for k, cls in ((0, "pgc"), (1, "gb")):
                        want[base + "." + cls] = rows[k]
                        want["stats.%s.%s.%s" % (sg, a, cls)] += rows[k]
                        want["stats.%s.%s" % (sg, cls)] += rows[k]
            any_both = any(v[2] for v in sub.values())
            # an earlier table may remain, but not its rows
            want = {k: v for k, v in want.items() if v or k in got["tables"] and k in before}
            same(sorted(got["tables"]), sorted(want), "tables written")
            before = set(want)
            for k, rows in want.items():
                cls = k.split(".")[-1]
                same_rows(got["tables"][k]["rows"], rows, cls, any_both, k, 0.0051, ordered=False)
                t = parse(got["texts"][k], [cls])[0]
                same_table(t, rows, cls, any_both, k, 0.0051, ordered=False)
            if any(x[1] for v in sub.values() for x in v[0]):
                labels.add("nontrivial")
    return sorted(labels)


TESTS = [
    Test("tables", cases(), run, 900),
    Test("segments", seg_cases(), run_seg, 250),
]
