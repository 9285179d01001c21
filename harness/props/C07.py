"""loading graphs from graphbanks"""
import os
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

from core import TempDir, Test, check, same, short
from props import C06
from props.C03 import model_add
from props.pgcgen import canon, metas

RULE = ("corpus files written by the check over one to three generated GraphML graphbanks, "
        "with shared graphs and banks listed twice, unknown elements, the deprecated format "
        "attribute, missing graphs, files, banks or attributes, and graphbanks moved next to the "
        "corpus; loaded in every mode and by every entry point; graphbank objects over links "
        "and missing files compared; graphs and graphbanks released after removing graph pairs; "
        "non-trivial: sparse or full loading with at least two pairs, or an error")
NODES = ["n0", "n1", "n2"]
RELS = ["equals", "restates"]


def corpus_xml(case, d):
    out = ["<parallel_graph_corpus>"]
    extra = case["extra"]
    if case["meta"]:
        out.append(case["meta"])
    out.append("<graphbanks%s>" % (' format="graphml"' if case["deprecated"] else ""))
    for i, f in enumerate(case["files"]):
        path = "../gb/b%d.xml" % f["bank"]
        if case["missing"] == "file" and i == 0:
            path = "../gb/gone.xml"
        if f["abs"]:
            path = os.path.join(d, "pgc", path)
        if f["pad"]:
            path = "\n    %s " % path
        out.append("<file id=%s%s>%s</file>" % (
            quoteattr(f["id"]), "" if case["deprecated"] and f["pad"] else ' format="graphml"',
            escape(path)))
    if "file" in extra:
        out.append("<unknown>x</unknown>")
    out.append("</graphbanks><node_relations>")
    out += ["<relation> %s </relation>" % r for r in RELS]
    out.append("</node_relations>")
    if "top" in extra:
        out.append("<unknown a='b'><x/></unknown>")
    out.append("<aligned_graphs>")
    for i, p in enumerate(case["pairs"]):
        at = dict(p["at"])
        if case["missing"] in at and i == 0:
            del at[case["missing"]]
        out.append("<graph_pair%s>" % "".join(" %s=%s" % (k, quoteattr(v))
                                              for k, v in sorted(at.items())))
        if p["meta"]:
            out.append(p["meta"])
        if p["nested"]:
            out.append("<aligned_nodes>")
        out += ["<node_pair from_node_id='%s' to_node_id='%s' relation='%s'/>" % tuple(a)
                for a in p["al"]]
        if p["nested"]:
            out.append("</aligned_nodes>")
        out.append("</graph_pair>")
    out.append("</aligned_graphs></parallel_graph_corpus>")
    return "\n".join(out)


def run_load(case, w):
    mode = case["mode"]
    relax = case["relax"] and case["how"] != "path"
    with TempDir(w) as d:
        real = os.path.realpath(d)
        for p in ("gb", "pgc"):
            os.mkdir(os.path.join(d, p))
        for i, doc in enumerate(case["banks"]):
            where = "pgc" if case["moved"] and i == 0 else "gb"
            with open(os.path.join(d, where, "b%d.xml" % i), "w", encoding="utf-8") as f:
                f.write(C06.serialise(doc))
        with open(os.path.join(d, "pgc/c.pgc"), "w", encoding="utf-8") as f:
            f.write(corpus_xml(case, d))
        r = w.call("pgc.loading", dir=d, name="pgc/c.pgc", mode=mode, how=case["how"],
                   relax=relax)
        # what should happen
        table = {f["id"]: f for f in case["files"]}
        docs = [C06.interpret(x) for x in case["banks"]]
        ids = [sorted(x) for x in docs]
        error = set()
        for i, p in enumerate(case["pairs"]):
            at = p["at"]
            if i == 0 and case["missing"] in at:
                error.add("attrib")
            for b, g in (("from_bank_id", "from_graph_id"), ("to_bank_id", "to_graph_id")):
                if at[b] not in table:
                    error.add("bank")
                elif mode != "none" and at[g] not in ids[table[at[b]]["bank"]]:
                    error.add("graph")
        gone = {f["bank"] for i, f in enumerate(case["files"])
                if (case["missing"] == "file" and i == 0)}
        unread = [f for i, f in enumerate(case["files"])
                  if (case["missing"] == "file" and i == 0) or
                  (case["moved"] and f["bank"] == 0 and not relax)]
        if mode != "none" and unread:
            error.add("file")
        labels = [mode]
        if error:
            check("error" in r, "no error although the corpus lacks: %s", sorted(error))
            labels += ["nontrivial", "error"]
            if error == {"graph"} and mode == "sparse":
                names = [p["at"][g] for p in case["pairs"]
                         for b, g in (("from_bank_id", "from_graph_id"),
                                      ("to_bank_id", "to_graph_id"))
                         if p["at"][g] not in ids[table[p["at"][b]]["bank"]]]
                check(any('"%s"' % n in r["error"] for n in names),
                      "message %s names none of %s", short(r["error"]), names)
            return labels
        check("error" not in r, "unexpected DaesoError: %s", r.get("error"))
        same(r["warned"] > 0, bool(case["extra"] or case["deprecated"]), "warnings issued")

        def path(f, i):
            if case["missing"] == "file" and i == 0:
                name = "gone.xml"
            else:
                name = "b%d.xml" % f["bank"]
            here = os.path.join(real, "gb", name)
            if relax and not os.path.exists(here):
                here = os.path.join(real, "pgc", name)
            return here

        paths = {f["id"]: path(f, i) for i, f in enumerate(case["files"])}
        pairs = []
        for p in case["pairs"]:
            al = {}
            for a in p["al"]:
                model_add(al, True, *a)
            pairs.append({"banks": [paths[p["at"][k]] for k in ("from_bank_id", "to_bank_id")],
                          "formats": ["graphml"] * 2,
                          "graphs": [p["at"][k] for k in ("from_graph_id", "to_graph_id")],
                          "al": sorted([a, b, x] for (a, b), x in al.items()),
                          "meta": canon(p["meta"] or "<graph_meta_data/>")})
        got = r["corpus"]
        same(got["relations"], sorted(RELS), "relations")
        same(canon(got["meta"]), canon(case["meta"]), "meta data")
        same([dict(p, meta=canon(p["meta"])) for p in got["pairs"]], pairs, "graph pairs")
        # identity: one object per listed bank, one per graph in it
        where, gwhere = {}, {}
        for p, row in zip(case["pairs"], r["index"]):
            for (b, g), (bi, gi) in zip((("from_bank_id", "from_graph_id"),
                                         ("to_bank_id", "to_graph_id")), row):
                b, g = p["at"][b], p["at"][g]
                same(where.setdefault(b, bi), bi, "graphbank objects of id %s" % b)
                same(gwhere.setdefault((b, g), gi), gi, "graph objects of %s in %s" % (g, b))
        same(len(set(where.values())), len(where), "number of graphbank objects")
        same(len(set(gwhere.values())), len(gwhere), "number of graph objects")
        for (b, g), gi in gwhere.items():
            x = r["graphs"][gi]
            if mode == "none":
                same(x, {"stub": True, "id": g}, "graph stub")
            else:
                same(x, docs[table[b]["bank"]][g], "graph %s of bank %s" % (g, b))
        for b, bi in where.items():
            want = ids[table[b]["bank"]] if mode == "all" else \
                sorted(g for x, g in gwhere if x == b)
            same(r["banks"][bi],
                 [paths[b], "GraphBank" if mode == "all" else "SparseGraphBank",
                  len(want), want], "graphbank %s" % b)
        same(r["lookup"], [True] * len(pairs), "graphs of the pairs looked up in their banks")
    if mode != "none" and len(pairs) > 1:
        labels.append("nontrivial")
    if len(gwhere) < 2 * len(pairs):
        labels.append("shared_graph")
    return labels


@st.composite
def cases(draw):
    banks = draw(st.lists(C06.documents(big=15).filter(lambda x: not x["bad"]),
                          min_size=1, max_size=3))
    files = [{"id": str(i + 1), "bank": i, "abs": draw(st.booleans()),
              "pad": draw(st.booleans())} for i in range(len(banks))]
    for k in range(draw(st.sampled_from([0, 0, 0, 0, 1, 1, 6]))):
        files.append({"id": "again%d" % k, "bank": draw(st.integers(0, len(banks) - 1)),
                      "abs": draw(st.booleans()), "pad": False})
    stray = draw(st.integers(0, 9)) == 0
    pairs = []
    many = max(len(b["graphs"]) for b in banks) > 6 or draw(st.integers(0, 5)) == 0
    for _ in range(draw(st.integers(0, 18 if many else 5))):
        ends = []
        for _ in range(2):
            f = draw(st.sampled_from(files))
            ids = [g["id"] for g in banks[f["bank"]]["graphs"]]
            if stray or not ids:
                ids = ids + ["g99"]
            bid = f["id"]
            if stray and draw(st.integers(0, 4)) == 0:
                bid = "nobank"
            ends.append([bid, draw(st.sampled_from(ids))])
        if ends[0] == ends[1] or (not stray and "g99" in (ends[0][1], ends[1][1])):
            continue
        pairs.append({
            "at": dict(zip(["from_bank_id", "from_graph_id", "to_bank_id", "to_graph_id"],
                           ends[0] + ends[1])),
            "al": draw(st.lists(st.tuples(st.sampled_from(NODES), st.sampled_from(NODES),
                                          st.sampled_from(RELS)), max_size=3)),
            "meta": draw(st.one_of(st.none(), metas("graph_meta_data"))),
            "nested": draw(st.booleans())})
    return {"banks": banks, "files": files, "pairs": pairs,
            "meta": draw(st.one_of(st.none(), metas("corpus_meta_data"))),
            "extra": draw(st.sampled_from([[], [], ["file"], ["top"]])),
            "deprecated": draw(st.integers(0, 4)) == 0,
            "missing": draw(st.sampled_from([None] * 12 + ["file", "from_bank_id", "to_bank_id",
                                                           "from_graph_id", "to_graph_id"])),
            "moved": draw(st.integers(0, 3)) == 0, "relax": draw(st.integers(0, 3)) > 0,
            "mode": draw(st.sampled_from(["all", "sparse", "sparse", "none"])),
            "how": draw(st.sampled_from(["path", "parser", "file", "rel", "buffer"]))}


FILES = ["a.xml", "sub/b.xml"]
PATHS = FILES + ["link.xml", "dir/b.xml", "gone.xml", "gone2.xml", "./a.xml", "sub/../a.xml",
                 "link2.xml", "hard.xml", "hard2.xml"]
TARGET = {"hard.xml": "a.xml", "hard2.xml": "sub/b.xml", "link.xml": "a.xml", "dir/b.xml": "sub/b.xml", "./a.xml": "a.xml",
          "sub/../a.xml": "a.xml", "link2.xml": "a.xml"}


def run_banks(case, w):
    with TempDir(w) as d:
        os.mkdir(os.path.join(d, "sub"))
        r = w.call("graphs.bank_ops", dir=d, files=FILES,
                   links=[["a.xml", "link.xml"], ["sub", "dir"], ["link.xml", "link2.xml"]],
                   hard=[["a.xml", "hard.xml"], ["sub/b.xml", "sub/hard2.xml"],
                         ["sub/hard2.xml", "hard2.xml"]],
                   pairs=case["pairs"], formats=case["formats"])
    labels = []
    for (p, q), got in zip(case["pairs"], r["eq"]):
        e = TARGET.get(p, p) == TARGET.get(q, q)
        same(got, [e, not e, e, not e], "graphbanks %s and %s: ==, !=, swapped" % (p, q))
        if p != q:
            labels.append("nontrivial")
    for f, got in zip(case["formats"], r["errs"]):
        same(got, "IOError" if f.lower() == "graphml" else "AssertionError",
             "loading a missing graphbank in format " + f)
    return labels


def run_release(case, w):
    spec = case["spec"]
    with TempDir(w) as d:
        for i, doc in enumerate(spec["banks"]):
            os.makedirs(os.path.join(d, "gb"), exist_ok=True)
            with open(os.path.join(d, "gb", "b%d.xml" % i), "w", encoding="utf-8") as f:
                f.write(C06.serialise(doc))
        os.mkdir(os.path.join(d, "pgc"))
        with open(os.path.join(d, "pgc/c.pgc"), "w", encoding="utf-8") as f:
            f.write(corpus_xml(spec, d))
        n = len(spec["pairs"])
        remove = [i for i in range(n) if case["remove"][i]]
        r = w.call("pgc.released", dir=d, name="pgc/c.pgc", mode=spec["mode"], remove=remove,
                   how=case["how"])
    kept = [x for i, x in enumerate(r["index"]) if i not in remove]
    same(r["len"], len(kept), "graph pairs left")
    banks = {x for row in kept for x in row[:2]}
    same(r["alive"][0], sorted(banks), "graphbanks left when pairs %s are removed" % remove)
    graphs = {x for row in kept for x in row[2:]}
    if spec["mode"] == "all":       # banks hold all of their graphs
        graphs = {g for row in r["index"] for b, g in zip(row[:2], row[2:]) if b in banks}
    same(r["alive"][1], sorted(graphs), "graphs left when pairs %s are removed" % remove)
    ids = sorted({(x["at"][b], x["at"][g]) for i, x in enumerate(spec["pairs"])
                  if i not in remove for b, g in (("from_bank_id", "from_graph_id"),
                                                  ("to_bank_id", "to_graph_id"))})
    if spec["mode"] == "sparse":
        want = [[g for b, g in ids if b == x["at"][k]] for i, x in enumerate(spec["pairs"])
                if i not in remove for k in ("from_bank_id", "to_bank_id")]
        same(r["ids"], want, "graphs found in the graphbanks")
    return ["nontrivial"] if remove and kept else []


@st.composite
def releases(draw):
    spec = draw(cases().filter(lambda c: len(c["pairs"]) > 1 and all(
        x["at"][b] != "nobank" and x["at"][g] != "g99" for x in c["pairs"]
        for b, g in (("from_bank_id", "from_graph_id"), ("to_bank_id", "to_graph_id")))))
    # without loading, stubs know the pairs they are shared by
    mode = "all" if spec["mode"] == "all" else "sparse"
    return {"spec": dict(spec, missing=None, moved=False, mode=mode), "how": draw(st.sampled_from(
        ["del", "pop"])), "remove": draw(st.lists(st.booleans(), min_size=18, max_size=18))}


TESTS = [
    Test("release", releases(), run_release, 300),
    Test("load", cases(), run_load, 1800),
    Test("banks", st.fixed_dictionaries({
        "pairs": st.lists(st.tuples(st.sampled_from(PATHS), st.sampled_from(PATHS)),
                          min_size=1, max_size=6),
        "formats": st.lists(st.sampled_from(["graphml", "GraphML", "nosuch", "x"]), max_size=2)}), run_banks, 400),
]
