"""writing and reading corpus files"""
import os
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from core import TempDir, Test, check, same, short
from props.C03 import model_add
from props.pgcgen import (corpora, clean, distinct_graphs, expected, lay_out, real, text, uses_more)

RULE = ("corpora of up to 6 (or 25) graph pairs over up to 5 (or 17) graphbank objects (duplicates and symbolic "
        "links to the same file, special characters), with relations, alignments and arbitrary "
        "XML meta data (including tags of the corpus format), written to a path, relative "
        "path, file or buffer, absolute or relative, indented or not, in several directories, "
        "read back in all three loading modes, deep-copied and written elsewhere; "
        "histories of building, writing, reading, joining, slicing, copying and purging several "
        "corpora that share objects; "
        "non-trivial: at least two pairs, and a bank used through two objects or paths or "
        "meta data")
NAMES = ["c1.pgc", "out/c2.pgc", "out/deep/er/c3.pgc", "banks/c4.pgc", "linkout/c5.pgc", "linkfile.pgc"]
LINKOUT = "out/deep/er"


def parse_file(t, base, name):
    root = ET.fromstring(t.encode("utf-8"))
    same(root.tag, "parallel_graph_corpus", "root element")
    kids = [e.tag for e in root]
    same([k for k in kids if k != "corpus_meta_data"],
         ["graphbanks", "node_relations", "aligned_graphs"], "sections")
    files, raw = {}, []
    for e in root.find("graphbanks"):
        same(e.tag, "file", "graphbanks element")
        check(e.get("id") not in files, "duplicate graphbank id %s", e.get("id"))
        path = e.text
        raw.append(path)
        if not os.path.isabs(path):
            path = os.path.join(os.path.dirname(os.path.join(os.path.realpath(base), name)), path)
        files[e.get("id")] = (os.path.normpath(path), e.get("format"))
    pairs = []
    for i, e in enumerate(root.find("aligned_graphs")):
        same(e.get("n"), str(i + 1), "number of the graph pair")
        pairs.append({
            "banks": [files[e.get(k)][0] for k in ("from_bank_id", "to_bank_id")],
            "graphs": [e.get("from_graph_id"), e.get("to_graph_id")],
            "al": sorted([n.get("from_node_id"), n.get("to_node_id"), n.get("relation")]
                         for n in e if n.tag == "node_pair"),
            "extra": [n.tag for n in e if n.tag != "node_pair"]})
    return {"files": sorted(files.values()), "raw": raw, "pairs": pairs,
            "relations": [e.text for e in root.find("node_relations")]}


def annotate(meta, annots):
    """the annotator after set_annotator calls, starting from the meta data"""
    a = None
    if meta is not None:
        a = ET.fromstring(meta).find("annotator")
        a = a.text if a is not None else None
    for name, append in annots:
        a = a + " + " + name if a and append else name
    return a


def run_roundtrip(case, w):
    spec = case["corpus"]
    with TempDir(w) as d:
        os.makedirs(os.path.join(d, "out/deep/er"))
        lay_out(d, more=uses_more(spec))
        os.symlink(os.path.join(d, LINKOUT), os.path.join(d, "linkout"))
        os.symlink(os.path.join(d, LINKOUT, "file.pgc"), os.path.join(d, "linkfile.pgc"))
        r = w.call("pgc.roundtrip", dir=d, **case)
        e = expected(spec, d)
        before = clean(r["before"])
        meta = before.pop("meta")
        want_meta = e.pop("meta")
        same(before, e, "corpus as built")
        if not case["annot"]:
            same(meta, want_meta, "corpus meta data as built")
        ann = annotate(spec["meta"], case["annot"])
        same((r["before"]["annotator"] or "").strip(), (ann or "").strip(), "annotator")
        e["meta"] = meta
        same(r["after"], r["before"], "corpus after writing it")
        for mode, dump, ab, ba, ne in r["read"]:
            same(clean(dump), e, "corpus read back (%s)" % mode)
            same([ab, ba, ne], [True, True, False], "==, ==, != with the original (%s)" % mode)
        dump, ac, ad = r["again"]
        same(clean(dump), e, "corpus written elsewhere and read back")
        same([ac, ad], [True, True], "equality after writing elsewhere")
        banks = sorted({b for p in e["pairs"] for b in p["banks"]})
        for t in ("text", "text2"):
            x = parse_file(r[t], d, case["names"][0].replace("linkout", LINKOUT))
            same([f[0] for f in x["files"]], banks, "graphbank files in " + t)
            check(all(f[1] == "graphml" for f in x["files"]), "format of graphbank files")
            for p in x["raw"]:
                same(os.path.isabs(p), case["abs"], "absolute path %s" % p)
            same(x["relations"], e["relations"], "relations in " + t)
            for got, want in zip(x["pairs"], e["pairs"]):
                for k in ("banks", "graphs", "al"):
                    same(got[k], want[k], "%s in %s" % (k, t))
            same(len(x["pairs"]), len(e["pairs"]), "number of graph pairs")
    labels = [case["how"]]
    n = len(spec["banks"])
    used = {i % n for p in spec["pairs"] for i in (p["src"], p["trg"])}
    if len(used) > len(banks):
        labels.append("duplicate_banks")
    if len(spec["pairs"]) > 1 and ("duplicate_banks" in labels or spec["meta"] or
                                   any(p["meta"] for p in spec["pairs"])):
        labels.append("nontrivial")
    return labels


def run_library(case, w):
    """a history over several corpora that share graph pairs and graphbank objects"""
    with TempDir(w) as d:
        os.makedirs(os.path.join(d, LINKOUT))
        lay_out(d)
        os.symlink(os.path.join(d, LINKOUT), os.path.join(d, "linkout"))
        os.symlink(os.path.join(d, LINKOUT, "file.pgc"), os.path.join(d, "linkfile.pgc"))
        r = w.call("pgc.library", dir=d, **case)
        model, files, labels = [], {}, set()
        for i, (op, res) in enumerate(zip(case["ops"], r["trace"])):
            where = "step %d %r" % (i, op if op[0] != "build" else "build")
            kind = op[0]
            a = model[op[1] % len(model)] if model and kind not in ("build", "read") else None
            if kind == "build":
                model.append(expected(op[1], d))
            elif kind == "write":
                name = op[2].replace("linkout", LINKOUT)
                files[name] = a
                got = parse_file(res, d, name)
                banks = sorted({b for p in a["pairs"] for b in p["banks"]})
                same([f[0] for f in got["files"]], banks, where + ": graphbank files")
                same(got["relations"], a["relations"], where + ": relations")
                same(len(got["pairs"]), len(a["pairs"]), where + ": number of graph pairs")
                for x, y in zip(got["pairs"], a["pairs"]):
                    for k in ("banks", "graphs", "al"):
                        same(x[k], y[k], "%s: %s" % (where, k))
                if i and len(banks) > 1:
                    labels.add("nontrivial")
            elif kind == "read":
                name = op[1].replace("linkout", LINKOUT)
                same(res is not None, name in files, where + ": file exists")
                if name in files:
                    model.append(files[name])
            elif kind in ("add", "extend"):
                b = model[op[2] % len(model)]
                new = dict(a, pairs=a["pairs"] + b["pairs"])
                if kind == "add":
                    model.append(new)
                else:
                    model[op[1] % len(model)] = new
            elif kind == "slice":
                model.append(dict(a, pairs=a["pairs"][op[2]:op[3]]))
            elif kind == "copy":
                model.append(a)
        for i, (got, want) in enumerate(zip(r["dumps"], model)):
            same(clean(got), want, "corpus %d at the end" % i)
        same(len(r["dumps"]), len(model), "number of corpora")
    return labels


@st.composite
def libraries(draw):
    specs = corpora(max_pairs=3).filter(distinct_graphs).map(
        lambda c: dict(c, relations=["equals"], meta=None))
    # built from the same graphbank paths, so that files do coincide
    ops = [["build", draw(specs)] for _ in range(draw(st.integers(1, 3)))]
    i = st.integers(0, 5)
    name = st.sampled_from(NAMES)
    write = st.tuples(st.just("write"), i, name, st.sampled_from(["path", "rel", "file"]),
                      st.booleans())
    ops += draw(st.lists(st.one_of(
        write, write, write,
        st.tuples(st.just("read"), name, st.sampled_from(["none", "sparse", "all"])),
        st.tuples(st.just("read"), name, st.just("none")),
        st.tuples(st.just("add"), i, i), st.tuples(st.just("add"), i, i),
        st.tuples(st.just("extend"), i, i),
        st.tuples(st.just("slice"), i, st.integers(0, 4), st.integers(0, 5)),
        st.tuples(st.just("copy"), i), st.tuples(st.just("purge"), i)),
        min_size=2, max_size=8))
    for k in range(len(ops) // 3):
        ops.append(draw(write))
    return {"ops": ops}


word = text.filter(lambda t: t.strip())
TESTS = [
    Test("roundtrip", st.fixed_dictionaries({
        "corpus": corpora(big=15).filter(distinct_graphs),
        "names": st.tuples(st.sampled_from(NAMES), st.sampled_from(NAMES)),
        "how": st.sampled_from(["path", "path", "rel", "file", "buffer"]),
        "how2": st.sampled_from(["path", "path", "rel", "file", "buffer"]),
        "abs": st.booleans(), "pprint": st.booleans(),
        "annot": st.one_of(st.just([]), st.lists(st.tuples(word, st.booleans()), max_size=3)),
    }), run_roundtrip, 1200),
    Test("library", libraries(), run_library, 600),
]
