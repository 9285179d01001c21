"""copying, packing and redirecting corpora"""
import os
import shutil
import xml.etree.ElementTree as ET
import zipfile

from hypothesis import strategies as st

from core import RemoteError, TempDir, Test, check, same
from props.C03 import model_add
from props.C11 import listing, order, write
from props.pgcgen import (BANKS, LINKED, bank_xml, clean, corpora, corpus_text, distinct_graphs,
                          expected, lay_out, read_corpus, same_corpus, text)

RULE = ("the copy, zip and change-directory tools run on one to three generated corpus files "
        "with relative or absolute graphbank paths, links, missing and invalid sources, "
        "existing and identical targets, shared and same-named graphbanks, file elements "
        "inside meta data; resulting files and their meaning compared with a model of the "
        "directory tree; non-trivial: a file was written and refers to a graphbank")
SOURCES = ["c0.pgc", "sub/c 1.pgc", "sub/deep/c2.x.pgc"]


def one_to_one(spec):
    pairs = []
    for p in spec["pairs"]:
        al = {}
        for a, b, r in p["al"]:
            model_add(al, True, a, b, r)
        pairs.append(dict(p, al=[[a, b, r] for (a, b), r in al.items()]))
    return dict(spec, pairs=pairs)


def prepare(d, case):
    lay_out(d)
    os.makedirs(os.path.join(d, "out/dir"))
    os.makedirs(os.path.join(d, "sub/deep"))
    for name, spec in zip(SOURCES, case["corpora"]):
        write(d, name, spec, abs_path=case["abs"])
    with open(os.path.join(d, "bad.pgc"), "w") as f:
        f.write("<parallel_graph_corpus><graphbanks>")
    os.symlink(os.path.join(d, "c0.pgc"), os.path.join(d, "link.pgc"))
    if case["gone"]:
        os.remove(os.path.join(d, "banks/b1.xml"))


def run_cp(case, w):
    labels = []
    with TempDir(w) as d:
        prepare(d, case)
        n = len(case["corpora"])
        sources = [s for s in case["sources"] if s not in SOURCES[n:]]
        if not sources:
            sources = SOURCES[:1]
        target = case["target"]
        if case["exists"] and not os.path.exists(os.path.join(d, target)):
            with open(os.path.join(d, target), "w") as f:
                f.write("something else")
        if case["exists"] and os.path.isdir(os.path.join(d, target)):
            t = os.path.join(d, target, os.path.basename(sources[0]))
            if not os.path.exists(t):
                with open(t, "w") as f:
                    f.write("something else")
        before = listing(d)
        full = (lambda p: p) if case["rel"] else (lambda p: os.path.join(d, p))
        argv = (["-o"] if case["overwrite"] else []) + [full(s) for s in sources] + [full(target)]
        r = w.call("tools.run", calls=[["pgc_cp.py", argv]], cwd=d)[0]
        after = listing(d)
        isdir = target in ("out", "out/dir", "sub")
        if len(sources) > 1 and not isdir:
            check(r[0] != 0, "several sources copied to a single file")
            same(after, before, "files")
            return ["rejected"]
        same(r[0], 0, "exit status")
        want, specs = dict(before), {}
        warned = 0
        for s in sources:
            t = os.path.join(target, os.path.basename(s)) if isdir else target
            src = "c0.pgc" if s == "link.pgc" else s
            dest = "c0.pgc" if t == "link.pgc" else t
            if src not in SOURCES[:n] or dest == src or (dest in want and not case["overwrite"]):
                # a source that an earlier copy has replaced is still a corpus
                warned += 1
                continue
            specs[dest] = specs.get(src, (SOURCES.index(src) if src in SOURCES else None))
            want[dest] = None
        same(sorted(after), sorted(want), "files")
        for f in want:
            if want[f] is not None:
                same(after[f], want[f], "file " + f)
        same(len([x for x in r[2].split("\n") if x.startswith("warning:")]), warned,
             "warnings: " + r[2])
        for f, i in specs.items():
            spec = case["corpora"][i]
            same_corpus(read_corpus(os.path.join(d, f)), expected(spec, d), "copy " + f)
            if spec["pairs"]:
                labels.append("nontrivial")
        # sources as they were, unless overwritten
    return set(labels)


def run_zip(case, w):
    case = dict(case, corpora=[one_to_one(c) for c in case["corpora"]])
    with TempDir(w) as d:
        prepare(d, dict(case, gone=False))
        n = len(case["corpora"])
        sources = SOURCES[:n]
        for i, s in enumerate(sources):
            if case["same_name"] and i:
                # another corpus with the same name
                with open(os.path.join(d, s), "rb") as f:
                    t = f.read()
                os.remove(os.path.join(d, s))
                sources[i] = os.path.join(os.path.dirname(s), "c0.pgc")
                with open(os.path.join(d, sources[i]), "wb") as f:
                    f.write(t)
        argv = [os.path.join(d, case["zip"])] + [
            s if case["rel"] else os.path.join(d, s) for s in sources]
        if case["twice"]:
            argv.append(argv[1])
        with open(os.path.join(d, "banks/b1.xml"), "w") as f:
            f.write(bank_xml().replace("<graphml>", "<graphml><!-- first -->"))
        if case["clash"]:
            os.mkdir(os.path.join(d, "other"))
            os.rename(os.path.join(d, "b4.xml"), os.path.join(d, "other/b1.xml"))
            for i, s in enumerate(sources):
                spec = dict(case["corpora"][i])
                paths = []
                for b in spec["banks"]:
                    p = os.path.realpath(os.path.join(d, b["path"]))
                    if b["path"] in ("b4.xml", "banks/b5.xml"):
                        p = os.path.join(os.path.realpath(d), "other/b1.xml")
                    paths.append(p)
                with open(os.path.join(d, s), "w", encoding="utf-8") as f:
                    f.write(corpus_text(spec, d, s, paths=paths))
        before = listing(d)
        meant = [read_corpus(os.path.join(d, s)) for s in sources]
        members = {}
        clash = False
        for s in sources:
            root = ET.parse(os.path.join(d, s)).getroot()
            where = os.path.dirname(os.path.join(d, s))
            for m in [s] + [e.text.strip() for e in root.find("graphbanks")]:
                if m != s:
                    m = os.path.join(where, m)
                m = os.path.join(d, m)
                name = os.path.basename(m)
                if members.setdefault(name, os.path.realpath(m)) != os.path.realpath(m):
                    clash = True
        r = w.call("tools.run", calls=[["pgc_zip.py", argv]], cwd=d)[0]
        after = listing(d)
        made = after.pop(case["zip"], None)
        same(after, before, "files other than the archive")
        if clash:
            check(r[0] != 0, "different files of the same name are packed: %s", members)
            return ["clash"]
        same(r[0], 0, "exit status: " + r[2])
        check(made is not None, "no archive")
        top = os.path.splitext(os.path.basename(case["zip"]))[0]
        with zipfile.ZipFile(os.path.join(d, case["zip"])) as z:
            same(sorted(z.namelist()), sorted(top + "/" + x for x in members), "files in the archive")
            for x, m in members.items():
                with open(m, "rb") as f:
                    check(z.read(top + "/" + x) == f.read(), "content of %s in the archive", x)
            there = os.path.join(d, "unpacked")
            os.mkdir(there)
            for x in members:
                with open(os.path.join(there, x), "wb") as f:
                    f.write(z.read(top + "/" + x))
        # at the other site
        for m in set(members.values()):
            os.remove(m)
        for s, m in zip(sources, meant):
            g = w.call("pgc.loading", dir=d, name="unpacked/" + os.path.basename(s), mode="all",
                       how=case["how"], relax=True)
            check("error" not in g, "unpacked corpus is not readable: %s", g.get("error"))
            strip = lambda c: [dict(p, banks=None) for p in c["pairs"]]
            got = clean(g["corpus"])
            same(got["meta"], m["meta"], "unpacked corpus %s: meta" % s)
            same(strip(got), strip(m), "unpacked corpus %s: pairs" % s)
            for p, q in zip(got["pairs"], m["pairs"]):
                same([members[os.path.basename(b)] for b in p["banks"]], q["banks"],
                     "originals of the graphbanks used by unpacked corpus " + s)
    return ["nontrivial"] if any(m["pairs"] for m in meant) else []


def run_chdir(case, w):
    labels = []
    with TempDir(w) as d:
        n = len(case["corpora"])
        paths = {}
        for s, spec, ps in zip(SOURCES, case["corpora"], case["paths"]):
            k = len(spec["banks"])
            paths[s] = [ps[i % len(ps)] for i in range(k)]
            write(d, s, spec, paths=paths[s])
        before = {s: read_corpus(os.path.join(d, s), where="/w") for s in SOURCES[:n]}
        files = listing(d)
        argv = [f for f, on in (("-t", case["test"]), ("-V", case["verbose"])) if on]
        argv += [s if case["rel"] else os.path.join(d, s) for s in SOURCES[:n]]
        if case["pair"]:
            argv += ["-p"] + case["pair"]
        r = w.call("tools.run", calls=[["pgc_chdir.py", argv]], cwd=d)[0]
        same(r[0], 0, "exit status")
        after = listing(d)
        same(sorted(after), sorted(files), "files")
        old, new = case["pair"] or ("", "")
        if case["test"]:
            same(after, files, "files after a dry run")
            return []
        for s, spec in zip(SOURCES, case["corpora"]):
            changed = [new + p[len(old):] if p.startswith(old) else p for p in paths[s]]
            with TempDir(w) as d2:
                write(d2, s, spec, paths=changed)
                want = read_corpus(os.path.join(d2, s), where="/w")
            got = read_corpus(os.path.join(d, s), where="/w")
            same(got, want, "corpus " + s)
            raw = [e.text.strip() for e in ET.parse(os.path.join(d, s)).find("graphbanks")]
            same(raw, changed, "graphbank paths in " + s)
            if changed != paths[s]:
                labels.append("nontrivial")
    return set(labels)


@st.composite
def lists(draw):
    return [draw(corpora(max_pairs=3).filter(distinct_graphs))
            for _ in range(draw(st.integers(1, 3)))]


path = st.sampled_from(["../gb/a.xml", "../gb/b.xml", "../gb2/a.xml", "gb/../gb/a.xml", "../gb/../gb/b.xml", "a/a.xml",
                        "/abs/gb/a & b.xml", "a.xml", "caf\u00e9/a.xml"])
prefix = st.sampled_from(["../gb", "../gb/", "..", "", "/abs", "gb", "a", "x", "../new dir/&",
                          "../../gb"])
flags = {k: st.booleans() for k in ("abs", "rel", "overwrite", "exists", "twice", "verbose")}
some = st.integers(0, 3).map(lambda x: x == 0)
TESTS = [
    Test("cp", st.fixed_dictionaries(dict(
        flags, corpora=lists(), gone=some,
        sources=st.one_of(
            st.lists(st.sampled_from(SOURCES), min_size=1, max_size=2, unique=True),
            st.sampled_from(SOURCES).map(lambda x: [x]),
            st.lists(st.sampled_from(SOURCES + ["gone.pgc", "bad.pgc", "link.pgc"]),
                     min_size=1, max_size=4)),
        target=st.sampled_from(["out", "out/dir", "sub", "out/new.pgc", "new.pgc", "link.pgc",
                                "sub/deep/new.pgc", "sub/c 1.pgc"]))), run_cp, 500),
    Test("zip", st.fixed_dictionaries(dict(
        flags, corpora=lists(), zip=st.sampled_from(["a.zip", "out/b.c.zip", "out/dir/x"]),
        clash=some, same_name=some, how=st.sampled_from(["path", "parser"]).map(
            lambda x: "parser"))), run_zip, 400),
    Test("chdir", st.fixed_dictionaries(dict(
        flags, corpora=lists(), test=some,
        paths=st.lists(st.lists(path, min_size=1, max_size=4), min_size=3, max_size=3),
        pair=st.one_of(st.none(), st.lists(prefix, min_size=2, max_size=2)))), run_chdir, 400),
]
