"""splitting and joining corpora"""
import os

from hypothesis import strategies as st

from core import TempDir, Test, check, same
from props.pgcgen import (corpora, corpus_text, distinct_graphs, expected, lay_out, read_corpus,
                          same_corpus, uses_more)

RULE = ("corpus files of up to 12 graph pairs over several graphbanks, split into any number "
        "or size of parts and the parts joined in a shuffled order of arguments or by pattern; "
        "corpora of unequal relations and several source corpora joined; files compared by an "
        "independent reader; non-trivial: at least two parts or two corpora of together three "
        "pairs")


def write(d, name, spec, **kw):
    path = os.path.join(d, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(corpus_text(spec, d, name, **kw))
    return path


def listing(d):
    out = {}
    for top, dirs, files in os.walk(d):
        for p in files:
            p = os.path.join(top, p)
            if not os.path.islink(p):
                with open(p, "rb") as f:
                    out[os.path.relpath(p, d)] = f.read()
    return out


def run_split(case, w):
    spec = case["corpus"]
    n = len(spec["pairs"])
    with TempDir(w) as d:
        lay_out(d, more=uses_more(spec))
        name = case["name"]
        write(d, name, spec, abs_path=case["abs"])
        want = expected(spec, d)
        before = listing(d)
        argv = ["-f"] if case["format"] else []
        if case["size"]:
            argv += ["-s", str(case["size"])]
        elif case["parts"]:
            argv += ["--parts", str(case["parts"])]
        cwd, arg = d, os.path.join(d, name)
        if case["rel"]:
            cwd, arg = os.path.split(arg)
        r = w.call("tools.run", calls=[["pgc_split.py", argv + [arg]]], cwd=cwd)
        same(r[0][0], 0, "exit status")
        after = listing(d)
        root, ext = os.path.splitext(name)
        parts = sorted(set(after) - set(before))
        same({k: v for k, v in after.items() if k in before}, before, "existing files")
        i = 0
        sizes = []
        for p in parts:
            got = read_corpus(os.path.join(d, p))
            k = len(got["pairs"])
            same(p, "%s_%04d-%04d%s" % (root, i + 1, i + k, ext), "name of the part")
            same_corpus(got, dict(want, pairs=want["pairs"][i:i + k]), p)
            sizes.append(k)
            i += k
        same(i, n, "pairs in all parts")
        if case["size"]:
            full, rest = divmod(n, case["size"])
            same(sizes, [case["size"]] * full + [rest] * (rest > 0), "sizes of the parts")
        else:
            k = min(case["parts"] or 2, n)
            same(len(parts), k, "number of parts of %d pairs" % n)
        # join them again
        labels = []
        if parts:
            files = [os.path.join(d, p) for p in parts]
            if case["pattern"]:
                files = [os.path.join(d, root + "_*" + ext)]
            else:
                files = [files[i % len(files)] for i in case["order"] if i < len(files)] + \
                    [f for j, f in enumerate(files) if j not in case["order"]]
            r = w.call("tools.run", calls=[["pgc_join.py", files]], cwd=d)
            same(r[0][0], 0, "exit status")
            same_corpus(read_corpus(text=r[0][1], where=d), want, "parts joined")
        if len(parts) > 1:
            labels.append("nontrivial")
        if len(set(sizes)) > 1:
            labels.append("uneven")
    return labels


def run_join(case, w):
    specs = case["corpora"]
    with TempDir(w) as d:
        lay_out(d, more=uses_more(*specs))
        # the names in the order in which they are joined
        names = sorted(case["names"][:len(specs)])
        files = [write(d, name, s) for name, s in zip(names, specs)]
        order = [i for i in case["order"] if i < len(files)]
        order += [i for i in range(len(files)) if i not in order]
        argv = (["-f"] if case["format"] else []) + (["-V"] if case["verbose"] else [])
        if case["pattern"]:
            argv += (["*.pgc", "*/*.pgc"] if case["pattern"] > 1 else ["*/*.pgc", "*.pgc"])
        else:
            argv += [files[i] for i in order]
        before = listing(d)
        try:
            r = w.call("tools.run", calls=[["pgc_join.py", argv]], cwd=d)
        except Exception as e:
            if not getattr(e, "exc", None):
                raise
            r = None
        same(listing(d), before, "files after joining")
        rels = {tuple(sorted(s["relations"])) for s in specs}
        if len(rels) > 1:
            check(r is None or r[0][0], "corpora with different relations are joined")
            return ["rejected"]
        check(r is not None, "joining failed")
        same(r[0][0], 0, "exit status")
        want = expected(specs[0], d)
        for s in specs[1:]:
            want["pairs"] = want["pairs"] + expected(s, d)["pairs"]
        same_corpus(read_corpus(text=r[0][1], where=d), want, "corpora joined")
    if len(specs) > 1 and len(want["pairs"]) > 2:
        return ["nontrivial"]
    return []


order = st.permutations(range(12)).map(list)


@st.composite
def several(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 3, 12]))
    out = [draw(corpora(max_pairs=4 if n < 4 else 1, big=15 if n < 4 else 0)
                .filter(distinct_graphs)) for _ in range(n)]
    if draw(st.integers(0, 3)):
        for c in out:
            c["relations"] = out[0]["relations"][::-1]
    return out


TESTS = [
    Test("split", st.fixed_dictionaries({
        "corpus": corpora(max_pairs=12, big=12).filter(distinct_graphs),
        "name": st.sampled_from(["c.pgc", "sub/c.pgc", "sub/c.d/x", "banks/c.v1.pgc"]),
        "size": st.one_of(st.none(), st.integers(1, 13)),
        "parts": st.one_of(st.none(), st.integers(1, 13)),
        "format": st.booleans(), "abs": st.booleans(), "rel": st.booleans(),
        "pattern": st.booleans(), "order": order}), run_split, 600),
    Test("join", st.fixed_dictionaries({
        "corpora": several(), "order": order, "format": st.booleans(),
        "names": st.permutations(["c2.pgc", "B9.pgc", "a/c10.pgc", "b/a.pgc", "b.pgc", "b/z.pgc",
                                  "a/c9.pgc", "10.pgc", "9.pgc", "b/a-1.pgc", "b/a_1.pgc",
                                  "\u00e9.pgc", "b/C.pgc"]),
        "verbose": st.booleans(), "pattern": st.integers(0, 2)}), run_join, 400),
]
