"""tools on missing, damaged and inconsistent input"""
import os
import re
import shutil
from collections import Counter

from hypothesis import strategies as st

from core import TempDir, Test, check, same
from props.C11 import listing
from props.C28 import bank_xml
from props.ptcgen import hitaext, write_text

RULE = ("every tool run on generated corpora, graphbanks, documents and text corpora of which one "
        "is missing, empty, cut off or garbled at any place, or names a graphbank, graph, "
        "element or method that is not there; on corpora that do not belong together; with "
        "values that cannot be written; asked for the threshold that is not implemented; and "
        "with wrong command lines; the same run on the undamaged files as control; files and output "
        "compared before and after; non-trivial: the tool reads other files before or after "
        "the damaged one")
GRAPHS = ["g1", "g2", "g3"]
BANKS = ["gb/a.xml", "gb/b.xml"]
PGC = ["c0.pgc", "c1.pgc", "c2.pgc"]
HTD = ["t0.htd", "t1.htd", "t2.htd"]
DOCS = ["d0.xml", "d1.xml"]


def pgc_text(pairs):
    out = ['<?xml version="1.0" encoding="utf-8"?>\n<parallel_graph_corpus><graphbanks>']
    out += ['<file id="%d" format="graphml">%s</file>' % (n, b) for n, b in enumerate(BANKS)]
    out.append("</graphbanks><node_relations><relation>equals</relation>"
               "<relation>restates</relation></node_relations><aligned_graphs>")
    for s, t, al in pairs:
        out.append('<graph_pair from_bank_id="0" from_graph_id="%s" to_bank_id="1" '
                   'to_graph_id="%s">' % (s, t))
        out += ['<node_pair from_node_id="%s" to_node_id="%s" relation="%s"/>' % tuple(a)
                for a in al]
        out.append("</graph_pair>")
    return "\n".join(out) + "</aligned_graphs></parallel_graph_corpus>\n"


def doc_text(n, side):
    return ("<doc>" + "".join('<s id="%s%d">zin %d</s>\n' % ("ab"[side], k, k) for k in range(n))
            + "</doc>")


def prepare(d, base):
    for k, b in enumerate(BANKS):
        write_text(os.path.join(d, b), bank_xml({
            g: [["n%d" % i, "w%d" % i] for i in range(3)] for g in
            GRAPHS + ["ab"[k] + str(i) for i in range(base["size"])]}))
    for f, als in zip(PGC, base["als"]):
        write_text(os.path.join(d, f), pgc_text(
            [[s, t, a] for (s, t), a in zip(base["pairs"], als)]))
    for k, f in enumerate(DOCS):
        write_text(os.path.join(d, f), doc_text(base["size"], k))
    for f, links in zip(HTD, base["links"]):
        links = [[i % base["size"], j % base["size"]] for i, j in links]
        write_text(os.path.join(d, f), hitaext(*DOCS, [
            ["s", "a%d" % i, "s", "b%d" % j] if base["ids"] else ["s", i + 1, "s", j + 1]
            for i, j in links], "id" if base["ids"] else base["method"]))


# name: (arguments for the files given, files read besides them, loads graphs,
#        writes the files one by one)
def tools(n, base):
    c, t = PGC[:n], HTD[:n]
    two = PGC[:max(n, 2)]
    fmt = ["--source-format", "graphml", "--target-format", "graphml"]
    yield "pgc_agreement.py", ["-p", "out.pickle"] + two, two, [], False
    yield "pgc_agreement.py", ["-w", "-p", "out.pickle"] + two, two, BANKS, False
    yield "pgc_diff.py", PGC[:2], PGC[:2], BANKS, False
    yield "pgc_extract_phrases.py", c, c, BANKS, False
    yield "pgc_join.py", c, c, BANKS, False
    yield "pgc_split.py", PGC[:1], PGC[:1], BANKS, False
    yield "pgc_stats.py", ["-a", "c[0-%d].pgc" % (n - 1)], c, BANKS, False
    yield "gb_stats.py", ["-F", "graphml", "gb/*.xml"], [], BANKS, False
    yield "pgc_zip.py", ["out.zip"] + c, c, [], False
    yield "pgc_chdir.py", ["-p", "gb", "hb"] + c, c, [], True
    if base["ids"]:
        yield ("pgc_from_ptc.py", ["-p"] + t + ["-s"] + BANKS[:1] * n + ["-t"] + BANKS[1:] * n
               + fmt, t, DOCS + BANKS, True)
    yield "ptc_chdir.py", ["--dir", "docs"] + t, t, [], True
    yield "ptc_n_to_id.py", t, t, DOCS, True
    yield "ptc_diff.py", HTD[:2], HTD[:2], DOCS, False
    yield "ptc_eval.py", ["-t"] + t + ["-p"] + t, t, [], False


def damage(d, name, how, at, linked=()):
    """False if it cannot be damaged in this way"""
    if how == "no id" and not linked:
        return False
    path = os.path.join(d, name)
    with open(path, encoding="utf-8") as f:
        text = f.read()
    if how == "missing":
        os.remove(path)
        return True
    old = text
    body = len(text.rstrip())
    if how == "empty":
        text = ""
    elif how == "cut":
        text = text[:1 + int(at * (body - 2))]
    elif how == "garbled":
        k = int(at * body)
        text = text[:k] + "<" + text[k:]
    elif how == "no id":
        text = text.replace(' id="%s%d"' % ("ab"[DOCS.index(name)],
                                            linked[int(at * len(linked)) % len(linked)]), "")
    else:
        changes = {
            "bank": ('(from|to)_bank_id="[01]"', r'\1_bank_id="7"'),
            "graph": ('(from|to)_graph_id="[^"]*"', r'\1_graph_id="gone"'),
            "no graph": ('(from|to)_graph_id="[^"]*"', ""),
            "no bank": ('(from|to)_bank_id="[^"]*"', ""),
            "file": ("gb/(a|b).xml", r"gb/gone\1.xml"),
            "element": ('(from|to)_(n|id)="[^"]*"', r'\1_\2="%s"' % ["9999", "0", "-1"][
                int(at * 997) % 3]),
            "node": ('(from|to)_node_id="[^"]*"', r'\1_node_id="gone"'),
            "method": ("<alignment( method=.[a-z]*.)?>", '<alignment method="other">'),
            "no name": ("<filename>[^<]*</filename>", "<filename> </filename>"),
            "document": ("<filename>", "<filename>gone"),
        }
        pattern, new = changes[how]
        found = list(re.finditer(pattern, text))
        if not found:
            return False
        m = found[int(at * len(found)) % len(found)]
        text = text[:m.start()] + m.expand(new) + text[m.end():]
    if text == old:
        return False
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    return True


# tools that take file name patterns
PATTERNS = ["pgc_join.py", "pgc_zip.py", "pgc_stats.py", "gb_stats.py"]
FORM = ["missing", "empty", "cut", "cut", "garbled", "garbled"]
CORPUS = ["bank", "no graph", "no bank"]


def kinds(tool, name, given, loads):
    """ways of damage to a file that make the tool fail"""
    if tool == "ptc_n_to_id.py" and name in DOCS:
        return FORM + ["no id"] * 6
    if name in BANKS or name in DOCS:
        return FORM if tool != "gb_stats.py" else [k for k in FORM if k != "missing"]
    out = list(FORM)
    if tool in PATTERNS:
        # a pattern need not match anything
        out = [k for k in out if k != "missing"]
    if name in PGC:
        if tool == "pgc_zip.py":
            out += ["file"] * 3
        elif tool != "pgc_chdir.py":
            out += CORPUS
        if tool == "pgc_extract_phrases.py" or loads and tool == "pgc_agreement.py":
            out += ["node"] * 3
        if loads:
            out += ["graph"] * 3 + ["file"] * 3
    elif tool != "ptc_eval.py":
        out += ["no name"]
        if tool != "ptc_chdir.py":
            out += ["document"] + ["element"] * 2
            if tool != "pgc_from_ptc.py":
                # which looks at the ids only
                out += ["method"] * 2
    return out


def run_damage(case, w):
    base = case["base"]
    all_ = list(tools(case["n"], base))
    tool, argv, given, loads, single = all_[case["tool"] % len(all_)]
    name = (given + loads)[case["file"] % len(given + loads)]
    ways = kinds(tool, name, given, loads)
    how = ways[case["how"] % len(ways)]
    with TempDir(w) as top:
        d, e = os.path.join(top, "d"), os.path.join(top, "e")
        os.mkdir(d)
        prepare(d, base)
        for f in case["old"]:
            write_text(os.path.join(d, f), "an earlier result")
        shutil.copytree(d, e)
        linked = []
        if how == "no id" and not base["ids"]:
            linked = [link[DOCS.index(name)] % base["size"] for links in base["links"][:case["n"]]
                      for link in links]
        if not damage(d, name, how, case["at"], linked):
            return []
        before, plain = listing(d), listing(e)
        status, out, err = w.call("tools.attempt", calls=[[tool, argv]], cwd=d)[0]
        after = listing(d)
        control = w.call("tools.attempt", calls=[[tool, argv]], cwd=e)[0]
        done = listing(e)
    what = "%s with %s %s" % (tool, how, name)
    same(control[0], 0, "exit status of %s on undamaged files: %s" % (tool, control[2][-300:]))
    check(status != 0, "%s: exit status 0", what)
    for f in set(before) | set(after):
        if after.get(f) == before.get(f):
            continue
        check(f != name and single and after.get(f) == done.get(f), "%s: file %s is %s", what, f,
              "gone" if f not in after else "there" if f not in before else "changed")
    # what comes before the damage may have been reported; the phrases of a
    # graph pair come in any order
    if tool == "pgc_extract_phrases.py":
        extra = Counter(out.splitlines())
        extra.subtract(control[1].splitlines())
        check(max(extra.values(), default=0) <= 0,
              "%s: output %r but %r without the damage", what, out, control[1])
    else:
        check(control[1].startswith(out) and (out != control[1] or not out),
              "%s: output %r instead of %r or its begin", what, out, control[1])
    labels = [tool[:-3]]
    if len(given) + len(loads) > 1:
        labels.append("nontrivial")
    return labels


# --- corpora that do not belong together ---

def run_mismatch(case, w):
    base = case["base"]
    tool, kind = case["tool"], case["kind"]
    with TempDir(w) as d:
        prepare(d, base)
        pairs = [[s, t, a] for (s, t), a in zip(base["pairs"], base["als"][1])]
        k = case["at"] % len(pairs)
        if kind == "fewer":
            del pairs[k]
        elif kind == "more":
            pairs.append(pairs[k])
        else:
            side = case["side"]
            pairs[k][side] = next(g for g in GRAPHS if g not in pairs[k][:2])
        write_text(os.path.join(d, "c1.pgc"), pgc_text(pairs))
        names = ["c1.pgc", "c0.pgc"] if case["swap"] else ["c0.pgc", "c1.pgc"]
        if kind == "threshold":
            argv = ["-t", str(1 + case["at"])] + (
                ["-a", "c0.pgc"] if tool == "pgc_stats.py" else ["-F", "graphml", "gb/*.xml"])
        elif tool == "pgc_from_ptc.py":
            count = [2, 2, 2]
            count[case["at"] % 3] += [-1, 1][case["side"]]
            argv = (["-p"] + (HTD * 2)[:count[0]] + ["-s"] + BANKS[:1] * count[1] + ["-t"]
                    + BANKS[1:] * count[2]
                    + ["--source-format", "graphml", "--target-format", "graphml"])
        elif tool == "ptc_eval.py":
            argv = ["-t"] + HTD[:case["at"] % 3 + 1] + ["-p"] + HTD[:(case["at"] + 1) % 3 + 1]
        else:
            argv = list(names)
            if tool == "pgc_agreement.py":
                if kind == "annotators":
                    for x in "xyz"[:1 + 2 * case["swap"]]:
                        argv = ["-a", x] + argv
                elif kind == "one":
                    argv = names[:1]
                argv = ["-p", "out.pickle"] + argv
        before = listing(d)
        status, out, err = w.call("tools.attempt", calls=[[tool, argv]], cwd=d)[0]
        after = listing(d)
    check(status != 0, "%s %s: exit status 0 for %s", tool, argv, kind)
    same(after, before, "files")
    if kind == "threshold":
        same(out, "", "output of %s %s" % (tool, argv))
    return ["nontrivial", tool[:-3] + " " + kind]


# --- values that cannot be written ---

def run_spoil(case, w):
    base = case["base"]
    name = PGC[0] if case["kind"] == "pgc" else HTD[0]
    with TempDir(w) as d:
        prepare(d, base)
        before = listing(d)
        got = w.call("tools.spoil", path=os.path.join(d, name), **{
            k: case[k] for k in ("kind", "value", "where", "at", "pprint")})
        after = listing(d)
    same(got, "written" if case["value"] == "text" else "failed", "writing the corpus")
    changed = [f for f in set(before) | set(after) if before.get(f) != after.get(f)]
    same(changed, [name] if got == "written" else [], "changed files")
    return ["nontrivial", case["value"]]


# --- wrong command lines ---

def run_usage(case, w):
    base = case["base"]
    all_ = list(tools(case["n"], base))
    tool, argv, given, loads, single = all_[case["tool"] % len(all_)]
    how = case["wrong"]
    if how == "nothing":
        if tool in ("pgc_from_ptc.py", "ptc_eval.py"):
            return []
        argv = []
    elif how == "unknown":
        k = case["at"] % (len(argv) + 1)
        argv = argv[:k] + ["--no-such-option"] + argv[k:]
    elif how == "surplus":
        if tool not in ("pgc_diff.py", "pgc_split.py", "pgc_stats.py", "gb_stats.py",
                        "ptc_diff.py"):
            return []
        argv = argv + ["one-more", "and-more"]
    elif how == "valueless":
        flags = {"pgc_agreement.py": "-a", "pgc_diff.py": "-1", "pgc_split.py": "--parts",
                 "pgc_chdir.py": "-p", "gb_stats.py": "-F", "ptc_chdir.py": "--dir",
                 "ptc_diff.py": "-t", "pgc_from_ptc.py": "--source-tag",
                 "pgc_extract_phrases.py": "-d"}
        if tool not in flags:
            return []
        argv = argv + [flags[tool]]
    else:
        typed = {"pgc_split.py": "--parts", "pgc_stats.py": "-t", "gb_stats.py": "-t",
                 "pgc_from_ptc.py": "--max-token-len"}
        if tool not in typed:
            return []
        argv = argv + [typed[tool], "many"]
    with TempDir(w) as d:
        prepare(d, base)
        before = listing(d)
        status, out, err = w.call("tools.attempt", calls=[[tool, argv]], cwd=d)[0]
        after = listing(d)
    same(status, 2, "exit status of %s %s" % (tool, argv))
    check("usage: " in err, "no usage in the message %r", err)
    same([out, after], ["", before], "output and files of %s %s" % (tool, argv))
    return ["nontrivial", how]


@st.composite
def bases(draw):
    pairs = draw(st.lists(st.tuples(st.sampled_from(GRAPHS), st.sampled_from(GRAPHS)),
                          min_size=1, max_size=4))
    node = st.sampled_from(["n0", "n1", "n2"])
    al = st.lists(st.tuples(node, node, st.sampled_from(["equals", "restates"])), max_size=3,
                  unique_by=(lambda a: a[0], lambda a: a[1]))
    return {"pairs": pairs, "als": [[draw(al) for _ in pairs] for _ in PGC],
            "size": draw(st.integers(1, 4)), "ids": draw(st.booleans()),
            "method": draw(st.sampled_from([None, "n"])),
            "links": [draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), min_size=1,
                                    max_size=3, unique=True)) for _ in HTD]}


big = st.integers(0, 10 ** 6)
TESTS = [
    Test("damage", st.fixed_dictionaries({
        "base": bases(), "n": st.integers(1, 3), "tool": big, "file": big, "how": big,
        "at": st.floats(0, 1), "old": st.lists(st.sampled_from(
            ["out.zip", "out.pickle", "t0.pgc", "t1.pgc", "c0_0001-0001.pgc"]), unique=True,
            max_size=3)}), run_damage, 1500),
    Test("mismatch", st.fixed_dictionaries({
        "base": bases(), "at": st.integers(0, 5), "side": st.integers(0, 1), "swap": st.booleans()}
        ).flatmap(lambda c: st.sampled_from([
            ("pgc_diff.py", "fewer"), ("pgc_diff.py", "more"), ("pgc_diff.py", "graph"),
            ("pgc_agreement.py", "fewer"), ("pgc_agreement.py", "more"),
            ("pgc_agreement.py", "annotators"), ("pgc_agreement.py", "one"),
            # not implemented
            ("pgc_stats.py", "threshold"), ("gb_stats.py", "threshold"),
            ("ptc_eval.py", "numbers"), ("pgc_from_ptc.py", "numbers")]).map(lambda t: dict(c, tool=t[0], kind=t[1]))),
        run_mismatch, 400),
    Test("spoil", st.fixed_dictionaries({
        "base": bases(), "kind": st.sampled_from(["pgc", "htd"]), "at": st.integers(0, 5),
        "value": st.sampled_from(["none", "number", "list", "text"]),
        "where": st.sampled_from(["relation", "attribute"]), "pprint": st.booleans()}),
        run_spoil, 150),
    Test("usage", st.fixed_dictionaries({
        "base": bases(), "n": st.integers(1, 3), "tool": big, "at": big,
        "wrong": st.sampled_from(["nothing", "unknown", "surplus", "valueless", "type"])}),
        run_usage, 300),
]
