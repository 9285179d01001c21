"""printed forms"""
import ast
import os
import re
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from core import TempDir, Test, check, same

RULE = ("score tables and alignments of up to 25 by 25 elements of several lengths; matrices of "
        "up to 6 by 6 whole numbers, also 0 and negative ones; alignments of two graphs of a "
        "graph bank; non-trivial: more than one row and column of which entries or "
        "numbers differ in length, or more than one alignment")
words = st.one_of(st.sampled_from(["a", "b", "kat", "hond", "zeventien", "x.", "-1", "0"]),
                  st.integers(-5, 200))


@st.composite
def table_cases(draw):
    a, b = [draw(st.one_of(
        st.lists(words, max_size=12), st.text("abx", max_size=15).map(list),
        st.integers(9, 25).flatmap(lambda n: st.lists(
            st.sampled_from("abx"), min_size=n, max_size=n)))) for _ in "12"]
    big = draw(st.sampled_from([9, 99, 9999]))
    some = draw(st.lists(st.tuples(st.integers(-9, big), st.sampled_from("DULT")),
                         min_size=1, max_size=13))
    scores = [[i, j] + list(some[(i * (len(b) + 1) + j) % len(some)])
              for i in range(len(a) + 1) for j in range(len(b) + 1)]
    pairs = sorted({(draw(st.integers(0, len(a) - 1)), draw(st.integers(0, len(b) - 1)))
                    for _ in range(draw(st.integers(0, 6)))}) if a and b else []
    return {"seq1": a, "seq2": b, "scores": scores, "pairs": [list(p) for p in pairs],
            "plain": draw(st.booleans())}


def run_tables(case, w):
    text = w.call("dumps.tables", **case)
    a, b = [str(e) for e in case["seq1"]], [str(e) for e in case["seq2"]]
    heads = ("SCORE MATRIX\n\n", "\n\n", "ALIGNMENT\n\n", "\n\n") if case["plain"] else (
        "S!\n", "end\n", "A!\n", "end\n")
    check(text.startswith(heads[0]) and text.endswith(heads[3]), "header and trailer: %s", text)
    middle = heads[1] + heads[2]
    same(text.count(middle), 1, "trailer and header in " + text)
    first, second = text[len(heads[0]):len(text) - len(heads[3])].split(middle)
    cells = {(i, j): "%d:%s" % (v, c) for i, j, v, c in case["scores"]}
    lines = first.split("\n")
    same(lines[-1], "", "last line of scores")
    same([l.split() for l in lines[:-1]],
         [[str(j) for j in range(len(b) + 1)], b] +
         [[str(i)] + ([a[i - 1]] if i else []) + [cells[i, j] for j in range(len(b) + 1)]
          for i in range(len(a) + 1)], "score table in\n" + first)
    check_columns([lines[0]] + lines[2:-1], len(b) + 1, "scores", first)
    lines = second.split("\n")
    same(lines[-1], "", "last line of the alignment")
    marked = {tuple(p) for p in case["pairs"]}
    same([l.split() for l in lines[:-1]],
         [[str(j) for j in range(len(b))], b] +
         [[str(i), a[i]] + ["x" if (i, j) in marked else "." for j in range(len(b))]
          for i in range(len(a))], "alignment in\n" + second)
    check_columns(lines[:-1], len(b), "alignment", second)
    return ["nontrivial"] if len(a) > 1 and len(b) > 1 and (
        len(b) > 10 or len({len(e) for e in a + b}) > 1) else []


def check_columns(lines, n, what, text):
    """entries of the last n columns end below each other"""
    if n:
        ends = [[m.end() for m in re.finditer(r"\S+", l)][-n:] for l in lines]
        check(all(e == ends[0] for e in ends), "columns of %s are not aligned:\n%s", what, text)


def run_matrix(case, w):
    m = case["matrix"]
    lines = w.call("dumps.matrix", **case).split("\n")
    if case["msg"] and case["msg"][0] is not None:
        same(lines.pop(0), case["msg"][0], "message")
    same(lines[-1], "", "last line")
    same([ast.literal_eval(l) for l in lines[:-1]], m, "rows")
    check(len({len(l) for l in lines[:-1]}) <= 1, "columns are not aligned: %r", lines)
    labels = ["nontrivial"] if len(m) > 1 and len({len(str(x)) for r in m for x in r}) > 1 else []
    if any(x <= 0 for r in m for x in r):
        labels.append("zero or negative")
    return labels


tok = st.sampled_from(["de", "kat", "zag", "l'été", "\"x\"", "", "a b", "<&>"])
LINE = re.compile(r"\[(.*?)\] (u?(?:'.*?'|\".*?\")) <==(.*?)==> \[(.*?)\] (u?(?:'.*?'|\".*?\"))")


@st.composite
def pair_cases(draw):
    graphs = [[draw(tok) for _ in range(draw(st.integers(1, 4)))] for _ in range(2)]
    al = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3),
                                 st.sampled_from(["equals", "restates"])), max_size=6))
    return {"graphs": graphs, "align": al}


def run_pair(case, w):
    from xml.sax.saxutils import escape
    g = case["graphs"]
    al = [["n%d" % (i % len(g[0])), "n%d" % (j % len(g[1])), r] for i, j, r in case["align"]]
    model = {}
    for i, j, r in al:
        for k in [k for k in model if k[0] == i or k[1] == j]:
            del model[k]
        model[i, j] = r
    with TempDir(w) as d:
        with open(os.path.join(d, "bank.xml"), "w", encoding="utf-8") as f:
            f.write('<graphml><key id="t" attr.name="tokens"/><key id="r" for="graph" '
                    'attr.name="root"/><key id="l" attr.name="label"/>')
            for name, toks in zip(("g1", "g2"), g):
                f.write('<graph id="%s"><data key="t">%s</data><data key="r">n0</data>' % (
                    name, escape(" ".join(toks))))
                for i, t in enumerate(toks):
                    f.write('<node id="n%d"><data key="l">L</data><data key="t">%s</data></node>'
                            % (i, escape(t)))
                f.write("</graph>")
            f.write("</graphml>")
        text, equal, written = w.call("dumps.pair", cwd=d, ids=["g1", "g2"], align=al)
    check(equal, "str() of a corpus differs from what it writes")
    root = ET.fromstring(written.encode("utf-8"))
    same(sorted([e.get("from_node_id"), e.get("to_node_id"), e.findtext("relation") or e.get("relation")]
                for e in root.iter("node_pair")), sorted([i, j, r] for (i, j), r in model.items()),
         "alignments in the printed corpus")
    body, line = text.rstrip("\n").rsplit("\n", 1) if "\n" in text.rstrip("\n") else ("", text.strip())
    same(line, "-" * 40, "last line")
    got = sorted([m[0], ast.literal_eval(m[1]), m[2], m[3], ast.literal_eval(m[4])]
                 for m in (LINE.fullmatch(l).groups() for l in body.split("\n") if l))
    same(got, sorted([i, " ".join(g[0][int(i[1:])].split()), r.upper(), j,
                      " ".join(g[1][int(j[1:])].split())] for (i, j), r in model.items()),
         "lines for alignments")
    return ["nontrivial"] if len(model) > 1 else []


numbers = st.one_of(st.integers(0, 9), st.sampled_from([0, 1, 10, 99, 100, 1000, -1, -50]))
TESTS = [
    Test("tables", table_cases(), run_tables, 600),
    Test("matrix", st.fixed_dictionaries({
        "matrix": st.integers(1, 6).flatmap(lambda k: st.lists(
            st.lists(numbers, min_size=k, max_size=k), min_size=1, max_size=6)),
        "msg": st.sampled_from([[], ["costs"], [None]])}), run_matrix, 400),
    Test("pair", pair_cases(), run_pair, 400),
]
