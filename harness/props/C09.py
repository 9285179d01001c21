"""inter-annotator agreement"""
import math
import os
from xml.sax.saxutils import quoteattr

from hypothesis import strategies as st

from core import TempDir, Test, check, close, same
from props.C08 import (ANY, RELS, compare_eval, corpus_pairs, evaluation, mean, one_to_one,
                       numbers_close, report_rows, variance, wanted_report)

RULE = ("two to five annotated corpus files over the same graph pairs, the annotations derived "
        "from each other by relabelling, dropping and adding, compared in full or for words "
        "only, by the functions and the command line tool; scores per ordered pair of "
        "annotators, means, deviations, pickles and printed tables compared with the "
        "definitions; non-trivial: annotators agree on an alignment and disagree on another")
# graphs of the same identifier differ between the banks
TREES = [{"n0": ["n1", "n2"], "n1": ["n3", "n4"], "n5": ["n1"]},
         {"n4": ["n3", "n2"], "n3": ["n0"]},
         {"n6": ["n1", "n0"], "n1": ["n4"], "n2": ["n3"], "n5": ["n4"]}]
GRAPHS = 12
NODES = ["n%d" % i for i in range(7)]
ORDER = ["prec", "rec", "f"]


def tree(bank, graph):
    return TREES[(bank + graph) % len(TREES)]


def bank(nr):
    out = ["<graphml>", '<key id="tok" attr.name="tokens"/>',
           '<key id="lab" for="node" attr.name="label"/>']
    for g in range(GRAPHS):
        out.append('<graph id="g%d"><data key="tok">a b</data>' % g)
        for n in NODES:
            out.append('<node id="%s"><data key="lab">L</data><data key="tok">a</data></node>' % n)
        for a in sorted(tree(nr, g)):
            for b in tree(nr, g)[a]:
                out.append('<edge source="%s" target="%s"/>' % (a, b))
        out.append("</graph>")
    return "".join(out) + "</graphml>"


def corpus_file(pairs, rels=RELS):
    out = ["<parallel_graph_corpus><graphbanks>",
           '<file id="1" format="graphml">b1.xml</file><file id="2" format="graphml">b2.xml'
           '</file></graphbanks><node_relations>']
    out += ["<relation>%s</relation>" % r for r in rels]
    out.append("</node_relations><aligned_graphs>")
    for i, al in enumerate(pairs):
        out.append('<graph_pair n="%d" from_bank_id="1" from_graph_id="g%d" to_bank_id="2" '
                   'to_graph_id="g%d">' % (i + 1, i, i))
        out += ['<node_pair from_node_id=%s to_node_id=%s relation=%s/>' % tuple(
            quoteattr(x) for x in a) for a in al]
        out.append("</graph_pair>")
    return "".join(out) + "</aligned_graphs></parallel_graph_corpus>"


def words(i, al):
    return [[a, b, r] for (a, b), r in one_to_one(al).items()
            if a not in tree(0, i) and b not in tree(1, i)]


def tables(rounds, names, rels):
    pairs = [(a, b) for a in range(len(names)) for b in range(len(names)) if a != b]
    out = {}
    for rel in rels:
        rows = {p: r[3:] for p, r in zip(pairs, evaluation(rounds, RELS)[0][rel]["rows"])}
        out[rel] = {}
        for i, m in enumerate(ORDER):
            cells = {n: {} for n in names + ["mean:", "SD:"]}
            every = []
            for c in range(len(names)):
                col = []
                for r in range(len(names)):
                    if r != c:
                        cells[names[r]][names[c]] = rows[r, c][i]
                        col.append(rows[r, c][i])
                cells["mean:"][names[c]] = mean(col)
                cells["SD:"][names[c]] = math.sqrt(variance(col, mean(col)))
                every += col
            cells["mean:"]["overall:"] = mean(every)
            cells["SD:"]["overall:"] = math.sqrt(variance(every, mean(every)))
            out[rel][m] = cells
    return out


def compare_tables(got, want, names, what):
    same(sorted(got), sorted(want), what + ": relations")
    for rel in want:
        same(sorted(got[rel]), sorted(ORDER), "%s: measures for %s" % (what, rel))
        for m in ORDER:
            g = got[rel][m]
            # statistics are in the table too, except under names of annotators
            w = {a: {b.rstrip(":"): v for b, v in r.items() if b.rstrip(":") == b or
                     b[:-1] not in names} for a, r in
                 [(a, want[rel][m][a]) for a in names] +
                 [(a, want[rel][m][a + ":"]) for a in ("mean", "SD") if a not in names]}
            same(g["labels"], names, what + ": annotators")
            same({a: sorted(r) for a, r in g["cells"].items()},
                 {a: sorted(r) for a, r in w.items()}, what + ": cells")
            for a in w:
                for b in w[a]:
                    check(close(g["cells"][a][b], w[a][b], 1e-6),
                          "%s: %s of %s, row %s, column %s: got %s, expected %s",
                          what, m, rel, a, b, g["cells"][a][b], w[a][b])


def parse_report(text, names):
    out, rel, m = {}, None, None
    for line in text.split("\n"):
        parts = line.split()
        if not parts or set(line) <= set("=-"):
            continue
        if line.startswith("Agreement on relation "):
            rel = parts[-1]
            out[rel] = {}
        elif rel and line.lower() in ORDER:
            m = line.lower()
            out[rel][m] = []
        elif rel and parts[-1] == "overall:":
            same(parts[:-1], [n + ":" for n in names], "columns of %s of %s" % (m, rel))
        elif rel:
            out[rel][m].append([parts[0], [float(x) for x in parts[1:]]])
    return out


def compare_printed(text, t, names, unit, tol):
    rep = parse_report(text, names)
    same(sorted(rep), sorted(t), "relations of the tables printed")
    for rel in t:
        for m in ORDER:
            w = t[rel][m]
            rows = [[a, [w[a][b] for b in names + ["overall:"] if b in w[a]]]
                    for a in names + ["mean:", "SD:"]]
            g = rep[rel].get(m, [])
            same([a for a, _ in g], [a.rstrip(":") + ":" for a, _ in rows],
                 "rows of %s of %s" % (m, rel))
            for (a, x), (_, y) in zip(g, rows):
                check(len(x) == len(y) and all(abs(x - unit * y) < tol for x, y in zip(x, y)),
                      "%s of %s, row %s: printed %s, expected %s", m, rel, a, x, y)


def run_agreement(case, w):
    n = len(case["annotations"])
    names = case["names"][:n] if case["names"] else ["A%d" % (i + 1) for i in range(n)]
    with TempDir(w) as d:
        for i, b in enumerate(("b1.xml", "b2.xml")):
            with open(os.path.join(d, b), "w") as f:
                f.write(bank(i))
        files = ["c%d.pgc" % i for i in range(n)]
        for fn, a in zip(files, case["annotations"]):
            with open(os.path.join(d, fn), "w") as f:
                f.write(corpus_file(a))
        if not case["words"]:
            # graphs are not needed then
            os.remove(os.path.join(d, "b2.xml"))
        r = w.call("reports.agree", dir=d, files=files, how=case["how"], words=case["words"],
                   names=names if case["names"] else None)
    check("status" not in r, "pgc_agreement.py ended with status %s", r.get("status"))
    al = [[words(i, x) for i, x in enumerate(a)] if case["words"] else a for a in case["annotations"]]
    order = [(a, b) for a in range(n) for b in range(n) if a != b]
    rounds = [(al[a], al[b]) for a, b in order]
    want = evaluation(rounds, RELS)
    for got, what in zip(r["eval"], ("evaluation", "pickled evaluation")):
        compare_eval(got, want, what)
        same(got["names"], [[names[a], names[b]] for a, b in order], what + ": names")
    # columns are sorted by name
    by_name = sorted(range(n), key=lambda i: names[i])
    srt = [al[i] for i in by_name]
    rounds2 = [(srt[a], srt[b]) for a, b in order]
    t = tables(rounds2, sorted(names), RELS + [ANY])
    for got, what in zip(r["tables"], ("tables", "pickled tables")):
        compare_tables(got, t, sorted(names), what)
    if case["how"] != "cross":
        head, sep, tail = r["report"].partition("Agreement on relation")
        got = [x[1] for x in report_rows(head) if x[1] is not None]
        rows = [x[1] for x in wanted_report(order, *want, RELS)]
        same(len(got), len(rows), "rows of the evaluation printed")
        for g, x in zip(got, rows):
            check(all(abs(a - b) < 0.0051 for a, b in zip(g, x)),
                  "row of the evaluation printed: %s, expected %s", g, x)
        compare_printed(sep + tail, t, sorted(names), 100, 0.0051)
    compare_printed(r["fractions"], t, sorted(names), 1, 0.000051)
    labels = [case["how"], "n%d" % n]
    c = want[0][ANY]["counts"][0]
    if c[2] and c[2] < c[0]:
        labels.append("nontrivial")
    if case["words"]:
        labels.append("words")
    return labels


@st.composite
def cases(draw):
    first, second = draw(corpus_pairs(ids=NODES, many=NODES, max_pairs=GRAPHS))
    annotations = [first, second]
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3]))):
        a = []
        for al in draw(st.sampled_from(annotations)):
            a.append([[x, y, draw(st.sampled_from([r] * 3 + RELS))] for x, y, r in al
                      if draw(st.integers(0, 4))])
        annotations.append(a)
    names = draw(st.sampled_from([None, ["A1", "A2", "A3", "A4", "A5"], ["zz", "x-1", "b", "AA", "Ab"],
                                  ["SD", "overall", "ED", "mean", "x"]]))
    return {"annotations": annotations, "names": names, "words": draw(st.booleans()),
            "how": draw(st.sampled_from(["cross", "run", "script"]))}


TESTS = [Test("agreement", cases(), run_agreement, 480)]
