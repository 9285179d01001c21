"""differences between two annotations of a corpus"""
import os
import random
import re
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

from core import TempDir, Test, check, same
from props.C08 import RELS, corpus_pairs, evaluation, one_to_one, report_rows, wanted_report

RULE = ("two annotated corpus files over the same generated GraphML graphs (numeric or named "
        "nodes, with and without positions, non-ASCII labels, tokens and relations), with "
        "comments, reported by the function and the command line tool with any options; the "
        "printed report is parsed and compared with set operations on both annotations; "
        "non-trivial: at least one alignment is reported")
XRELS = RELS + ["gelijk é"]


def bank(graphs):
    out = ['<?xml version="1.0" encoding="utf-8"?><graphml>',
           '<key id="tok" attr.name="tokens"/><key id="lab" for="node" attr.name="label"/>',
           '<key id="b" for="node" attr.name="begin"/><key id="e" for="node" attr.name="end"/>']
    for i, g in enumerate(graphs):
        out.append('<graph id="g%d"><data key="tok">%s</data>' % (i, escape(g["tokens"])))
        for n in g["nodes"]:
            out.append('<node id=%s><data key="lab">%s</data><data key="tok">%s</data>' % (
                quoteattr(n["id"]), escape(n["label"]), escape(n["tokens"])))
            if n["pos"]:
                out.append('<data key="b">%d</data><data key="e">%d</data>' % tuple(n["pos"]))
            out.append("</node>")
        for a, b in g["edges"]:
            out.append('<edge source=%s target=%s/>' % (quoteattr(a), quoteattr(b)))
        out.append("</graph>")
    return "".join(out) + "</graphml>"


def corpus_file(case, which):
    out = ['<?xml version="1.0" encoding="utf-8"?><parallel_graph_corpus><graphbanks>'
           '<file id="1" format="graphml">b1.xml</file><file id="2" format="graphml">b2.xml'
           '</file></graphbanks><node_relations>']
    out += ["<relation>%s</relation>" % r for r in XRELS]
    out.append("</node_relations><aligned_graphs>")
    for i, al in enumerate(case["al"][which]):
        out.append('<graph_pair from_bank_id="1" from_graph_id="g%d" to_bank_id="2" '
                   'to_graph_id="g%d">' % (i, i))
        c = case["notes"][which][i]
        if c is not None:
            out.append("<graph_meta_data>%s</graph_meta_data>" % (
                "<comment>%s</comment>" % escape(c) if c != "none" else ""))
        out += ['<node_pair from_node_id=%s to_node_id=%s relation=%s/>' % tuple(
            quoteattr(x) for x in a) for a in al]
        out.append("</graph_pair>")
    return "".join(out) + "</aligned_graphs></parallel_graph_corpus>"


def node_lines(graph, nid):
    n = [x for x in graph["nodes"] if x["id"] == nid][0]
    return n["id"], n["label"], n["pos"], n["tokens"]


NODE = re.compile(r'^\((.*?)\) (.*?)(?: \[([^\[\]]*):([^\[\]]*)\])?: "(.*)"$', re.S)


def parse(text):
    """the lines of the report: headings and texts as they are, nodes split"""
    out = []
    for line in text.split("\n"):
        line = line.strip()
        if not line or re.match("^(-{20,}|={20,}|#{20,})$", line):
            continue
        m = NODE.match(line)
        if m:
            a, b, c, d, e = m.groups()
            out.append([a, b, None if c is None else [int(c), int(d)], e])
        else:
            out.append(line)
    return out


def number(nid):
    return int(nid.lstrip("n"))


def run_diff(case, w):
    o = dict(case["opts"])
    if case["how"] == "script":
        o["words"] = False
    else:
        o["evaluate"] = False
    with TempDir(w) as d:
        for i in (0, 1):
            with open(os.path.join(d, "b%d.xml" % (i + 1)), "w", encoding="utf-8") as f:
                f.write(bank(case["graphs"][i]))
            with open(os.path.join(d, "c%d.pgc" % (i + 1)), "w", encoding="utf-8") as f:
                f.write(corpus_file(case, i))
        r = w.call("reports.diff", dir=d, files=["c1.pgc", "c2.pgc"], opts=o, how=case["how"])
        names = [os.path.join(d, "c1.pgc"), os.path.join(d, "c2.pgc")]
    same(r["status"], 0, "exit status")
    check(r.get("same", True), "reporting differences changed a corpus")
    same(r.get("stray", ""), "", "output elsewhere")
    annot = o["annot"] or (["First annotator", "Second annotator"] if case["how"] == "script"
                           else ["Annot1", "Annot2"])
    lines = ["%s corpus: %s" % (annot[i], names[i]) for i in (0, 1)]
    rels = o["relations"] or XRELS
    count = 0
    labels = [case["how"]]
    for i, (x, y) in enumerate(zip(*case["al"])):
        src, trg = case["graphs"][0][i], case["graphs"][1][i]
        x, y = one_to_one(x), one_to_one(y)
        inner = [{a for a, b in g["edges"]} for g in (src, trg)]
        lines.append("Graph pair %d" % (i + 1))
        lines += [" ".join(g["tokens"].split()) for g in (src, trg) if g["tokens"].split()]
        if o["comments"]:
            for k in (0, 1):
                c = case["notes"][k][i]
                if c and c != "none" and c.strip():
                    lines += ["Comments by " + annot[k], c.strip()]

        def ok(n, rel):
            return rel in rels and not (o["words"] and n[0] in inner[0] and n[1] in inner[1])

        groups = [("Identical", [n for n in x if ok(n, x[n]) and y.get(n) == x[n]]),
                  ("Relation different",
                   [n for n in x if ok(n, x[n]) and n in y and y[n] != x[n]]),
                  (annot[0] + " only", [n for n in x if ok(n, x[n]) and n not in y]),
                  (annot[1] + " only", [n for n in y if ok(n, y[n]) and n not in x])]
        for title, nodes in groups[0 if o["ident"] else 1:]:
            if nodes:
                lines.append(title)
            for n in sorted(nodes, key=lambda n: number(n[0])):
                count += 1
                lines += ["#%d:" % count, list(node_lines(src, n[0])),
                          "<<< %s / %s >>>" % (x.get(n, "None").upper(),
                                               y.get(n, "None").upper()),
                          list(node_lines(trg, n[1]))]
                if title not in labels and title in ("Identical", "Relation different"):
                    labels.append(title)
    text = r["report"]
    if case["how"] == "script" and o["evaluate"]:
        text, sep, ev = text.partition("=" * 80 + "\nAlignment only")
        got = [x for x in report_rows(sep + ev) if x[1] is not None]
        want = wanted_report(["part1"], *evaluation([tuple(case["al"])], RELS), RELS)
        same([x[0] for x in got], [x[0] for x in want], "rows of the evaluation")
        for g, x in zip(got, want):
            check(all(abs(a - b) < 0.0051 for a, b in zip(g[1], x[1])),
                  "row of the evaluation: %s, expected %s", g, x)
    got = parse(text)
    for i, (g, x) in enumerate(zip(got, lines)):
        same(g, x, "line %d of the report" % (i + 1))
    same(len(got), len(lines), "number of lines of the report")
    if count:
        labels.append("nontrivial")
    if o["words"]:
        labels.append("words")
    return labels


WORDS = ["de", "man", "caf\u00e9", "\u20ac", "a&b", ","]
LABELS = ["NP", "smain", "caf\u00e9", "N<1>"]
sentence = st.lists(st.sampled_from(WORDS), min_size=1, max_size=4).map(" ".join)


@st.composite
def graphs(draw, ids):
    named = draw(st.integers(0, 2))
    nodes = [{"id": n, "label": draw(st.sampled_from(LABELS)),
              "tokens": draw(sentence),
              "pos": [draw(st.integers(0, 9)), draw(st.integers(0, 12))] if named else None}
             for n in ids]
    edges = draw(st.lists(st.tuples(st.sampled_from(ids), st.sampled_from(ids)), max_size=4,
                          unique=True))
    return {"tokens": draw(sentence), "nodes": nodes, "edges": edges}


def big_graph(rng, ids):
    some = lambda: " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 20)))
    named = rng.random() < .5
    nodes = [{"id": n, "label": rng.choice(LABELS), "tokens": some(),
              "pos": [rng.randint(0, 30), rng.randint(0, 30)] if named else None} for n in ids]
    edges = sorted({(rng.choice(ids), rng.choice(ids)) for _ in range(rng.randint(0, 30))})
    return {"tokens": some(), "nodes": nodes, "edges": edges}


@st.composite
def cases(draw):
    how = draw(st.sampled_from(["script", "file", "out"]))
    evaluate = draw(st.booleans())
    rels = RELS if how == "script" and evaluate else XRELS
    pre = draw(st.sampled_from(["", "n"]))
    ids = [pre + str(i) for i in draw(st.sampled_from([[0, 1, 2, 3], [2, 9, 10, 11, 100]]))]
    many = [pre + str(i) for i in range(24)]
    al = draw(corpus_pairs(rels, ids, many, 12))
    n = len(al[0])
    if n > 4:
        # too many to draw one by one
        rng = random.Random(draw(st.integers(0, 2 ** 32)))
        trees = [[big_graph(rng, many) for _ in range(n)] for _ in (0, 1)]
    else:
        trees = [[draw(graphs(ids)) for _ in range(n)] for _ in (0, 1)]
    opts = {"evaluate": evaluate, "words": draw(st.booleans()), "comments": draw(st.booleans()),
            "ident": draw(st.booleans()), "relations": None,
            "annot": draw(st.sampled_from([None, ["An", "Bo"], ["x y", "-"]]))}
    if draw(st.integers(0, 2)) == 0:
        # whether a difference counts whose first relation is left out is open
        keep = draw(st.lists(st.sampled_from(RELS if how == "script" else rels), min_size=1,
                             unique=True))
        if all(a.get(k, r) in keep or r not in keep
               for x, y in zip(*al) for a in [one_to_one(x)] for k, r in one_to_one(y).items()):
            opts["relations"] = keep
    return {"al": al, "how": how, "opts": opts,
            "graphs": trees,
            "notes": [[draw(st.sampled_from([None, "none", "", "see below", " ", "!", "é & <b>"]))
                       for _ in range(n)] for _ in (0, 1)]}


TESTS = [Test("report", cases(), run_diff, 900)]
