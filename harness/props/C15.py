"""evaluation and comparison of text alignments"""
import copy
import os

from hypothesis import strategies as st

from core import TempDir, Test, check, close, same
from props.C13 import link_cases
from props.ptcgen import TAGS, flat, hitaext, index, link_of, write_text, write_tree

RULE = ("true and predicted links (sharing some) between two generated documents, by number or "
        "identifier, evaluated and compared for a tag the documents have or lack, one to three "
        "pairs of corpora at a time, through functions and tools; non-trivial: both corpora "
        "have links for the tag and they differ")


@st.composite
def cases(draw):
    out = []
    tag = draw(st.sampled_from(["s", "s", "p", "nope"]))
    for _ in range(draw(st.integers(1, 3))):
        c = draw(link_cases())
        one = draw(st.sampled_from([False, False, False, True]))
        if one:
            # a document linked to itself
            c["t2"] = copy.deepcopy(c["t1"])
        t1, t2 = flat(c["t1"]), flat(c["t2"])
        # many elements with the tag in question
        share = draw(st.sampled_from([0, 1, 2, 2]))
        for k, t in enumerate(t1 + t2):
            if share and draw(st.integers(0, 2)) <= share:
                t[0] = tag
                if t[1] is not None:
                    t[1] = "r%d" % (k if k < len(t1) else k - len(t1))
        if one:
            c["t2"] = copy.deepcopy(c["t1"])
            t2 = flat(c["t2"])
        n1, n2 = len(t1), len(t2)
        pair = st.tuples(st.integers(0, n1 - 1), st.integers(0, n2 - 1)).map(list)
        true = draw(st.lists(pair, max_size=6 if n1 < 17 else 25, unique_by=tuple))
        more = draw(st.lists(pair, max_size=4 if n1 < 17 else 15, unique_by=tuple))
        pred = [l for l in true if draw(st.booleans())] + [l for l in more if l not in true]
        method = c["method"] if all(e[1] for e in t1 + t2) else draw(st.sampled_from([None, "n"]))
        out.append({"t1": c["t1"], "t2": c["t2"], "method": method, "true": true,
                    "pred": pred, "one": one, "loud": draw(st.booleans())})
    return {"pairs": out, "tag": tag, "labels": draw(st.booleans()),
            "encoding": draw(st.sampled_from([None, "utf-8", "latin-1", "latin-1"])), "docs": draw(st.booleans())}


def loud(tree):
    tag, ident, text, kids, tail = tree
    return [tag, ident, text.upper(), [loud(k) for k in kids], tail.upper()]


def lay_out(d, case):
    files = []
    for n, c in enumerate(case["pairs"]):
        pair = []
        for kind in ("true", "pred"):
            # the predicted corpus may have its own version of the documents
            t1, t2 = (loud(c["t1"]), loud(c["t2"])) if kind == "pred" and c["loud"] else (c["t1"], c["t2"])
            names = [os.path.join(d, str(n), kind, f) for f in ("t1.xml", "t2.xml")]
            write_tree(names[0], t1)
            if c["one"]:
                names[1] = names[0]
            else:
                write_tree(names[1], t2)
            p = os.path.join(d, str(n), "%s%d.htd" % (kind, n))
            links = [link_of(c["t1"], c["t2"], i, j, c["method"]) for i, j in c[kind]]
            write_text(p, hitaext(names[0], names[1], links, c["method"]))
            pair.append(p)
        files.append(pair)
    return files


def expected_counts(c, tag):
    def sel(kind):
        return {(i, j) for i, j in c[kind]
                if flat(c["t1"])[i][0] == tag and flat(c["t2"])[j][0] == tag}
    t, p = sel("true"), sel("pred")
    return [len(t), len(p), len(t & p)]


def expected_scores(true, pred, common):
    ratio = pred / true if true else 0.0
    rec = common / true if true else 0.0
    prec = common / pred if pred else 0.0
    f = 2 * prec * rec / (prec + rec) if prec + rec else 0.0
    return [ratio, prec, rec, f]


def check_report(text, counts, labels):
    lines = text.rstrip("\n").split("\n")
    same(len(lines), len(counts) + 4, "lines of the report")
    same([w.strip(":") for w in lines[0].split()],
         ["#true", "#pred", "#common", "ratio", "prec", "rec", "f-score", "label"], "header")
    rows = counts + [[sum(c[k] for c in counts) for k in range(3)]]
    for line, row, label in zip(lines[2:2 + len(counts)] + lines[-1:], rows, labels + [""]):
        cols = line.split(None, 7)
        same([int(x) for x in cols[:3]], row, "counts of %r" % label)
        for got, want in zip(cols[3:7], expected_scores(*row)):
            check(abs(float(got) - want) <= 0.005001, "%r in the report, expected %r (%r)",
                  got, want, line)
        same("".join(cols[7:]), label, "label")


def run_eval(case, w):
    tag = case["tag"]
    with TempDir(w) as d:
        files = lay_out(d, case)
        labels = ["label %d" % n for n in range(len(files))] if case["labels"] else None
        scores = w.call("ptc.scores", cases=[p + [tag] for p in files])
        text = w.call("ptc.eval_alignment", pairs=files, labels=labels, tag=tag)
        argv = ["-t"] + [p[0] for p in files] + ["-p"] + [p[1] for p in files]
        if tag != "s":
            argv += ["--tag", tag]
        tool = w.call("tools.run", calls=[["ptc_eval.py", argv]])[0]
    counts = [expected_counts(c, tag) for c in case["pairs"]]
    for (c, s), want in zip(scores, counts):
        same(c, want, "true, predicted and common links")
        for got, x in zip(s, expected_scores(*want)):
            check(close(got, x), "scores %r for counts %r", s, want)
    names = [os.path.basename(p[1]) for p in files]
    check_report(text, counts, labels or names)
    same(tool[0], 0, "exit status")
    check_report(tool[1], counts, names)
    out = []
    for t, p, c in counts:
        if t and p and c < max(t, p):
            out.append("nontrivial")
        if t and p and 0 < c < min(t, p):
            out.append("partial")
    return sorted(set(out))


def expected_diff(c, tag):
    """blocks: (kind, ids, texts)"""
    t1, t2 = flat(c["t1"]), flat(c["t2"])
    x1, x2 = index(c["t1"])[1], index(c["t2"])[1]
    y1, y2 = x1, x2
    if c["loud"]:
        y1, y2 = index(loud(c["t1"]))[1], index(loud(c["t2"]))[1]
    out = []
    for i, e in enumerate(t1):
        if e[0] != tag:
            continue
        for kind, other, name in (("true", "pred", "true only"), ("pred", "true", "predicted only")):
            for a, b in c[kind]:
                if a == i and [a, b] not in c[other]:
                    out.append(("#%d %s (%s, %s)" % (len(out) + 1, name, e[1], t2[b][1]),
                                *((x1[i][0], x2[b][0]) if kind == "true" else (y1[i][0], y2[b][0]))))
    return out


def check_diff(text, want):
    lines = text.split("\n")
    pos = 0
    for head, a, b in want:
        check(pos < len(lines), "difference missing: %r", head)
        same(lines[pos].rstrip(":").rstrip(), head, "heading")
        body = (a + "\n" + b + "\n").split("\n")
        same(lines[pos + 1:pos + 1 + len(body)], body, "texts under %r" % head)
        pos += 1 + len(body)
    check(not "".join(lines[pos:]).strip(), "unexpected differences: %r", lines[pos:])


def run_diff(case, w):
    tag = case["tag"]
    with TempDir(w) as d:
        files = lay_out(d, case)
        texts, tools = [], []
        for p, c in zip(files, case["pairs"]):
            enc = case["encoding"]
            want = expected_diff(c, tag)
            if enc and "\u20ac" in str(want):
                enc = "utf-8"
            texts.append(w.call("ptc.diff", true=p[0], pred=p[1], tag=tag, docs=case["docs"],
                                encoding=enc))
        tools = w.call("tools.run", calls=[["ptc_diff.py", p + ([] if tag == "s" else ["-t", tag])]
                                           for p in files])
    labels = []
    for c, text, tool in zip(case["pairs"], texts, tools):
        want = expected_diff(c, tag)
        check_diff(text, want)
        same(tool[0], 0, "exit status")
        check_diff(tool[1], want)
        kinds = {h.split()[1] for h, a, b in want}
        labels += kinds
        if len(kinds) == 2:
            labels.append("nontrivial")
    return sorted(set(labels))


TESTS = [
    Test("eval", cases(), run_eval, 500),
    Test("diff", cases(), run_diff, 500),
]
