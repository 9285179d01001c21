"""evaluation of alignments"""
import math
import random

from hypothesis import strategies as st

from core import TempDir, Test, check, close, same, short

RULE = ("one to four pairs of true and predicted corpora of up to 16 graph pairs with up to 30 nodes, "
        "the predicted alignments derived from the true ones by relabelling, dropping and adding; counts, "
        "scores, sums, means, variances and the written report compared with the defining "
        "formulas; non-trivial: common alignments exist, and true and predicted ones differ")
RELS = ["equals", "restates", "specifies", "generalizes", "intersects"]
ANY = "__any_rel__"


def one_to_one(al):
    m = {}
    for a, b, r in al:
        m = {(x, y): v for (x, y), v in m.items() if x != a and y != b}
        m[a, b] = r
    return m


def scores(true, pred, common):
    p = common / pred if pred else 0
    r = common / true if true else 0
    return [p, r, 2 * p * r / (p + r) if p + r else 0]


def mean(xs):
    return sum(xs) / len(xs)


def variance(xs, m):
    return sum((x - m) ** 2 for x in xs) / (len(xs) - 1) if len(xs) > 1 else 0.0


def count(true, pred, rel):
    t = p = c = 0
    for a, b in zip(true, pred):
        a, b = one_to_one(a), one_to_one(b)
        t += sum(rel in (ANY, r) for r in a.values())
        p += sum(rel in (ANY, r) for r in b.values())
        c += sum(n in b and (rel == ANY or b[n] == a[n] == rel) for n in a)
    return [t, p, c]


def stats(rows):
    """statistics over rows of counts"""
    cols = [list(x) for x in zip(*rows)]
    sums = [sum(x) for x in cols]
    means = [mean(x) for x in cols]
    var = [variance(x, m) for x, m in zip(cols, means)]
    meas = [scores(*r) for r in rows]
    mcols = [list(x) for x in zip(*meas)]
    macro = [mean(x) for x in mcols]
    mvar = [variance(x, m) for x, m in zip(mcols, macro)]
    micro = scores(*sums)
    ivar = [variance(x, m) for x, m in zip(mcols, micro)]
    sq = lambda xs: [math.sqrt(x) for x in xs]
    return {"rows": [list(r) + m for r, m in zip(rows, meas)],
            "counts": [sums, means, var, sq(var)],
            "measures": [macro, mvar, sq(mvar), micro, ivar, sq(ivar)]}


def numbers_close(got, want, what):
    check(len(got) == len(want), "%s: got %s, expected %s", what, short(got), short(want))
    for g, w in zip(got, want):
        check(g is not None and close(g, w, 1e-6), "%s: got %s, expected %s",
              what, short(got), short(want))


def compare_table(got, want, what):
    for k in ("rows", "counts", "measures"):
        same(len(got[k]), len(want[k]), "%s: number of %s" % (what, k))
        for i, (g, w) in enumerate(zip(got[k], want[k])):
            numbers_close(g, w, "%s: %s %d" % (what, k, i))


def evaluation(rounds, rels):
    """tables per relation, sums, overall scores"""
    tables = {r: stats([count(t, p, r) for t, p in rounds]) for r in list(rels) + [ANY]}
    sums = [sum(tables[r]["counts"][0][i] for r in rels) for i in range(3)]
    macro = [mean([tables[r]["measures"][3][i] for r in rels]) for i in range(3)]
    return tables, sums, [macro, scores(*sums)]


def compare_eval(got, want, what):
    tables, sums, overall = want
    same(sorted(got["tables"]), sorted(tables), what + ": relations")
    for r in tables:
        compare_table(got["tables"][r], tables[r], "%s: %s" % (what, r))
    same(got["sums"], sums, what + ": sums over relations")
    for i, m in enumerate(("macro", "micro")):
        numbers_close(got["overall"][i], overall[i], "%s: %s means over relations" % (what, m))


def report_rows(text, width=3):
    """[name, numbers] of the lines ending in numbers; other non-empty lines
    as [line, None]"""
    out = []
    for line in text.split("\n"):
        parts = line.split()
        if not parts or set(line) <= set("-=# "):
            continue
        try:
            nums = [float(x) for x in parts[-width:]]
            if len(parts) <= width:
                raise ValueError
            out.append([" ".join(parts[:-width]), nums])
        except ValueError:
            out.append([" ".join(parts), None])
    return out


def wanted_report(names, tables, sums, overall, rels, unit=100):
    pct = lambda xs: [unit * x for x in xs]

    def table(t):
        out = [[n, r[:3]] for n, r in zip(names, t["rows"])]
        out += [[n, x] for n, x in zip(["Sum:", "Mean:", "Var:", "Sd:"], t["counts"])]
        out += [[n, pct(r[3:])] for n, r in zip(names, t["rows"])]
        stat = ["%s %s:" % (a, b) for a in ("Macro", "Micro") for b in ("Mean", "Var", "Sd")]
        return out + [[n, pct(x)] for n, x in zip(stat, t["measures"])]

    out = table(tables[ANY])
    for r in rels:
        out += table(tables[r])
    out += [[r, tables[r]["counts"][0]] for r in rels] + [["Sum:", sums]]
    out += [[r, pct(tables[r]["measures"][3])] for r in rels]
    out += [["Macro Mean:", pct(overall[0])], ["Micro Mean:", pct(overall[1])]]
    return out


def compare_report(text, want, what="report"):
    got = [r for r in report_rows(text) if r[1] is not None]
    same([r[0] for r in got], [r[0] for r in want], "rows of the " + what)
    for i, (g, w) in enumerate(zip(got, want)):
        for a, b in zip(g[1], w[1]):
            check(abs(a - b) < 0.0051, "row %d of the %s: got %s, expected %s", i, what, g, w)


def run_eval(case, w):
    rels = case["relations"] or RELS
    with TempDir(w) as d:
        r = w.call("reports.evaluate", dir=d, **case)
    rounds = [(x["true"], x["pred"]) for x in case["rounds"]]
    names = [x["name"] if x["name"] else "part%d" % (i + 1) for i, x in enumerate(case["rounds"])]
    same(r["any"], ANY, "key of the evaluation irrespective of relations")
    for res in r["results"]:
        check(res != "corpus changed", "evaluating changed a corpus")
        n, got = res
        want = evaluation(rounds[:n], rels)
        compare_eval(got, want, "after %d corpora" % n)
        same(got["names"], names[:n], "names")
    compare_report(r["report"], wanted_report(names, *want, rels))
    compare_report(r["fractions"], wanted_report(names, *want, rels, 1), "report in fractions")
    heads = [x[0] for x in report_rows(r["report"]) if x[1] is None]
    for rel in rels:
        check(rel.upper() in heads, "no heading for %s in the report", rel)
    for head, n in (("Name:", 1 + len(rels)), ("Relation:", 1)):
        for cols in ("True: Pred: Common:", "Prec: Rec: F:"):
            same(heads.count("%s %s" % (head, cols)), n, "headings %s %s" % (head, cols))
    a = want[0][ANY]["counts"][0]
    labels = ["rounds%d" % len(rounds)]
    if a[2] and (a[2] < a[0] or a[2] < a[1]):
        labels.append("nontrivial")
    return labels


NODES = ["n0", "n1", "n2", "n3", "4", "5"]
MANY = ["n%d" % i for i in range(30)]


def big_pairs(rng, rels, ids, max_pairs):
    true, pred = [], []
    for _ in range(rng.randint(8, max_pairs)):
        k = rng.randint(0, len(ids))
        t = [[a, b, rng.choice(rels)] for a, b in zip(rng.sample(ids, k), rng.sample(ids, k))]
        p = [[a, b if rng.random() < .8 else rng.choice(ids),
              r if rng.random() < .7 else rng.choice(rels)]
             for a, b, r in t if rng.random() < .8]
        p += [[rng.choice(ids), rng.choice(ids), rng.choice(rels)]
              for _ in range(rng.randint(0, 3))]
        rng.shuffle(p)
        true.append(t)
        pred.append(p)
    return true, pred


@st.composite
def corpus_pairs(draw, rels=RELS, ids=NODES, many=MANY, max_pairs=16):
    """true and predicted alignments: a few to shrink, or many"""
    if draw(st.integers(0, 9)) == 9:
        return big_pairs(random.Random(draw(st.integers(0, 2 ** 32))), rels, many, max_pairs)
    nodes = st.sampled_from(ids)
    rel = st.sampled_from(rels)
    al = st.lists(st.tuples(nodes, nodes, rel), max_size=5)
    true, pred = [], []
    for _ in range(draw(st.integers(0, 4))):
        t = draw(al)
        p = []
        for a, b, r in t:
            what = draw(st.sampled_from(["keep", "keep", "rel", "drop", "move"]))
            if what == "keep":
                p.append([a, b, r])
            elif what == "rel":
                p.append([a, b, draw(rel)])
            elif what == "move":
                p.append([a, draw(nodes), r])
        p += draw(st.lists(st.tuples(nodes, nodes, rel), max_size=2))
        true.append(t)
        pred.append(p)
    return true, pred


@st.composite
def cases(draw):
    relations = draw(st.sampled_from([None, None, None, ["equals", "other"], ["x", "X"]]))
    rounds = []
    for _ in range(draw(st.integers(1, 4))):
        t, p = draw(corpus_pairs(relations or RELS))
        rounds.append({"true": t, "pred": p, "run": draw(st.booleans()),
                       "name": draw(st.sampled_from([None, None, "a", "b.pgc",
                                                     "a-name-longer-than-the-column.pgc"]))})
    return {"relations": relations, "rounds": rounds,
            "how": draw(st.sampled_from(["file", "out"]))}


def run_counts(case, w):
    r = w.call("reports.counts_scores", **case)
    t, p, c = case["counts"]
    prec, rec = c / p if p else 0, c / t if t else 0
    b = case["beta"] ** 2
    f = (b + 1) * prec * rec / (b * prec + rec) if b * prec + rec else 0
    numbers_close(r, [prec, rec, f], "scores")
    return ["nontrivial"] if c and t != p and 0 < b < 1 else []


@st.composite
def counted(draw):
    """the weight of precision and recall lies between 0 and 1"""
    c = draw(st.integers(0, 40))
    return {"counts": [c + draw(st.integers(0, 20)), c + draw(st.integers(0, 20)), c],
            "beta": draw(st.sampled_from([0, 1, 0.5, 0.25, 0.9]) |
                         st.floats(0, 1).map(lambda x: round(x, 3)))}


TESTS = [Test("evaluate", cases(), run_eval, 1200),
         Test("counts", counted(), run_counts, 600)]
