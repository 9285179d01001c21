"""statistics tables"""
import random

from hypothesis import strategies as st

from core import TempDir, Test, check, close, same

RULE = ("one to three tables of the three kinds (corpora, graph banks, a kind of its own) with 0 "
        "to 5 (or up to twelve of up to 40) rows of generated counts, percentages and names (long, with white space; numbers wider than their columns), filled "
        "in three ways, written with and without summary and legend, and read into one table; "
        "non-trivial: two tables with rows")
NAMES = ["a.pgc", "b c.xml", "a-rather-long-name.pgc", "x", "12", "1.5 2", "--a.pgc", "----a.pgc", "-----", "two  gaps.xml"]
LABELS = {
    "pgc": ["CORPUS", "CGP", "CGPFU", "CGPFP", "CGPUR", "PGPFU", "PGPFP", "PGPUR", "CNP", "CEQ",
            "CRE", "CGEN", "CSPEC", "CINT", "PEQ", "PRE", "PGEN", "PSPEC", "PINT"],
    "gb": ["BANK", "CG", "CGA", "CGU", "CGSA", "CGMA", "CGUR", "CGFP", "PGA", "PGSA", "PGMA",
           "PGUR", "PGFP", "CT", "ATG", "CN", "ANG", "CNA", "CNU", "PNA"],
    "other": ["WORD", "A", "LONGER", "X", "Y"]}
# percentage or average: (numerator, denominator, factor)
RATIOS = {
    "pgc": {"PGPFU": ("CGPFU", "CGP", 100), "PGPFP": ("CGPFP", "CGP", 100),
            "PGPUR": ("CGPUR", "CGP", 100), "PEQ": ("CEQ", "CNP", 100), "PRE": ("CRE", "CNP", 100),
            "PGEN": ("CGEN", "CNP", 100), "PSPEC": ("CSPEC", "CNP", 100),
            "PINT": ("CINT", "CNP", 100)},
    "gb": {"PGA": ("CGA", "CG", 100), "PGSA": ("CGSA", "CGA", 100), "PGMA": ("CGMA", "CGA", 100),
           "PGUR": ("CGUR", "CG", 100), "PGFP": ("CGFP", "CG", 100), "ATG": ("CT", "CG", 1),
           "ANG": ("CN", "CG", 1), "PNA": ("CNA", "CN", 100)},
    "other": {}}
WHOLES = ["CGP", "CNP", "CG", "CGA", "CN"]


def kind(label, cls):
    if label == LABELS[cls][0]:
        return "string"
    if cls == "other":
        return {"A": "count", "LONGER": "count", "X": "percent", "Y": "average"}[label]
    return "count" if label[0] == "C" else "average" if label[0] == "A" else "percent"


def overalls(cls, rows):
    """totals: None where there is none"""
    out = {}
    for k, label in enumerate(LABELS[cls]):
        out[label] = sum(r[k] for r in rows) if kind(label, cls) == "count" else None
    for label, (a, b, f) in RATIOS[cls].items():
        if out[b]:
            out[label] = out[a] / out[b] * f
    return [out[label] for label in LABELS[cls]]


def same_cells(got, want, what, tol=1e-9):
    same(len(got), len(want), "columns of " + what)
    for n, (g, x) in enumerate(zip(got, want)):
        if isinstance(x, float) and isinstance(g, (int, float)):
            check(abs(g - x) <= tol + 1e-9 * abs(x), "column %d of %s is %r, expected %r", n, what, g, x)
        else:
            same(g, x, "column %d of %s" % (n, what))


@st.composite
def cases(draw):
    cls = draw(st.sampled_from(["pgc", "gb", "other"]))
    wide = draw(st.integers(0, 5)) == 5
    count = (st.integers(0, 10 ** 10) if wide else
             st.one_of(st.integers(0, 5), st.integers(0, 9999)))
    value = st.one_of(st.sampled_from([0.0, 100.0, 33.333333, 0.005]), st.integers(0, 10000).map(lambda x: x / 97))

    def row():
        # parts do not exceed wholes, so that numbers fit their columns
        base = draw(count)
        out = []
        for label in LABELS[cls]:
            k = kind(label, cls)
            if k == "string":
                out.append(draw(st.sampled_from(NAMES)))
            elif k != "count":
                out.append(draw(value))
            elif label in WHOLES:
                out.append(draw(st.sampled_from([base, base, base + 1, 2 * base])))
            else:
                out.append(draw(st.integers(0, base)))
        return out

    def rows(rng, n):
        out = []
        for _ in range(n):
            base = rng.randint(0, 9999 if n < 9 else 99999 // n)
            out.append([rng.choice(NAMES) if k == "string" else
                        rng.randint(0, 10000) / 97 if k != "count" else
                        base if label in WHOLES else rng.randint(0, base)
                        for label in LABELS[cls] for k in [kind(label, cls)]])
        return out

    if draw(st.integers(0, 14)) == 14:
        rng = random.Random(draw(st.integers(0, 2 ** 32)))
        tables = [rows(rng, rng.randint(0, 40)) for _ in range(rng.randint(1, 12))]
    else:
        tables = [[row() for _ in range(draw(st.integers(0, 5)))]
                  for _ in range(draw(st.integers(1, 3)))]
    widths = None
    if draw(st.integers(0, 3)) == 0:
        widths = [[draw(st.integers(9, 13)), draw(st.integers(0, 4))] for _ in LABELS[cls]]
    return {"cls": cls, "tables": tables, "how": draw(st.sampled_from(["size", "grow", "append"])),
            "summarize": draw(st.booleans()), "legenda": draw(st.sampled_from([None, True, False])),
            "often": draw(st.booleans()), "by": draw(st.sampled_from(["name", "file"])), "widths": widths,
            "wide": wide,
            "cut": draw(st.one_of(st.none(), st.integers(0, 9)))}


def check_text(text, cls, rows, total, legenda, descr, widths, wide):
    lines = text.split("\n")
    labels = LABELS[cls]
    same(lines[0].split(), labels, "header")
    width = len(lines[1])
    check(lines[1] == "-" * width and width > 0, "no separator below the header: %r", lines[1])
    body = lines[2:2 + len(rows)]
    ends = []
    pos = 0
    for n, label in enumerate(labels):
        w = (max(len(label), max([len(r[0]) for r in rows] or [0])) + 2 if n == 0
             else widths[n][0] if widths else 8)
        ends.append((pos, pos + w))
        pos += w
    same(width, pos, "width of the table")
    precs = [widths[n][1] if widths else 2 for n in range(len(labels))]
    for line, row in zip(body, rows):
        if wide:
            cells = line.strip().rsplit(None, len(row) - 1)
            same(len(cells), len(row), "numbers in the row %r" % line)
        else:
            same(len(line), width, "width of the row %r" % line)
            cells = [line[a:b].strip() for a, b in ends]
        check_cells(cells, row, precs)
    same(lines[2 + len(rows)], "-" * width, "separator below the rows")
    line = lines[3 + len(rows)]
    if wide:
        shown = [(t, p) for t, p in zip(total, precs) if t is not None]
        same(len(line.split()), len(shown), "numbers in the totals %r" % line)
        check_cells(line.split(), [t for t, _ in shown], [p for _, p in shown])
    else:
        check_cells([line[a:b].strip() for a, b in ends], total, precs)
    rest = [l for l in lines[4 + len(rows):] if l.strip()]
    if legenda is False:
        same(rest, [], "lines after the table")
    else:
        same(len(rest), len(labels), "lines of the legend")
        for n, (l, label, d) in enumerate(zip(rest, labels, descr)):
            same(l.split(None, 2), [str(n + 1), label, d], "legend")


def check_cells(cells, row, precs):
    for c, v, p in zip(cells, row, precs):
        if v is None:
            same(c, "", "cell without value")
        elif isinstance(v, float):
            check("." in c or p == 0, "number %r without fraction", c)
            check(abs(float(c) - v) <= 0.5000001 * 10.0 ** -p, "cell %r for %r", c, v)
            if p:
                same(len(c.split(".")[1]), p, "precision of %r" % c)
        else:
            same(c, str(v), "cell")


def run(case, w):
    cls = case["cls"]
    labels = LABELS[cls]
    with TempDir(w) as d:
        got = w.call("stats.table", dir=d, **case)
    rows = []
    for t, (start, full, text, legend) in zip(case["tables"], got["written"]):
        same(start["labels"], labels, "columns")
        same(start["types"], [kind(x, cls) for x in labels], "types of the columns")
        n = len(t) if case["how"] == "size" else 0
        blank = {"string": "", "count": 0, "percent": 0.0, "average": 0.0}
        same(start["rows"], [[blank[kind(x, cls)] for x in labels]] * n, "new table")
        same(start["empty"], n == 0, "is_empty() of a new table")
        same(start["overall"], [None] * len(labels), "totals of a new table")
        for g, row in zip(full["rows"], t):
            same_cells(g, row, "a filled table")
        same(full["sizes"], [len(t)] * len(labels), "sizes of the columns")
        same(full["empty"], not t, "is_empty()")
        total = overalls(cls, t) if case["summarize"] else [None] * len(labels)
        same_cells(full["overall"], total, "the totals")
        check_text(text, cls, t, total, case["legenda"], full["descr"], case["widths"], case["wide"])
        for n, l in enumerate(legend.rstrip("\n").split("\n")):
            same(l.split(None, 2), [str(n + 1), labels[n], full["descr"][n]], "legend")
        rows += t
    prec = min([p for _, p in case["widths"][1:]] if case["widths"] else [2])
    same(len(got["read"]["rows"]), len(rows), "rows read")
    for g, row in zip(got["read"]["rows"], rows):
        same_cells(g, row, "a table read", 0.5000001 * 10.0 ** -prec)
    if not case["often"]:
        same(got["read"]["overall"], [None] * len(labels), "totals of a table read")
    # also when they have been summarized before
    same_cells(got["summarized"]["overall"], overalls(cls, rows), "the totals of the tables read")
    out = [cls]
    if case["cut"] is not None:
        end = len(case["tables"][0]) + 3
        same(got["cut"], "ok" if case["cut"] >= end else "EOFError",
             "outcome of reading the first %d lines of a table with %d rows" % (
                 case["cut"], len(case["tables"][0])))
        if case["cut"] < end:
            out.append("cut")
    if sum(bool(t) for t in case["tables"]) > 1:
        out.append("nontrivial")
    return out


TESTS = [Test("tables", cases(), run, 1500)]
