"""optimal local alignments"""
from hypothesis import strategies as st

from core import Test, check, same
from props.alignment_ref import cases, ref_table, score_of, unpack, well_formed

RULE = ("pairs of sequences over three symbols with generated similarity "
        "tables and negative gap costs, limits 0 to 5 on the number of "
        "alignments; non-trivial: the best local score is positive and the best "
        "alignment does not cover a whole sequence")
ASSUMPTIONS = ["Successive alignments after the first are checked for being "
               "well-formed, positive and disjoint from their predecessor; that they are "
               "pairwise disjoint and that enumeration without a limit always ends are "
               "recorded as known findings (an existing test pins the overlap)."]


def check_first(table, pairs, a, b, sim, gap, ref):
    got = {(i, j): v for i, j, v in table}
    same(sorted(got), sorted(ref), "cells of the score table")
    for k in sorted(ref):
        check(got[k] == ref[k], "score at %r is %r, optimum ending there is %r",
              k, got[k], ref[k])
    check(well_formed(pairs, a, b), "alignment %r is not strictly increasing", pairs)
    s = score_of(pairs, a, b, sim, gap, True)
    check(s == max(ref.values()), "alignment %r scores %r, optimum is %r",
          pairs, s, max(ref.values()))


def label(pairs, a, b, best):
    labels = []
    if best > 0 and len(pairs) < max(len(a), len(b)):
        labels.append("nontrivial")
    if best == 0:
        labels.append("no_positive_score")
    return labels


def run_sw(case, w):
    A, B, a, b, sim, gap = unpack(case)
    table, pairs = w.call("strings.align", algo="sw", seq1=A, seq2=B, **case["tables"])
    ref = ref_table(a, b, sim, gap, True)
    pairs = [tuple(p) for p in pairs]
    check_first(table, pairs, a, b, sim, gap, ref)
    return label(pairs, a, b, max(ref.values()))


def run_we(case, w):
    A, B, a, b, sim, gap = unpack(case)
    limit = case["limit"]
    tables, found = w.call("strings.align", algo="we", seq1=A, seq2=B,
                           limit=limit, **case["tables"])
    found = [[tuple(p) for p in f] for f in found]
    ref = ref_table(a, b, sim, gap, True)
    best = max(ref.values())
    check(len(tables) == len(found), "%d tables for %d alignments",
          len(tables), len(found))
    check(len(found) <= limit, "%d alignments, limit %d", len(found), limit)
    check((best > 0 and limit > 0) == bool(found), "best score %r, limit %r, but alignments %r",
          best, limit, found)
    if found:
        check_first(tables[0], found[0], a, b, sim, gap, ref)
        # documented tie rule: least i+j, then least i
        cell = min((k for k in ref if ref[k] == best), key=lambda k: (k[0] + k[1], k[0]))
        check(found[0][-1] == (cell[0] - 1, cell[1] - 1),
              "first alignment ends at %r, expected the best-scoring cell %r",
              found[0][-1], cell)
    for n, (f, t) in enumerate(zip(found, tables)):
        check(well_formed(f, a, b), "alignment %r is not strictly increasing", f)
        if n:
            check(not set(f) & set(found[n - 1]),
                  "alignments %r and %r share a pair", found[n - 1], f)
            scores = {(i, j): v for i, j, v in t}
            check(max(scores.values()) <= best, "later score exceeds the best")
            check(all(scores[i + 1, j + 1] == 0 for i, j in found[n - 1]),
                  "pairs of the preceding alignment keep a score")
    labels = label(found[0] if found else [], a, b, best)
    labels.append("found_%d" % len(found))
    return labels


def run_we_all(case, w):
    """the full claim: ends without a limit, all alignments disjoint"""
    A, B, a, b, sim, gap = unpack(case)
    bound = 4 * len(a) * len(b) + 4
    tables, found = w.call("strings.align", algo="we", seq1=A, seq2=B,
                           limit=bound, **case["tables"])
    check(len(found) < bound, "enumeration does not end: %d alignments of "
          "sequences of length %d and %d", len(found), len(a), len(b))
    seen = set()
    for f in found:
        f = {tuple(p) for p in f}
        check(not f & seen, "alignments share the pairs %r", sorted(f & seen))
        seen |= f
    return []


TESTS = [
    Test("local", cases(8), run_sw, 6000),
    Test("local_long", cases(18), run_sw, 1500),
    Test("successive", cases(7, limit=st.integers(0, 5)), run_we, 5000),
    # generated inputs run into the recorded findings too often to go on
    Test("successive_all", cases(7), run_we_all, 0, 0),
]
