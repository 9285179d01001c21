"""optimal global alignment"""
from core import Test, check, same, close
from props.alignment_ref import cases, ref_table, score_of, unpack, well_formed

RULE = ("pairs of sequences over three symbols with generated similarity "
        "tables and (often element-dependent) negative gap costs; non-trivial: "
        "both sequences non-empty and different")


def run(case, w):
    A, B, a, b, sim, gap = unpack(case)
    table, pairs = w.call("strings.align", algo="nw", seq1=A, seq2=B, **case["tables"])
    pairs = [tuple(p) for p in pairs]
    ref = ref_table(a, b, sim, gap, False)
    got = {(i, j): v for i, j, v in table}
    same(sorted(got), sorted(ref), "cells of the score table")
    for k in sorted(ref):
        check(got[k] == ref[k], "score at %r is %r, optimum for these prefixes is %r",
              k, got[k], ref[k])
    check(well_formed(pairs, a, b), "alignment %r is not strictly increasing", pairs)
    s = score_of(pairs, a, b, sim, gap, False)
    best = ref[len(a), len(b)]
    check(s == best, "alignment %r scores %r, optimum is %r", pairs, s, best)
    labels = []
    if a and b and a != b:
        labels.append("nontrivial")
    if len(set(gap.values())) > 1:
        labels.append("nonuniform_gaps")
    if not pairs:
        labels.append("nothing_aligned")
    return labels


TESTS = [Test("global", cases(8), run, 9000), Test("global_long", cases(20), run, 2000)]
