"""reference dynamic programs and validity predicates for sequence alignment"""
from hypothesis import strategies as st

from gen import py_seq, related, seq_of

ALPHA = ["a", "b", "c"]


def tables():
    """similarity scores per pair of elements and a negative gap cost per
    element; often non-uniform, sometimes fractions (exact in binary)"""
    def build(mode, vals, match, mism, gaps, gap, scale):
        sim, k = [], 0
        for x in ALPHA:
            for y in ALPHA:
                if mode:
                    v = vals[k]
                else:
                    v = match if x == y else mism
                sim.append([x, y, v])
                k += 1
        if mode == 2:
            gapt = [[x, -abs(g)] for x, g in zip(ALPHA, gaps)]
        else:
            gapt = [[x, -gap] for x in ALPHA]
        return {"sim": [[x, y, v * scale] for x, y, v in sim],
                "gap": [[x, v * scale] for x, v in gapt]}
    return st.builds(build, st.integers(0, 2),
                     st.lists(st.integers(-4, 5), min_size=9, max_size=9),
                     st.integers(1, 5), st.integers(-4, 0),
                     st.lists(st.integers(1, 5), min_size=3, max_size=3),
                     st.integers(1, 5), st.sampled_from([1, 1, 1, 0.5, 0.125]))


def cases(max_size=8, **extra):
    d = {"kind": st.sampled_from(["str", "tuple", "list", "unicode"]),
         "seqs": related(st.sampled_from(ALPHA), max_size), "tables": tables()}
    d.update(extra)
    return st.fixed_dictionaries(d)


def unpack(case):
    a, b = case["seqs"]
    k = case["kind"]
    sim = {(x, y): v for x, y, v in case["tables"]["sim"]}
    gap = dict(map(tuple, case["tables"]["gap"]))
    return (seq_of(k, a), seq_of(k, b), py_seq(k, a), py_seq(k, b), sim, gap)


def ref_table(a, b, sim, gap, local):
    t = {}
    for i in range(len(a) + 1):
        for j in range(len(b) + 1):
            opts = []
            if i == 0 and j == 0:
                opts.append(0)
            if local:
                opts.append(0)
            if i:
                opts.append(t[i - 1, j] + gap[a[i - 1]])
            if j:
                opts.append(t[i, j - 1] + gap[b[j - 1]])
            if i and j:
                opts.append(t[i - 1, j - 1] + sim[a[i - 1], b[j - 1]])
            t[i, j] = max(opts)
    return t


def well_formed(pairs, a, b):
    last = (-1, -1)
    for i, j in pairs:
        if not (last[0] < i < len(a) and last[1] < j < len(b)):
            return False
        last = (i, j)
    return True


def score_of(pairs, a, b, sim, gap, local):
    """total score of an alignment; a local one pays for the gaps between its
    first and last pair only"""
    if local:
        if not pairs:
            return 0
        (i0, j0), (i1, j1) = pairs[0], pairs[-1]
    else:
        i0 = j0 = 0
        i1, j1 = len(a) - 1, len(b) - 1
    I, J = {i for i, j in pairs}, {j for i, j in pairs}
    total = sum(sim[a[i], b[j]] for i, j in pairs)
    total += sum(gap[a[i]] for i in range(i0, i1 + 1) if i not in I)
    total += sum(gap[b[j]] for j in range(j0, j1 + 1) if j not in J)
    return total
