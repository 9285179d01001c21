"""edit distance and median string"""
from hypothesis import strategies as st

from core import Test, check, close, same
from gen import KINDS, STRINGS, calls, letters, py_seq, related, seq_of, words

RULE = ("pairs/triples of str, tuple or list sequences over small alphabets, "
        "half of them edited copies of each other; non-trivial: both sequences "
        "non-empty and different (for medians: at least 3 strings with at "
        "least 2 distinct ones)")
LEV = "daeso.string.levenshtein:levenshtein"
NLEV = "daeso.string.levenshtein:normalized_levenshtein"


def ref_lev(a, b):
    d = [[0] * (len(b) + 1) for _ in range(len(a) + 1)]
    for i in range(len(a) + 1):
        for j in range(len(b) + 1):
            if i == 0 or j == 0:
                d[i][j] = i + j
            else:
                d[i][j] = min(d[i - 1][j] + 1, d[i][j - 1] + 1,
                              d[i - 1][j - 1] + (a[i - 1] != b[j - 1]))
    return d[len(a)][len(b)]


def run_pair(case, w):
    kind, (a, b) = case["kind"], case["seqs"]
    A, B = seq_of(kind, a), seq_of(kind, b)
    d, e, n, m, z = calls(w, (LEV, A, B), (LEV, B, A), (NLEV, A, B),
                          (NLEV, B, A), (LEV, A, A))
    pa, pb = py_seq(kind, a), py_seq(kind, b)
    want = ref_lev(pa, pb)
    same(d, want, "distance")
    same(e, want, "distance, arguments swapped")
    same(z, 0, "distance to itself")
    longest = max(len(pa), len(pb))
    norm = want / longest if longest else 0.0
    check(close(n, norm), "normalised distance %r, expected %r", n, norm)
    check(close(m, norm), "normalised distance swapped %r, expected %r", m, norm)
    check((d == 0) == (pa == pb), "distance 0 for different sequences")
    labels = ["kind_" + kind]
    if pa and pb and pa != pb:
        labels.append("nontrivial")
    if len(pa) > len(pb):
        labels.append("longer_first")
    if 0 < want < longest:
        labels.append("partial")
    return labels


def run_median(case, w):
    strings = ["".join(x) for x in case["strings"]]
    i = w.call("strings.median", strings=strings, dist=case["dist"])
    tot = [sum(DIST[case["dist"]](s, t) for t in strings) for s in strings]
    check(i in strings, "median %r is not one of the strings", i)
    want = strings[tot.index(min(tot))]
    got = tot[strings.index(i)]
    check(close(got, min(tot)), "median %r has summed distance %r, minimum is %r",
          i, got, min(tot))
    labels = []
    if len(strings) >= 3 and len(set(strings)) >= 2:
        labels.append("nontrivial")
    if i != want:
        labels.append("tie")
    return labels


DIST = {"lev": ref_lev, "half": lambda a, b: ref_lev(a, b) / 2.0, "len": lambda a, b: abs(len(a) - len(b)),
        "ham": lambda a, b: sum(x != y for x, y in zip(a, b)) + abs(len(a) - len(b))}

TESTS = [
    Test("distance", st.one_of(
        st.fixed_dictionaries({"kind": st.sampled_from(STRINGS), "seqs": related(letters, 12, 50)}),
        st.fixed_dictionaries({"kind": st.sampled_from(KINDS[1:]),
                               "seqs": related(words, 9, 40)})),
        run_pair, 2400),
    Test("median", st.fixed_dictionaries({
        "strings": st.lists(st.lists(letters, max_size=6), min_size=1, max_size=7) |
                   st.lists(st.lists(letters, max_size=9), min_size=8, max_size=16),
        "dist": st.sampled_from(sorted(DIST))}), run_median, 1500),
]
