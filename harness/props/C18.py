"""longest common subsequence"""
import math

from hypothesis import strategies as st

from core import Test, check, close, same
from gen import KINDS, STRINGS, calls, letters, py_seq, related, seq_of, words

RULE = ("pairs of str, unicode, tuple, list or mixed sequences, half of them edited "
        "copies of each other; non-trivial: the longest common subsequence is "
        "non-empty and shorter than both sequences")
LCS = "daeso.string.lcs:lcs"
LCS2 = "daeso.string.lcs:longest_common_subsequence"
NLCS = "daeso.string.lcs:normalized_lcs"


def ref_len(a, b):
    prev = [0] * (len(b) + 1)
    for x in a:
        cur = [0]
        for j, y in enumerate(b):
            cur.append(prev[j] + 1 if x == y else max(prev[j + 1], cur[j]))
        prev = cur
    return prev[-1]


def is_subsequence(x, y):
    it = iter(y)
    return all(any(e == f for f in it) for e in x)


def run(case, w):
    (a, b), k1, k2 = case["seqs"], case["k1"], case["k2"]
    A, B = seq_of(k1, a), seq_of(k2, b)
    c, c2, d, n, m = calls(w, (LCS, A, B), (LCS2, A, B), (LCS, B, A),
                           (NLCS, A, B), (NLCS, B, A))
    pa, pb = py_seq(k1, a), py_seq(k2, b)
    want = ref_len(pa, pb)
    for r in (c, c2, d):
        same(len(r), want, "length of the common subsequence %r" % (r,))
        check(is_subsequence(r, pa), "%r is not a subsequence of %r", r, pa)
        check(is_subsequence(r, pb), "%r is not a subsequence of %r", r, pb)
        kind = type(pa) if type(pa) is type(pb) else list
        check(type(r) is kind, "result %r has type %s, expected %s",
              r, type(r).__name__, kind.__name__)
    norm = want / math.sqrt(len(pa) * len(pb)) if pa and pb else 0.0
    check(close(n, norm), "normalised length %r, expected %r", n, norm)
    check(close(m, norm), "normalised length, swapped: %r, expected %r", m, norm)
    labels = ["%s_%s" % (k1, k2)]
    if 0 < want < min(len(pa), len(pb)):
        labels.append("nontrivial")
    if want and want == min(len(pa), len(pb)):
        labels.append("contained")
    return labels


TESTS = [
    Test("lcs_letters", st.fixed_dictionaries({
        "k1": st.sampled_from(KINDS + ["unicode"]), "k2": st.sampled_from(KINDS + ["unicode"]),
        "seqs": related(letters, 14, 50)}), run, 6000),
    Test("lcs_same_type", st.fixed_dictionaries({
        "k": st.sampled_from(KINDS + ["unicode"]), "seqs": related(letters, 14)}).map(
            lambda c: {"k1": c["k"], "k2": c["k"], "seqs": c["seqs"]}),
        run, 4000),
    Test("lcs_words", st.fixed_dictionaries({
        "k": st.sampled_from(KINDS[1:]), "seqs": related(words, 10, 40)}).map(
            lambda c: {"k1": c["k"], "k2": c["k"], "seqs": c["seqs"]}),
        run, 4000),
]
