"""ROUGE scores"""
from hypothesis import strategies as st

from core import Test, check, close
from gen import calls, py_seq, related, seq_of, words
from props.C18 import ref_len
from props.C21 import grams, skips

RULE = ("candidate/reference token sequences, half of them edited copies, "
        "including empty and one-token ones, beta 0.25 to 4; non-trivial: the "
        "expected score lies strictly between 0 and 1")
R = "daeso.string.rouge:"


def fmeasure(p, r, beta):
    if beta ** 2 * p + r == 0:
        return 0.0
    return (1 + beta ** 2) * p * r / (beta ** 2 * p + r)


def ratio(a, b):
    return a / b if b else 0.0


def lab(score, extra=()):
    return (["nontrivial"] if 0 < score < 1 else []) + list(extra)


def run_n(case, w):
    cand, refs, n = case["cand"], case["refs"], case["n"]
    k = case.get("kind", "tuple")
    (got,) = calls(w, (R + "rouge_n", seq_of(k, cand), [seq_of(k, r) for r in refs], n))
    cg = grams(py_seq(k, cand), n)
    rg = [g for r in refs for g in grams(py_seq(k, r), n)]
    want = ratio(sum(g in rg for g in cg), len(rg))
    check(close(got, want), "ROUGE-N %r, expected %r", got, want)
    return lab(want, ["no_reference_ngrams"] if not rg else [])


def run_l(case, w):
    (a, b), beta, k = case["seqs"], case["beta"], case["kind"]
    got, dflt = calls(w, (R + "rouge_l", seq_of(k, a), seq_of(k, b), {"kw": {"beta": beta}}),
                      (R + "rouge_l", seq_of(k, a), seq_of(k, b)))
    n = ref_len(a, b)
    p, r = ratio(n, len(a)), ratio(n, len(b))
    want = fmeasure(p, r, beta)
    check(close(got, want), "ROUGE-L %r, expected %r", got, want)
    check(close(dflt, fmeasure(p, r, 1)), "ROUGE-L with default beta %r", dflt)
    check(-1e-9 <= got <= 1 + 1e-9, "ROUGE-L %r outside [0, 1]", got)
    return lab(want, ["empty"] if not a or not b else [])


def run_s(case, w):
    (a, b), beta, d = case["seqs"], case["beta"], case["dist"]
    kw = {"beta": beta}
    if d is not None:
        kw["distance_limit"] = d
    k = case.get("kind", "tuple")
    s, su = calls(w, (R + "rouge_s", seq_of(k, a), seq_of(k, b), {"kw": kw}),
                  (R + "rouge_su", seq_of(k, a), seq_of(k, b), {"kw": dict(kw, marker="<s>")}))
    labels = []
    for name, got, x, y in (("S", s, a, b), ("SU", su, ["<s>"] + a, ["<s>"] + b)):
        sx, sy = skips(x, d), skips(y, d)
        common = len(set(sx) & set(sy))
        # first argument gives recall, second precision, as documented for
        # SKIP2(X, Y): X the reference, Y the candidate
        want = fmeasure(ratio(common, len(sy)), ratio(common, len(sx)), beta)
        check(close(got, want), "ROUGE-%s %r, expected %r", name, got, want)
        if 0 < want < 1:
            labels.append("nontrivial")
        if not sx or not sy:
            labels.append("no_bigrams_" + name)
    return labels


betas = st.sampled_from([0.25, 0.5, 1, 2, 4, 25])
TESTS = [
    Test("rouge_n", st.builds(
        lambda k, ab, more, n: {"kind": k, "cand": ab[0], "refs": [ab[1]] + more, "n": n},
        st.sampled_from(["tuple", "list"]), related(words, 9, 40),
        st.lists(st.lists(words, max_size=7), max_size=3), st.integers(1, 4)),
        run_n, 6000),
    Test("rouge_l", st.fixed_dictionaries({
        "kind": st.sampled_from(["tuple", "list"]), "seqs": related(words, 10, 40),
        "beta": betas}), run_l, 6000),
    Test("rouge_s", st.fixed_dictionaries({
        "kind": st.sampled_from(["tuple", "list"]),
        "seqs": related(words, 8, 25), "beta": betas,
        "dist": st.one_of(st.none(), st.integers(0, 5))}), run_s, 6000),
]
