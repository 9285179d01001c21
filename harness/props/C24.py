"""tf*idf weights"""
import math
import random

from hypothesis import strategies as st

from core import Test, check, close, same
from gen import calls, WORDS

RULE = ("collections of 0 to 6 (or 40) documents of 0 to 8 (or 30) terms with overlapping "
        "vocabulary, with and without normalisation and indicator weights; "
        "non-trivial: at least 2 documents and a term in some but not all of them")
M = "daeso.string.tf_idf:"


def run(case, w):
    docs, norm, ind = case["docs"], case["normalized"], case["indicator"]
    (terms, idf), (terms2, tfidf), (terms3, dflt) = calls(
        w, (M + "idf", docs, {"kw": {"normalized": norm}}),
        (M + "tf_idf", docs, {"kw": {"normalized": norm, "indicator": ind}}),
        (M + "tf_idf", docs))
    vocab = sorted({t for d in docs for t in d})
    for t in (terms, terms2, terms3):
        same(t, vocab, "terms")
    n = len(docs)
    df = {t: sum(t in d for d in docs) for t in vocab}
    scale = math.log(n) if norm and n > 1 else 1.0
    for name, rows in (("idf", idf), ("tf*idf", tfidf), ("default tf*idf", dflt)):
        same(len(rows), n, "number of %s rows" % name)
        for row, d in zip(rows, docs):
            same(len(row), len(vocab), "length of a %s row" % name)
            for t, got in zip(vocab, row):
                want = math.log(n / df[t]) / (1.0 if name[0] == "d" else scale)
                if name == "tf*idf" and ind:
                    want *= t in d
                elif name != "idf":
                    want *= d.count(t) / len(d) if d else 0.0
                check(close(got, want), "%s of %r in %r is %r, expected %r",
                      name, t, d, got, want)
    labels = []
    if n >= 2 and any(v < n for v in df.values()):
        labels.append("nontrivial")
    if norm and n < 2:
        labels.append("normalized_degenerate")
    if any(not d for d in docs):
        labels.append("empty_document")
    return labels


def many(seed):
    rng = random.Random(seed)
    vocab = WORDS + ["t%d" % i for i in range(rng.randint(1, 40))]
    return [[rng.choice(vocab) for _ in range(rng.randint(0, 30))]
            for _ in range(rng.randint(7, 40))]


TESTS = [Test("weights", st.fixed_dictionaries({
    "docs": st.integers(0, 39).flatmap(
        lambda k: st.integers(0, 2 ** 32).map(many) if k == 39 else
        st.lists(st.lists(st.sampled_from(WORDS), max_size=8), max_size=6) if k > 2 else
        st.lists(st.lists(st.sampled_from(WORDS[:2]), max_size=30), max_size=3)),
    "normalized": st.booleans(), "indicator": st.booleans()}), run, 6000)]
