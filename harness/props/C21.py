"""n-grams, padding and skip bigrams"""
import sys

from hypothesis import strategies as st

from core import Test, check, same
from gen import KINDS, STRINGS, calls, py_seq, seq_of, words

RULE = ("str/unicode/tuple/list token sequences, n from 1 to 6, padding 0 to 4 with "
        "one- and two-character pads, skip distances 0 to 6 or unlimited; "
        "non-trivial: at least two grams result and the sequence repeats an item")
M = "daeso.string.ngram:"
S = "daeso.string.sgram:"
CHARS = ["a", "b", "c", " ", "A"]
PADS = ["_", "#", "<>", "a"]


def padded(kind, seq, size, pad):
    if kind in STRINGS:
        return pad * size + seq + pad * size
    if kind == "tuple":
        return (pad,) * size + seq + (pad,) * size
    return [pad] * size + seq + [pad] * size


def grams(x, n):
    return [x[i:i + n] for i in range(len(x)) if i + n <= len(x)]


def lab(items, res):
    labels = []
    if len(res) >= 2 and len(set(items)) < len(items):
        labels.append("nontrivial")
    if not res:
        labels.append("none")
    return labels


def run_ngram(case, w):
    k, items = case["kind"], case["items"]
    n, p, pad, sep = case["n"], case["pad_size"], case["pad"], case["sep"]
    X, x = seq_of(k, items), py_seq(k, items)
    kw = {"kw": {"pad_size": p, "pad_string": pad}}
    kws = {"kw": {"pad_size": p, "pad_string": pad, "separator": sep}}
    got, strs, plain, pd, deflt = calls(
        w, (M + "n_gram_slices", X, n, kw), (M + "n_gram_strings", X, n, kws),
        (M + "n_gram_slices", X, n), (M + "pad", X, p, pad),
        (M + "n_gram_strings", X, n))
    px = padded(k, x, p, pad)
    want = grams(px, n)
    same([list(g) for g in got], [list(g) for g in want], "n-grams")
    check(all(type(g) is type(x) for g in got), "n-gram slices change the type")
    same(strs, [sep.join(g) for g in want], "n-gram strings")
    same([list(g) for g in plain], [list(g) for g in grams(x, n)], "unpadded n-grams")
    same(deflt, [" ".join(g) for g in grams(x, n)], "default n-gram strings")
    same(list(pd), list(px), "padded sequence")
    check(type(pd) is type(x), "padding changes the type")
    same(len(got), max(0, len(px) - n + 1), "number of n-grams")
    return lab(items, got) + ([] if not p else ["padded"])


def run_range(case, w):
    k, items, ns = case["kind"], case["items"], case["ns"]
    X, x = seq_of(k, items), py_seq(k, items)
    sizes = case["sizes"][:len(ns)] if case["sizes"] else None
    kw = {"pad": case["do_pad"], "pad_string": case["pad"]}
    if sizes:
        kw["pad_sizes"] = sizes
    (got,) = calls(w, (M + "n_gram_slices_range", X, ns, {"kw": kw}))
    want = {}
    for i, n in enumerate(ns):
        p = 0
        if case["do_pad"]:
            p = sizes[i] if sizes else n - 1
        want[n] = grams(padded(k, x, p, case["pad"]), n)
    same(sorted(got), sorted(want), "orders of the n-gram table")
    for n in want:
        same([list(g) for g in got[n]], [list(g) for g in want[n]], "%d-grams" % n)
    return lab(items, got[ns[0]]) + (["padded"] if case["do_pad"] else [])


def skips(x, d):
    return [(x[i], x[j]) for i in range(len(x)) for j in range(i + 1, len(x))
            if d is None or j - i - 1 <= d]


def run_skip(case, w):
    k, items, d = case["kind"], case["items"] * case.get("times", 1), case["dist"]
    X, x = seq_of(k, items), py_seq(k, items)
    kw = {} if d is None else {"distance_limit": d}
    got, pgot = calls(w, (S + "skip_bigram_slices", X, {"kw": kw}),
                      (S + "padded_skip_bigram_slices", X,
                       {"kw": dict(kw, pad_string=case["pad"])}))
    want = skips(x, d)
    same(got, want, "skip bigrams")
    same(pgot, skips(padded(k, x, 1, case["pad"]), d), "padded skip bigrams")
    n = len(x)
    if d is None:
        same(len(got), n * (n - 1) // 2, "number of skip bigrams")
    return lab(items, got) + (["limited"] if d is not None else []) + (
        ["long"] if n > 400 else [])


def seqs(max_size=12):
    return st.one_of(
        st.fixed_dictionaries({"kind": st.sampled_from(STRINGS),
                               "items": st.lists(st.sampled_from(CHARS), max_size=max_size)}),
        st.fixed_dictionaries({"kind": st.sampled_from(KINDS[1:]),
                               "items": st.lists(words, max_size=max_size)}))


def with_seq(extra, max_size=12):
    return st.tuples(seqs(max_size), st.fixed_dictionaries(extra)).map(
        lambda t: dict(t[0], **t[1]))


def one_pad(c):
    # characters of a str are its tokens
    if c["kind"] in STRINGS and len(c["pad"]) > 1:
        c = dict(c, pad="_")
    return c


TESTS = [
    Test("ngrams", with_seq({"n": st.integers(1, 6), "pad_size": st.integers(0, 4),
                             "pad": st.sampled_from(PADS),
                             "sep": st.sampled_from([" ", "", "-", "__"])}).map(one_pad),
         run_ngram, 8000),
    Test("ngram_table", with_seq({
        "ns": st.lists(st.integers(1, 5), min_size=1, max_size=4, unique=True),
        "sizes": st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=4, max_size=4)),
        "do_pad": st.booleans(), "pad": st.sampled_from(PADS)}).map(one_pad),
        run_range, 4000),
    Test("skip_bigrams", with_seq({
        "dist": st.one_of(st.none(), st.integers(0, 6)),
        "pad": st.sampled_from(PADS)}).map(one_pad), run_skip, 6000),
    Test("skip_bigrams_long", with_seq({
        "dist": st.integers(0, 40), "times": st.sampled_from([1, 20, 150]),
        "pad": st.just("_")}), run_skip, 150),
]
