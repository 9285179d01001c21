"""similarity coefficients"""
import math

from hypothesis import strategies as st

from core import Test, check, close, same
from gen import KINDS, calls, letters, py_seq, related, seq_of, words

RULE = ("pairs (and lists of 0 to 5) str/tuple/list/set sequences with and "
        "without repeated items, half of them edited copies; non-trivial: the "
        "sequences share some but not all items")
M = "daeso.string.similar:"
PAIRWISE = ["type_match", "token_match", "sym_token_match", "cosine", "tanimoto",
            "dice", "jaccard", "overlap_min", "overlap_max", "overlap"]
SYMMETRIC = [f for f in PAIRWISE if f != "token_match"]


def div(a, b):
    return a / b if b else 0.0


def ref(a, b):
    A, B = set(a), set(b)
    i, la, lb = len(A & B), len(a), len(b)
    ab = sum(x in B for x in a)
    ba = sum(x in A for x in b)
    return {"type_match": i, "token_match": ab, "sym_token_match": (ab + ba) / 2,
            "cosine": div(i, math.sqrt(la * lb)), "tanimoto": div(i, la + lb - i),
            "dice": div(2 * i, la + lb), "jaccard": div(i, len(A | B)),
            "overlap_min": div(i, min(la, lb)), "overlap": div(i, min(la, lb)),
            "overlap_max": div(i, max(la, lb))}


def conv(kind, items):
    if kind == "set":
        return {"set": sorted(set(items))}, sorted(set(items))
    return seq_of(kind, items), py_seq(kind, items)


def run(case, w):
    A, a = conv(case["k1"], case["seqs"][0])
    B, b = conv(case["k2"], case["seqs"][1])
    ab = calls(w, *[(M + f, A, B) for f in PAIRWISE])
    ba = calls(w, *[(M + f, B, A) for f in PAIRWISE])
    want = ref(a, b)
    for f, x, y in zip(PAIRWISE, ab, ba):
        check(close(x, want[f]), "%s is %r, expected %r", f, x, want[f])
        if f in SYMMETRIC:
            check(close(x, y), "%s is not symmetric: %r, %r", f, x, y)
        else:
            check(close(y, ref(b, a)[f]), "%s swapped is %r", f, y)
        if f not in ("type_match", "token_match", "sym_token_match"):
            check(-1e-9 <= x <= 1 + 1e-9, "%s is %r, outside [0, 1]", f, x)
    A1, B1 = set(a), set(b)
    labels = [case["k1"]]
    if A1 & B1 and A1 != B1:
        labels.append("nontrivial")
    if len(A1) < len(a):
        labels.append("repeats")
    if not a or not b:
        labels.append("empty")
    return labels


def run_gen(case, w):
    S = [conv(case["kind"], x)[0] for x in case["seqs"]]
    s = [conv(case["kind"], x)[1] for x in case["seqs"]]
    gc, gd, gj = calls(w, (M + "generalized_cosine", S), (M + "generalized_dice", S),
                       (M + "generalized_jaccard", S))
    if not s:
        same([gc, gd, gj], [0.0, 0.0, 0.0], "coefficients of no sequences")
        return ["none"]
    inter = set(s[0]).intersection(*s[1:])
    union = set().union(*s)
    prod = 1
    for x in s:
        prod *= len(x)
    check(close(gc, div(len(inter), math.sqrt(prod))), "cosine %r of %r", gc, s)
    check(close(gd, div(len(s) * len(inter), sum(map(len, s)))), "dice %r of %r", gd, s)
    check(close(gj, div(len(inter), len(union))), "jaccard %r of %r", gj, s)
    labels = ["n%d" % len(s)]
    if len(s) > 1 and inter and inter != union:
        labels.append("nontrivial")
    return labels


@st.composite
def several(draw):
    base = draw(st.lists(letters, max_size=4))
    n = draw(st.integers(0, 5))
    keep = draw(st.booleans())
    return [(base if keep else []) + draw(st.lists(letters, max_size=5)) for _ in range(n)]


kinds = st.sampled_from(KINDS + ["set", "unicode"])
TESTS = [
    Test("pairwise_letters", st.fixed_dictionaries({
        "k1": kinds, "k2": kinds, "seqs": related(letters, 10, 50)}), run, 5000),
    Test("pairwise_words", st.fixed_dictionaries({
        "k1": st.sampled_from(KINDS[1:]), "k2": st.sampled_from(KINDS[1:]),
        "seqs": related(words, 10, 50)}), run, 3000),
    Test("generalized", st.fixed_dictionaries({
        "kind": st.sampled_from(KINDS), "seqs": several()}), run_gen, 5000),
]
