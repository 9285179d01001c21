"""spelled-out numbers"""
from hypothesis import strategies as st

from core import Test, check, same
from gen import calls

RULE = ("integers from 0 up to 10**24-1, uniformly over the number of digits, "
        "with zero groups and ones planted, both spellings of hundreds; "
        "non-trivial: at least 3 digits")
F = "daeso.string.number:spell_out_number"
ONES = ["", "een", "twee", "drie", "vier", "vijf", "zes", "zeven", "acht", "negen",
        "tien", "elf", "twaalf", "dertien", "veertien", "vijftien", "zestien",
        "zeventien", "achttien", "negentien"]
TENS = [None, None, "twintig", "dertig", "veertig", "vijftig", "zestig", "zeventig",
        "tachtig", "negentig"]
BIG = ["", "duizend", "miljoen", "miljard", "biljoen", "biljard", "triljoen", "triljard"]


def below_100(n):
    if n < 20:
        return ONES[n]
    t, o = divmod(n, 10)
    return (ONES[o] + "en" if o else "") + TENS[t]


def below_1000(n):
    h, r = divmod(n, 100)
    return ("" if not h else ("" if h == 1 else ONES[h]) + "honderd") + below_100(r)


def spell(n, hundreds):
    if n == 0:
        return "nul"
    if hundreds and 1000 <= n <= 9999 and n // 100 % 10:
        return below_100(n // 100) + "honderd" + below_100(n % 100)
    groups, parts = [], []
    while n:
        n, g = divmod(n, 1000)
        groups.append(g)
    for i, g in reversed(list(enumerate(groups))):
        if not g:
            continue
        if i == 0:
            parts.append(below_1000(g))
        elif i == 1:
            parts.append(("" if g == 1 else below_1000(g)) + "duizend")
        else:
            parts.append(below_1000(g) + " " + BIG[i])
    return " ".join(parts)


def run(case, w):
    n, h = int(case["n"]), case["hundreds"]
    got, dflt = calls(w, (F, {"n": case["n"]}, {"kw": {"prefer_hundreds": h}}),
                      (F, {"n": case["n"]}))
    same(" ".join(got.split()), spell(n, h), "%d in words" % n)
    same(" ".join(dflt.split()), spell(n, True), "%d in words (default)" % n)
    labels = ["digits_%d" % len(case["n"])]
    if len(case["n"]) >= 3:
        labels.append("nontrivial")
    if n >= 1000 and "000" in case["n"][-3 * (len(case["n"]) // 3):]:
        labels.append("zero_group_maybe")
    return labels


@st.composite
def numbers(draw):
    mode = draw(st.integers(0, 3))
    if mode == 0:
        return str(draw(st.integers(0, 9999)))
    if mode == 1:
        return str(draw(st.integers(0, 10 ** draw(st.integers(1, 24)) - 1)))
    if mode == 2:
        d, e = draw(st.integers(1, 999)), draw(st.integers(0, 21))
        return str(d * 10 ** e)
    g = draw(st.lists(st.one_of(st.sampled_from([0, 0, 1, 1, 10, 100, 101, 999]),
                                st.integers(0, 999)), min_size=1, max_size=8))
    return str(int("".join("%03d" % x for x in g)))


TESTS = [Test("spelling", st.fixed_dictionaries({
    "n": numbers(), "hundreds": st.booleans()}), run, 12000)]
