"""bundled assignment solver and containers"""
import itertools

from hypothesis import strategies as st

from core import Test, check, same

RULE = ("cost matrices of up to 6 x 6 (or 13 x 13) (square, wide, tall) of small, negative, large or "
        "fractional numbers, solved one after another by one or several solvers; histories of up "
        "to 20 operations on the ordered dictionary and the counter, also run on the standard "
        "ones; non-trivial: no row-wise or column-wise choice of minima is optimal, or keys are "
        "set again after removal, or counts are not positive")
numbers = st.sampled_from([
    st.integers(0, 5), st.integers(0, 100), st.integers(-20, 20), st.integers(0, 10 ** 12),
    st.integers(0, 64).map(lambda x: x / 8), st.floats(0, 1, allow_nan=False, width=32), st.just(0)])


@st.composite
def matrix(draw):
    rows, cols = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    if draw(st.booleans()):
        rows = cols
    if draw(st.integers(0, 14)) == 14:
        rows, cols = draw(st.integers(7, 13)), draw(st.integers(7, 13))
    val = draw(numbers)
    return draw(st.lists(st.lists(val, min_size=cols, max_size=cols), min_size=rows, max_size=rows))


def by_columns(m):
    """the best choice by dynamic programming over the sets of columns used"""
    if len(m) > len(m[0]):
        m = [list(c) for c in zip(*m)]
    costs = {0: 0}
    for row in m:
        new = {}
        for used, cost in costs.items():
            for j, v in enumerate(row):
                if not used >> j & 1:
                    k = used | 1 << j
                    if k not in new or cost + v < new[k]:
                        new[k] = cost + v
        costs = new
    return min(costs.values())


def best(m):
    rows, cols = len(m), len(m[0])
    if min(rows, cols) > 6:
        return by_columns(m)
    if rows <= cols:
        return min(sum(m[i][j] for i, j in enumerate(p))
                   for p in itertools.permutations(range(cols), rows))
    return min(sum(m[i][j] for j, i in enumerate(p))
               for p in itertools.permutations(range(rows), cols))


def run(case, w):
    got = w.call("bundled.assign", **case)
    check(got != "hang", "no end")
    labels = set()
    for m, (pairs, kept) in zip(case["matrices"], got):
        rows, cols = len(m), len(m[0])
        check(kept, "the caller's matrix changed")
        same(len(pairs), min(rows, cols), "number of pairs for %r" % (m,))
        for k, n in ((0, rows), (1, cols)):
            used = [p[k] for p in pairs]
            check(len(set(used)) == len(used) and all(0 <= x < n for x in used),
                  "pairs %r for %r", pairs, m)
        cost, opt = sum(m[i][j] for i, j in pairs), best(m)
        check(abs(cost - opt) <= 1e-9 * max(1, abs(opt)), "cost %r of %r for %r, best is %r",
              cost, pairs, m, opt)
        if len({r.index(min(r)) for r in m}) < rows <= cols:
            labels.add("nontrivial")
        if rows != cols:
            labels.add("rectangular")
    return sorted(labels)


def run_matrices(case, w):
    m = case["matrix"]
    got = w.call("bundled.matrices", **case)
    check(got["kept"], "the caller's matrix changed")
    want = [[case["top"] - x for x in r] for r in m]
    same(got["cost"], want, "cost matrix")
    same(got["cost2"], want, "cost matrix by the class")
    n = max(len(m), len(m[0]))
    want = [r + [0] * (n - len(r)) for r in m] + [[0] * n] * (n - len(m))
    same(got["pad"], want, "padded matrix")
    return ["nontrivial"] if len(m) != len(m[0]) else []


# --- containers ---

keys = st.sampled_from(["a", "b", "c", 1])
vals = st.integers(0, 3)
items = st.lists(st.tuples(keys, vals).map(list), max_size=4)
named = st.lists(st.tuples(st.sampled_from(["a", "b", "z"]), vals).map(list), max_size=2)


def op(name, *args):
    return st.tuples(st.just(name), *args).map(list)


ordered_ops = st.one_of(
    op("set", keys, vals), op("set", keys, vals), op("del", keys), op("pop", keys), op("pop", keys, vals),
    op("popitem"), op("setdefault", keys, vals), op("setdefault", keys),
    op("update", items, st.sampled_from(["list", "dict"])), op("update", named, st.just("kw")),
    op("clear"), op("get", keys), op("get", keys, vals), op("in", keys), op("item", keys),
    op("copy", st.sampled_from(["copy", "copy.copy", "deepcopy"])),
    op("copy", st.just("pickle"), st.integers(0, 2)), op("new", items),
    op("fromkeys", st.lists(keys, max_size=4), st.one_of(st.none(), vals)))
FIELDS = ["outcome", "items()", "iteration", "keys()", "values()", "reversed()", "iterkeys()",
          "itervalues()", "iteritems()", "len()", "equality with a dict", "earlier ones"]


def run_ordered(case, w):
    mine, standard = w.call("bundled.ordered", **case)
    labels = set()
    gone = set()
    for o, g, x in zip(case["ops"], mine, standard):
        for f, a, b in zip(FIELDS, g, x):
            same(a, b, "%s after %r" % (f, o))
        if o[0] in ("del", "pop", "popitem", "clear"):
            gone.add("removed")
        elif gone and o[0] in ("set", "update", "setdefault"):
            labels.add("nontrivial")
    return sorted(labels)


counts = st.integers(-2, 3)
citems = st.lists(st.tuples(st.sampled_from(["a", "b", "x"]), counts).map(list), max_size=3)
source = st.one_of(
    st.tuples(st.just("dict"), citems), st.tuples(st.just("counter"), citems),
    st.tuples(st.sampled_from(["list", "iter"]), st.lists(st.sampled_from("abx"), max_size=5)),
    st.tuples(st.just("str"), st.text("abx", max_size=5)), st.just(("none", None))).map(list)
counter_ops = st.one_of(
    op("new", source), op("kw", citems), op("update", source), op("update_kw", source, citems),
    op("set", st.sampled_from("abx"), counts), op("del", st.sampled_from("abxq")),
    op("item", st.sampled_from("abxq")), op("most"), op("most", st.one_of(st.none(), st.integers(0, 4))),
    op("elements"), op("copy"), op("fromkeys", st.just(["a"])),
    op("+", citems), op("-", citems), op("|", citems),
    op("&", citems), op("r-", citems), op("r&", citems))


def run_counter(case, w):
    mine, standard = w.call("bundled.counters", **case)
    for o, g, x in zip(case["ops"], mine, standard):
        for f, a, b in zip(["outcome", "counts", "len()"], g, x):
            same(a, b, "%s after %r" % (f, o))
    return ["nontrivial"] if any(c <= 0 for x in mine for _, c in x[1]) else []


TESTS = [
    Test("assign", st.fixed_dictionaries({"matrices": st.lists(matrix(), min_size=1, max_size=2),
                                          "fresh": st.booleans()}), run, 2000),
    Test("matrices", st.fixed_dictionaries({"matrix": matrix(), "top": st.integers(0, 100)}),
         run_matrices, 300),
    Test("ordered", st.fixed_dictionaries({"ops": st.lists(ordered_ops, max_size=20)}), run_ordered, 1500),
    Test("counter", st.fixed_dictionaries({"ops": st.lists(counter_ops, max_size=20)}), run_counter, 1500),
]
