"""a corpus as a mutable sequence of graph pairs"""
import os

from hypothesis import strategies as st

from core import TempDir, Test, check, same

RULE = ("histories of up to 20 sequence operations (all list methods and "
        "operators, simple and extended slices, wrong arguments) on 2 to 4 "
        "corpora over a pool with equal-but-distinct graph pairs, checked "
        "against a plain-list model after every step; purging of all or single "
        "graph pairs over graph banks of the same file under several names; lists of relations "
        "given to several corpora; "
        "non-trivial: at least 3 successful mutations on non-empty corpora, or "
        "graph banks merged")


class M(object):
    def __init__(self, items, rel, meta):
        self.items, self.rel, self.meta = list(items), rel, meta

    def view(self, items=None):
        items = self.items if items is None else items
        return {"type": "ParallelGraphCorpus", "items": list(items),
                "len": len(items), "rel": sorted(self.rel),
                "meta": None if self.meta is None else str(self.meta)}


class Bad(Exception):
    pass


def compatible(c, d):
    if sorted(c.rel) != sorted(d.rel):
        raise ValueError()


def model(case):
    keys = list(case["pool"])
    corpora = [M(c["pairs"], c["relations"], c["meta"]) for c in case["corpora"]]
    for op in case["ops"]:
        kind, c, a = op[0], corpora[op[1] % len(corpora)], op[2:]

        def other(i):
            return corpora[i % len(corpora)]

        def find(x, start=0, stop=None):
            k = [keys[i] for i in c.items]
            return k.index(keys[x], *((start,) if stop is None else (start, stop)))

        def step():
            L = c.items
            if kind == "append":
                return L.append(a[0])
            if kind in ("append_bad", "insert_bad", "setslice_list", "add_list"):
                raise TypeError()
            if kind == "insert":
                return L.insert(a[0], a[1])
            if kind == "extend":
                return L.extend(a[0])
            if kind == "extend_corpus":
                return L.extend(list(other(a[0]).items))
            if kind == "pop":
                return L.pop(*a)
            if kind == "remove":
                del L[find(a[0])]
                return None
            if kind == "index":
                return find(*a)
            if kind == "count":
                return [keys[i] for i in L].count(keys[a[0]])
            if kind == "contains":
                return keys[a[0]] in [keys[i] for i in L]
            if kind == "getitem":
                return L[a[0]]
            if kind == "delitem":
                del L[a[0]]
                return None
            if kind == "setitem":
                L[a[0]] = a[1]
                return None
            if kind == "setitem_bad":
                raise TypeError()
            if kind == "getslice":
                return c.view(L[a[0]:a[1]])
            if kind == "delslice":
                del L[a[0]:a[1]]
                return None
            if kind == "setslice":
                compatible(c, other(a[2]))
                L[a[0]:a[1]] = list(other(a[2]).items)
                return None
            if kind == "getext":
                return c.view(L[slice(*a[0])])
            if kind == "delext":
                del L[slice(*a[0])]
                return None
            if kind == "setext":
                compatible(c, other(a[1]))
                L[slice(*a[0])] = list(other(a[1]).items)
                return None
            if kind == "add":
                compatible(c, other(a[0]))
                return c.view(L + other(a[0]).items)
            if kind == "iadd":
                compatible(c, other(a[0]))
                L += list(other(a[0]).items)
                return True
            if kind == "mul":
                return [c.view(L * a[0]), c.view(L * a[0])]
            if kind == "imul":
                L *= a[0]
                return True
            if kind == "reverse":
                return L.reverse()
            if kind == "reversed":
                return L[::-1]
            if kind == "sort":
                return L.sort(key=lambda i: "s%d" % keys[i], reverse=a[0])
            if kind == "sort_cmp":
                L.sort(key=lambda i: "s%d" % keys[i], reverse=True)
                return None
            if kind == "clear":
                return L.clear()
            if kind == "eq":
                d = other(a[0])
                e = (sorted(c.rel) == sorted(d.rel) and c.meta == d.meta and
                     [keys[i] for i in L] == [keys[i] for i in d.items])
                return [e, not e]
            if kind == "eq_other":
                return [[False, True]] * (2 if a[0] == 3 else 3)
            if kind == "new":
                if len(corpora) < 4:
                    corpora.append(M(L[a[0]:a[1]], c.rel, c.meta))
                return None
            if kind == "deepcopy":
                if len(corpora) < 4:
                    seen, new = {}, []
                    for i in L:
                        if i not in seen:
                            seen[i] = len(keys)
                            keys.append(keys[i])
                        new.append(seen[i])
                    corpora.append(M(new, list(c.rel), c.meta))
                return None
            if kind == "purge":
                n = len({("b", keys[i] % 2) for i in L} | {("c", keys[i] % 3) for i in L})
                return [n, n]
            raise Bad(kind)

        before = [list(x.items) for x in corpora]
        try:
            res = ["ok", step()]
        except (TypeError, ValueError, IndexError) as e:
            res = ["exc", type(e).__name__]
        yield op, res, corpora, keys, before != [x.items for x in corpora[:len(before)]]


def run(case, w):
    out = w.call("corpuslist.history", **case)
    changes = 0
    labels = set()
    keys = None
    for i, ((op, res, corpora, keys, changed), (got, views)) in enumerate(
            zip(model(case), out["trace"])):
        where = "step %d %r" % (i, op)
        same(got, res, where + ": result")
        same(views, [c.view() for c in corpora], where + ": corpora")
        if changed and any(c.items for c in corpora):
            changes += 1
        labels.add(op[0] if res[0] == "ok" else op[0] + "_rejected")
    for (sg, tg, sb, tb, al), k in zip(out["pool"], keys if keys is not None else case["pool"]):
        same([sg, tg, sb, tb, al],
             ["s%d" % k, "t%d" % k, "/nowhere/b%d.xml" % (k % 2),
              "/nowhere/c%d.xml" % (k % 3), [["n%d" % k, "m", "equals"]]],
             "graph pair after the history")
    if changes >= 3:
        labels.add("nontrivial")
    return labels


def run_independent(case, w):
    o = w.call("corpuslist.independent", **case)
    same(o["before"], [True, False], "deep copy equals its original")
    same(o["after"], [False, True], "changed deep copy differs")
    same(o["c"], [[["n%d" % k, "m", "equals"]] for k in case["pool"]],
         "alignments of the original")
    same(o["rel"], ["equals", "restates"], "relations of the original")
    same(o["meta"], "1", "meta data of the original")
    same(o["pair_meta"], [0] * len(case["pool"]), "meta data of the original graph pairs")
    check(o["graphs"], "deep copy duplicates graphs")
    return ["nontrivial", case["what"]]


SAME = {"a.xml": "a", "./a.xml": "a", "link.xml": "a", "hard.xml": "a", "b.xml": "b", "sub/../b.xml": "b",
        "missing.xml": "m", "c.xml": "c"}


def run_purge(case, w):
    with TempDir(w) as d:
        for n in "abc":
            with open(os.path.join(d, n + ".xml"), "w") as f:
                f.write("<x/>")
        os.symlink("a.xml", os.path.join(d, "link.xml"))
        os.link(os.path.join(d, "a.xml"), os.path.join(d, "hard.xml"))
        os.mkdir(os.path.join(d, "sub"))
        out = w.call("corpuslist.purge", dir=d, **case)
    state = [list(p[:2]) for p in case["pairs"]]
    file = [SAME[p] for p in case["banks"]]
    labels = set()
    for n, (op, (res, got, rest)) in enumerate(zip(case["ops"], out)):
        where = "step %d, purge %s: " % (n, "of all" if op is None else "of pair %d" % op)
        purged = set(case["corpus"]) if op is None else {op}
        same(res, None, where + "result")
        same([g for i, g in enumerate(got) if i not in purged],
             [g for i, g in enumerate(state) if i not in purged],
             where + "graph banks of other graph pairs")
        same([[file[b] for b in g] for g in got], [[file[b] for b in g] for g in state],
             where + "files of graph banks")
        held = {b for i in purged for b in got[i]}
        same(len(held), len({file[b] for b in held}), where + "number of graph banks held")
        same(rest, [["s%d" % i, "t%d" % i, int(p[2])] for i, p in enumerate(case["pairs"])],
             where + "graphs and alignments")
        if got != state:
            labels.add("merged one" if op is not None else "merged all")
            labels.add("nontrivial")
        state = got
    return labels


@st.composite
def purge_cases(draw):
    banks = draw(st.lists(st.sampled_from(sorted(SAME)), min_size=2, max_size=6))
    b = st.integers(0, len(banks) - 1)
    pairs = draw(st.lists(st.tuples(b, b, st.booleans()), min_size=1, max_size=5))
    i = st.integers(0, len(pairs) - 1)
    return {"banks": banks, "pairs": pairs, "corpus": draw(st.lists(i, max_size=6)),
            "ops": draw(st.lists(st.one_of(i, i, st.none()), min_size=1, max_size=3))}


def run_annotators(case, w):
    got = w.call("corpuslist.annotators", **case)
    want, cur = [None], None
    for name, app in case["ops"]:
        cur = name if (not app or not cur) else cur + " + " + name
        want.append(cur)
    want.append(1 if case["ops"] else 0)
    same(got, want, "annotators")
    return ["nontrivial"] if len(case["ops"]) > 1 else []


P = 6
pi = st.integers(0, P - 1)
ix = st.integers(-6, 6)
cx = st.integers(0, 3)
opt = st.one_of(st.none(), ix)
ext = st.tuples(opt, opt, st.one_of(st.none(), st.sampled_from([1, 2, 3, -1, -2, 0])))
# Jython's list rejects resizing through an explicit step of 1
ext_set = st.tuples(opt, opt, st.one_of(st.none(), st.sampled_from([2, 3, -1, -2, 0])))


def op(kind, *a):
    return st.tuples(st.just(kind), cx, *a)


OPS = [op("append", pi), op("insert", ix, pi), op("extend", st.lists(pi, max_size=3)),
       op("extend_corpus", cx), op("pop"), op("pop", ix), op("remove", pi),
       op("index", pi), op("index", pi, st.integers(-3, 3)),
       op("index", pi, st.integers(-3, 3), st.integers(-3, 6)), op("count", pi), op("contains", pi), op("getitem", ix),
       op("delitem", ix), op("setitem", ix, pi), op("getslice", ix, ix),
       op("delslice", ix, ix), op("setslice", ix, ix, cx), op("getext", ext),
       op("delext", ext), op("setext", ext_set, cx), op("add", cx), op("iadd", cx),
       op("mul", st.integers(-1, 2)), op("imul", st.integers(0, 2)),
       op("reverse"), op("reversed"), op("sort", st.booleans()), op("sort_cmp"),
       op("clear"), op("eq", cx), op("eq", cx), op("eq_other", st.integers(0, 3)), op("new", ix, ix), op("deepcopy"),
       op("purge"), op("append_bad"), op("insert_bad", ix), op("setitem_bad", st.just(0)),
       op("setslice_list", ix, ix, pi), op("add_list", pi)]
RELS = [["equals"], ["equals", "restates"], ["restates", "equals"]]


def trim(case):
    """keep corpora small: doubling is only useful a few times"""
    n = 0
    ops = []
    for o in case["ops"]:
        if o[0] in ("extend_corpus", "iadd", "imul", "setslice", "setext", "add"):
            n += 1
            if n > 5:
                continue
        ops.append(o)
    return dict(case, ops=ops)


def run_relations(case, w):
    got = w.call("corpuslist.relations", **case)
    given, m = case["given"], []
    for n, (op, (corpora, lists)) in enumerate(zip(case["ops"], got)):
        name, a = op[0], op[1:]
        if name == "new":
            m.append(sorted(given[a[0] % len(given)]))
        elif m:
            i = a[0] % len(m)
            if name == "give":
                m[i] = sorted(given[a[1] % len(given)])
            elif name == "append":
                m[i] = m[i] + [a[1]]
            else:
                m.append(sorted(m[i]))
        what = " after step %d, %r" % (n, op)
        same(lists, given, "lists of the caller" + what)
        same(corpora, m, "relations" + what)
    return ["nontrivial"] if len(m) > 1 else []


ci = st.integers(0, 9)
relation_ops = st.one_of(
    st.tuples(st.just("new"), ci), st.tuples(st.just("give"), ci, ci),
    st.tuples(st.just("append"), ci, st.sampled_from(["a", "z"])),
    st.tuples(st.sampled_from(["slice", "add", "mul", "deepcopy"]), ci)).map(list)

TESTS = [
    Test("history", st.fixed_dictionaries({
        "pool": st.lists(st.integers(0, 3), min_size=P, max_size=P),
        "corpora": st.lists(st.fixed_dictionaries({
            "pairs": st.lists(pi, max_size=5), "relations": st.sampled_from(RELS),
            "meta": st.sampled_from([None, 0, 1, 1, 2])}), min_size=2, max_size=2),
        "ops": st.integers(1, 20).flatmap(lambda n: st.lists(
            st.one_of(OPS), min_size=n, max_size=n))}).map(trim), run, 4000),
    Test("deepcopy", st.fixed_dictionaries({
        "pool": st.lists(st.integers(0, 3), min_size=1, max_size=4),
        "i": st.integers(0, 3),
        "what": st.sampled_from(["align", "unalign", "meta", "relations", "pop",
                                 "pair_meta"])}), run_independent, 300),
    Test("purge", purge_cases(), run_purge, 1000),
    Test("annotators", st.fixed_dictionaries({
        "ops": st.lists(st.tuples(st.sampled_from(["ann", "bob", "cy", ""]), st.booleans()),
                        max_size=5)}), run_annotators, 200),
    Test("relations", st.fixed_dictionaries({
        "given": st.lists(st.lists(st.sampled_from(["equals", "b", "restates", "x"]), max_size=4),
                          min_size=1, max_size=3),
        "ops": st.lists(relation_ops, min_size=2, max_size=8)}), run_relations, 500),
]
