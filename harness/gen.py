"""strategies and call helpers shared by the properties"""
from hypothesis import strategies as st

from core import Violation, short

SMALL = ["a", "b", "c", "d"]
WORDS = ["de", "het", "een", "aap", "noot", "mies", "x", "y", "zoo", "de het", "A", "caf\u00e9"]


def tup(xs):
    return {"t": list(xs)}


def calls(w, *specs):
    """specs: (path, args...) or (path, args..., kwdict as {'kw': {...}})"""
    out = []
    for sp in specs:
        kw = {}
        args = list(sp[1:])
        if args and isinstance(args[-1], dict) and "kw" in args[-1]:
            kw = args.pop()["kw"]
        out.append([sp[0], args, kw])
    res = w.call("base.calls", calls=out)
    vals = []
    for sp, r in zip(out, res):
        if r[0] == "exc":
            raise Violation("%s(%s): unexpected %s: %s"
                            % (sp[0], short(sp[1:]), r[1], r[2]))
        if r[2]:
            raise Violation("%s(%s): changed its arguments"
                            % (sp[0], short(sp[1:])))
        vals.append(untag(r[1]))
    return vals


def untag(x):
    """tuples come back as Python tuples, dicts as dicts"""
    if isinstance(x, dict):
        if "t" in x:
            return tuple(untag(e) for e in x["t"])
        if "d" in x:
            return {untag(k): untag(v) for k, v in x["d"]}
        if "set" in x:
            return set(untag(e) for e in x["set"])
    if isinstance(x, list):
        return [untag(e) for e in x]
    return x


def seq_of(kind, items):
    """tagged argument: a str, tuple or list of the given one-letter or word
    items"""
    if kind == "unicode":
        return {"u": "".join(items)}
    if kind == "str":
        return "".join(items)
    if kind == "tuple":
        return tup(items)
    return list(items)


def py_seq(kind, items):
    if kind in ("str", "unicode"):
        return "".join(items)
    if kind == "tuple":
        return tuple(items)
    return list(items)


KINDS = ["str", "tuple", "list"]
STRINGS = ["str", "str", "unicode"]
letters = st.sampled_from(SMALL)
# of "Aa" and "BB" the hash codes are equal
words = st.sampled_from(WORDS[:7] + ["Aa", "BB", ""])


def sized(elem, max_size, min_size=0):
    """lists whose lengths are spread over the whole range"""
    return st.integers(min_size, max_size).flatmap(
        lambda n: st.lists(elem, min_size=n, max_size=n))


def related(elem, max_size=12, long=None):
    """pairs of sequences, the second often an edited copy of the first, so
    that long partial matches are common; one in twenty of up to long elements"""
    if long:
        return st.integers(0, 19).flatmap(
            lambda k: related(elem, long if k == 19 else max_size))
    edit = st.lists(st.tuples(st.sampled_from("idsk"), st.integers(0, 20), elem),
                    max_size=4)

    def apply(a, b, edits, mode):
        if mode == 0:
            return [list(a), list(b)]
        c = list(a)
        for op, i, e in edits:
            i = i % (len(c) + 1)
            if op == "i":
                c.insert(i, e)
            elif op == "d" and i < len(c):
                del c[i]
            elif op == "s" and i < len(c):
                c[i] = e
            elif op == "k":
                c = c[i:] + c[:i]
        return [list(a), c]

    return st.builds(apply, sized(elem, max_size), sized(elem, max_size), edit,
                     st.integers(0, 3))
