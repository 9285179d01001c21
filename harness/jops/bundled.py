# -*- coding: utf-8 -*-
"""bundled assignment solver, ordered dictionary and counter"""
import collections
import copy
import pickle

import __main__
from base import s, enc
from daeso.thirdparty import counter, munkres, odict


def _assign(args):
    m = munkres.Munkres()
    out = []
    for matrix in args["matrices"]:
        mine = [row[:] for row in matrix]
        if args["fresh"]:
            m = munkres.Munkres()
        res = m.compute(mine)
        out.append([[list(x) for x in res], mine == matrix])
    return out


def assign(args):
    try:
        return __main__.run_limited(_assign, args, 3000000)
    except __main__.StepLimit:
        return "hang"


def matrices(args):
    m = args["matrix"]
    mine = [row[:] for row in m]
    top = args["top"]
    return {"cost": munkres.make_cost_matrix(mine, lambda x: top - x),
            "cost2": munkres.Munkres.make_cost_matrix(mine, lambda x: top - x),
            "pad": munkres.Munkres().pad_matrix(mine), "kept": mine == m}


# --- ordered dictionary: the same history on this and the standard one ---

def _items(d):
    return [list(x) for x in d.items()]


def _odict_history(cls, ops):
    d = cls()
    old = []
    out = []

    def step(op):
        name, a = op[0], op[1:]
        if name == "new":
            old.append(d)
            return cls(*[[tuple(x) for x in a[0]]])
        if name == "set":
            d[a[0]] = a[1]
        elif name == "del":
            del d[a[0]]
        elif name == "pop":
            return d.pop(*a)
        elif name == "popitem":
            return list(d.popitem())
        elif name == "setdefault":
            return d.setdefault(*a)
        elif name == "update":
            if a[1] == "dict":
                # one item, since the order of more is not defined
                d.update(dict([a[0][0]] if a[0] else []))
            elif a[1] == "kw":
                d.update(**dict((str(k), v) for k, v in a[0][:1]))
            else:
                d.update([tuple(x) for x in a[0]])
        elif name == "clear":
            d.clear()
        elif name == "get":
            return d.get(*a)
        elif name == "in":
            return a[0] in d
        elif name == "item":
            return d[a[0]]
        elif name == "copy":
            old.append(d)
            if a[0] == "copy":
                return d.copy()
            if a[0] == "copy.copy":
                return copy.copy(d)
            if a[0] == "deepcopy":
                return copy.deepcopy(d)
            return pickle.loads(pickle.dumps(d, a[1]))
        elif name == "fromkeys":
            old.append(d)
            return cls.fromkeys(a[0]) if a[1] is None else cls.fromkeys(a[0], a[1])

    for op in ops:
        try:
            r = step(op)
            if op[0] in ("new", "copy", "fromkeys"):
                d = r
                r = isinstance(d, cls)
            r = ["ok", r]
        except Exception as e:
            r = ["exc", type(e).__name__]
        out.append([r, _items(d), list(d), list(d.keys()), list(d.values()), list(reversed(d)),
                    list(d.iterkeys()), list(d.itervalues()), [list(x) for x in d.iteritems()],
                    len(d), bool(d == dict(d.items())), [_items(x) for x in old]])
    return out


def ordered(args):
    ops = s(args["ops"])
    return [_odict_history(odict.OrderedDict, ops),
            _odict_history(collections.OrderedDict, ops)]


# --- counter ---

def _plain(x):
    if isinstance(x, dict):
        return sorted([list(i) for i in x.items()])
    return x


def _counter_history(cls, ops):
    d = cls()
    out = []

    def source(x):
        kind, v = x
        if kind == "dict":
            return dict([tuple(i) for i in v])
        if kind == "counter":
            return cls(dict([tuple(i) for i in v]))
        if kind == "iter":
            return iter(v)
        return v

    for op in ops:
        name, a = op[0], op[1:]
        try:
            r = None
            if name == "new":
                d = cls(source(a[0]))
            elif name == "kw":
                d = cls(**dict((str(k), v) for k, v in a[0]))
            elif name == "update":
                d.update(source(a[0]))
            elif name == "update_kw":
                d.update(source(a[0]), **dict((str(k), v) for k, v in a[1]))
            elif name == "set":
                d[a[0]] = a[1]
            elif name == "del":
                del d[a[0]]
            elif name == "item":
                r = d[a[0]]
            elif name == "most":
                r = [list(x) for x in d.most_common(*a)]
                if len(a) == 0 or a[0] is None or a[0] >= len(d):
                    r = sorted(r, key=lambda x: (-x[1], x[0]))
                else:
                    # which of several equally common ones is not defined
                    r = [x[1] for x in r]
            elif name == "elements":
                r = sorted(d.elements())
            elif name == "copy":
                e = d.copy()
                e["x"] += 1
                r = [isinstance(e, cls), _plain(e)]
            elif name == "fromkeys":
                r = cls.fromkeys(a[0])
            else:
                e = cls(dict([tuple(i) for i in a[0]]))
                x = {"+": lambda: d + e, "-": lambda: d - e, "|": lambda: d | e,
                     "&": lambda: d & e, "r-": lambda: e - d, "r&": lambda: e & d}[name]()
                r = [isinstance(x, cls), _plain(x), _plain(e)]
            r = ["ok", r]
        except Exception as e:
            r = ["exc", type(e).__name__]
        out.append([r, _plain(d), len(d)])
    return out


def counters(args):
    ops = s(args["ops"])
    return [_counter_history(counter.Counter, ops), _counter_history(collections.Counter, ops)]
