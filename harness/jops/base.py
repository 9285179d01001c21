# -*- coding: utf-8 -*-
"""helpers shared by the Jython-side operation modules"""
import sys


def ping(args):
    return "pong"


def s(x):
    """JSON text to what Python 2 callers mostly hand in: str when ASCII,
    unicode otherwise; recursive"""
    if isinstance(x, unicode):
        try:
            return x.encode("ascii")
        except UnicodeError:
            return x
    if isinstance(x, list):
        return [s(e) for e in x]
    if isinstance(x, dict):
        return dict((s(k), s(v)) for k, v in x.items())
    return x


def dec(x):
    """tagged JSON to Python: {"t": [..]} tuple, {"set": [..]} set,
    {"d": [[k, v], ..]} dict, {"n": "123"} integer, {"u": ".."} unicode; text as in s()"""
    if isinstance(x, unicode):
        return s(x)
    if isinstance(x, list):
        return [dec(e) for e in x]
    if isinstance(x, dict):
        if "t" in x:
            return tuple([dec(e) for e in x["t"]])
        if "set" in x:
            return set([dec(e) for e in x["set"]])
        if "d" in x:
            return dict([(dec(k), dec(v)) for k, v in x["d"]])
        if "u" in x:
            return unicode(x["u"])
        if "n" in x:
            return int(x["n"])
        raise ValueError(x)
    return x


def enc(x):
    if isinstance(x, tuple):
        return {"t": [enc(e) for e in x]}
    if isinstance(x, list):
        return [enc(e) for e in x]
    if isinstance(x, dict):
        return {"d": sorted([[enc(k), enc(v)] for k, v in x.items()])}
    if isinstance(x, (set, frozenset)):
        return {"set": sorted([enc(e) for e in x])}
    if x is None or isinstance(x, (bool, int, long, float, basestring)):
        return x
    raise TypeError(repr(type(x)))


def lookup(path):
    """'package.module:name.name'"""
    mod, name = path.split(":")
    obj = __import__(mod, fromlist=["x"])
    for part in name.split("."):
        obj = getattr(obj, part)
    return obj


def calls(args):
    """a list of [path, args, kw]; answers ["ok", value] or
    ["exc", class name, text] for each.  Arguments are decoded once per call,
    and whether the call changed them is reported as a third item"""
    res = []
    for path, a, kw in args["calls"]:
        fn = lookup(path)
        a = [dec(e) for e in a]
        kw = dict((str(k), dec(v)) for k, v in kw.items())
        before = repr(a)
        try:
            val = enc(fn(*a, **kw))
        except Exception as e:
            res.append(["exc", type(e).__name__, unicode(e)])
        else:
            res.append(["ok", val, repr(a) != before])
    return res


def outcome(fn, *args, **kw):
    """('ok', value) or ('exc', class name)"""
    try:
        return ["ok", fn(*args, **kw)]
    except Exception as e:
        return ["exc", type(e).__name__]


def printed():
    return sys.stdout.getvalue()
