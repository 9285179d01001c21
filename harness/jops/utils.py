# -*- coding: utf-8 -*-
"""XML helpers, file patterns and directories, pairs, headers"""
import cStringIO
import copy
import os
import xml.etree.cElementTree as et

from base import s, outcome
from daeso.pair import Pair
from daeso.utils import etree, opsys, report


def build(spec, parent=None):
    tag, text, tail, attrib, children = spec
    e = et.Element(tag) if parent is None else et.SubElement(parent, tag)
    for k, v in sorted(attrib.items()):
        e.set(k, v)
    e.text, e.tail = text, tail
    for c in children:
        build(c, e)
    return e


def dump(e):
    return [e.tag, e.text, e.tail, dict(e.items()), [dump(c) for c in e]]


def equals(args):
    """which of the elements are equal, both ways; whether they stay as they were"""
    els = [build(s(x)) for x in args["elems"]]
    before = [dump(e) for e in els]
    out = [[bool(etree.equals(a, b)) for b in els] for a in els]
    return out, before == [dump(e) for e in els]


def indent(args):
    e = build(s(args["elem"]))
    out = []
    for _ in range(args["times"]):
        if args["level"] is None:
            etree.indent(e)
        else:
            etree.indent(e, args["level"])
        out.append(dump(e))
    return out


def write(args):
    """the file written, and the tree afterwards"""
    tree = et.ElementTree(build(s(args["elem"])))
    kw = dict((str(k), s(v)) for k, v in args["kw"].items())
    path = s(args["path"])
    if args["to"] == "name":
        etree.write(tree, path, **kw)
        text = open(path, "rb").read()
    elif args["to"] == "file":
        f = open(path, "wb")
        etree.write(tree, f, **kw)
        f.write("<!-- more -->")
        f.close()
        text = open(path, "rb").read()
    else:
        f = cStringIO.StringIO()
        etree.write(tree, f, **kw)
        f.write("<!-- more -->")
        text = f.getvalue()
    return text.decode("utf-8"), dump(tree.getroot())


def patterns(args):
    os.chdir(args["cwd"].encode("ascii"))
    pats = s(args["patterns"])
    return [[opsys.glob(p) for p in pats], opsys.multiglob(pats), opsys.multiglob(tuple(pats)),
            opsys.multiglob(p for p in pats)]


def dirs(args):
    os.chdir(args["cwd"].encode("ascii"))
    out = []
    for path, mode in s(args["paths"]):
        r = outcome(opsys.makedirs, path, *([] if mode is None else [mode]))
        out.append([r, os.path.isdir(path)])
    return out


def pairs(args):
    items = [Pair(*s(x)) for x in args["items"]]
    out = []
    for a in items:
        row = []
        for b in items:
            row.append([bool(a == b), bool(a != b)])
        out.append({"eq": row, "list": list(a), "self": bool(a == copy.copy(a)),
                    "roles": [a.source, a.target], "other": bool(a == tuple(a)),
                    "eval": list(eval(repr(a)))})
        x, y = a
        b = Pair()
        blank = list(b)
        b.set(x, y)
        out[-1]["set"] = [bool(b == a), blank]
    return out


def header(args):
    kw = dict((str(k), s(v)) for k, v in args["kw"].items())
    f = cStringIO.StringIO()
    if args["stream"]:
        kw["s"] = f
    return [report.header(s(args["head"]), **kw), f.getvalue()]
