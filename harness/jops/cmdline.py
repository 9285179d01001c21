# -*- coding: utf-8 -*-
"""command lines through the bundled parser"""
import cStringIO
import argparse as standard
import os
import sys

from base import s
from daeso.thirdparty import argparse
from daeso.utils.cli import DaesoArgParser


def even(text):
    n = int(text)
    if n % 2:
        raise ValueError(text)
    return n


TYPES = {"int": int, "float": float, "even": even}


def _bytes(x):
    """as on a real command line"""
    if isinstance(x, unicode):
        return x.encode("utf-8")
    if isinstance(x, (list, tuple)):
        return [_bytes(e) for e in x]
    if isinstance(x, dict):
        return dict([(k, _bytes(v)) for k, v in x.items()])
    return x


def _text(x):
    if isinstance(x, str):
        return x.decode("utf-8")
    if isinstance(x, (list, tuple)):
        return [_text(e) for e in x]
    if isinstance(x, dict):
        return dict([(k, _text(v)) for k, v in x.items()])
    return x


def _declare(to, arg):
    kw = dict(arg["kw"])
    if "type" in kw:
        kw["type"] = TYPES[kw["type"]]
    to.add_argument(*arg["names"], **kw)


def _build(spec, argparse=argparse):
    cls = DaesoArgParser if spec["daeso"] else argparse.ArgumentParser
    kw = dict(spec["kw"])
    if "formatter_class" in kw:
        kw["formatter_class"] = getattr(argparse, kw["formatter_class"])
    parent = argparse.ArgumentParser(add_help=False)
    inherited = [a for a in spec["args"] if a["in"] == "parent"]
    if inherited:
        for arg in inherited:
            _declare(parent, arg)
        kw["parents"] = [parent]
    parser = cls(prog="tool", **kw)
    groups = {}
    for title in spec["groups"]:
        groups[title] = parser.add_argument_group(title)
    alone = None
    for arg in spec["args"]:
        if arg["in"] == "alone":
            if alone is None:
                alone = parser.add_mutually_exclusive_group(required=spec["must"])
            _declare(alone, arg)
        elif not arg["in"]:
            _declare(groups.get(arg["group"], parser), arg)
    return parser


def _captured(fn, *args):
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = cStringIO.StringIO(), cStringIO.StringIO()
    try:
        try:
            res = ["ok", fn(*args)]
        except SystemExit as e:
            res = ["exit", e.code]
        except Exception as e:
            res = ["exc", "%s: %s" % (type(e).__name__, e)]
        return res + [sys.stdout.getvalue(), sys.stderr.getvalue()]
    finally:
        sys.stdout, sys.stderr = out, err


def parse(args):
    os.environ["COLUMNS"] = "80"
    os.chdir(args["cwd"].encode("ascii"))
    for name, lines in _bytes(args["files"]).items():
        f = open(name, "w")
        f.write("".join([l + "\n" for l in lines]))
        f.close()
    parser = _build(_bytes(s(args["spec"])))
    out = []
    for argv in _bytes(args["lines"]):
        given = list(argv)
        out.append(_captured(lambda: vars(parser.parse_args(argv))) + [argv == given])
    return _text(out)


def compare(args):
    """the bundled parser and that of Python"""
    os.environ["COLUMNS"] = "80"
    os.chdir(args["cwd"].encode("ascii"))
    spec = _bytes(s(args["spec"]))
    parsers = [_build(spec), _build(spec, standard)]
    out = []
    for argv in _bytes(args["lines"]):
        given = list(argv)
        both = [_captured(lambda: vars(p.parse_args(argv)))[:2] for p in parsers]
        rest = [_captured(lambda: (lambda n: [vars(n[0]), n[1]])(p.parse_known_args(list(argv))))[:2]
                for p in parsers]
        out.append([both, rest, argv == given])
    return _text(out)


def version(args):
    from daeso.release import version
    return version
