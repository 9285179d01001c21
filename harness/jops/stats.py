# -*- coding: utf-8 -*-
"""statistics of corpora and graph banks"""
import cStringIO
import os
import sys

from base import s
from daeso.graph.daesograph import DaesoGraph
from daeso.stats.table import Column, StatsTable
from daeso.pgc.pgcstats import PgcStatsTable, pgc_stats
from daeso.gb.gbstats import GbStatsTable, gb_stats


class OtherTable(StatsTable):
    columns_def = """
    WORD    string    some word

    A       count     count of a
    LONGER  count     count of something   with a long  description
    X       percent   percentage
    Y       average   average
    """


CLASSES = {"pgc": PgcStatsTable, "gb": GbStatsTable, "other": OtherTable}


def dump(t):
    return {"labels": list(t.keys()), "rows": [list(r) for r in zip(*t.values())],
            "sizes": [len(c) for c in t.values()],
            "overall": [c.overall for c in t.values()], "empty": t.is_empty(),
            "types": [c.type for c in t.values()], "descr": [c.descr for c in t.values()]}


def _fill(t, rows, how):
    if how == "grow":
        old = len(t.values()[0])
        t.grow(len(rows))
        for i, row in enumerate(rows):
            for c, v in zip(t.values(), row):
                c[old + i] = v
    else:
        for row in rows:
            for c, v in zip(t.values(), row):
                c.append(v)


def table(args):
    """fill tables, write them, read all of them back into one"""
    cls = CLASSES[args["cls"]]
    out = {"written": []}
    sums = cls()
    texts = []
    for n, rows in enumerate(s(args["tables"])):
        t = cls(size=len(rows) if args["how"] == "size" else 0)
        start = dump(t)
        if args["how"] == "size":
            for i, row in enumerate(rows):
                for c, v in zip(t.values(), row):
                    c[i] = v
        else:
            _fill(t, rows, args["how"])
        if args["widths"]:
            for c, (w, p) in zip(t.values(), args["widths"]):
                new = Column(c.label, c.type, c.descr, overall=c.overall, width=w, prec=p)
                new.extend(c)
                t[c.label] = new
        if args["summarize"]:
            t.summarize()
        path = os.path.join(args["dir"], "t%d" % n).encode("ascii")
        kw = {} if args["legenda"] is None else {"legenda": args["legenda"]}
        f = open(path, "wb")
        t.write(out=f, **kw)
        f.close()
        text = open(path).read()
        buf = cStringIO.StringIO()
        t.write_legenda(out=buf)
        if args["by"] == "name":
            sums.read(path)
        else:
            f = open(path)
            sums.read(f)
            f.close()
        if args["often"]:
            sums.summarize()
        out["written"].append([start, dump(t), text, buf.getvalue()])
        texts.append(text)
    out["read"] = dump(sums)
    sums.summarize()
    out["summarized"] = dump(sums)
    if args.get("cut") is not None and texts:
        # an incomplete table
        cut = texts[0].split("\n")[:args["cut"]]
        path = os.path.join(args["dir"], "cut").encode("ascii")
        f = open(path, "wb")
        f.write("\n".join(cut))
        f.close()
        try:
            cls().read(path)
            out["cut"] = "ok"
        except Exception as e:
            out["cut"] = type(e).__name__
    return out


def _failed(self):
    # no importable format knows failed parses
    return self.graph.get("failed") == "1"


def _empty(self, n):
    # nor nodes without tokens
    return self.node[n].get("empty") == "1"


def _with_failed(fn, *args, **kw):
    stand_ins = {"is_failed_parse": _failed, "node_is_empty": _empty}
    old = dict((n, DaesoGraph.__dict__[n]) for n in stand_ins if n in DaesoGraph.__dict__)
    for n, f in stand_ins.items():
        setattr(DaesoGraph, n, f)
    try:
        return fn(*args, **kw)
    finally:
        for n in stand_ins:
            if n in old:
                setattr(DaesoGraph, n, old[n])
            else:
                delattr(DaesoGraph, n)


def corpora(args):
    os.chdir(args["dir"].encode("ascii"))
    kw = dict((str(k), v) for k, v in args["kw"].items())
    return [dump(t) for t in _with_failed(pgc_stats, s(args["files"]), **kw)]


def banks(args):
    kw = dict((str(k), v) for k, v in args["kw"].items())
    return dump(_with_failed(gb_stats, s(args["files"]), "graphml", **kw))


def tools(args):
    """command line tools, with the same stand-ins"""
    from tools import run
    return _with_failed(run, args)


def segments(args):
    """statistics over a directory tree: the tables in the files written"""
    from daeso.stats.corpus import corpus_seg_stats
    cwd = args["cwd"].encode("ascii")
    os.chdir(cwd)
    kw = dict((str(k), s(v)) for k, v in args["kw"].items())
    error = None
    try:
        _with_failed(corpus_seg_stats, s(args["targets"]), s(args["seg_dir"]), **kw)
    except Exception, e:
        error = repr(e)
    out = {"error": error, "cwd": os.path.realpath(os.getcwd()) == os.path.realpath(cwd), "tables": {},
           "texts": {}}
    for fn in sorted(os.listdir(cwd)):
        if fn.startswith("stats.") and not error:
            t = (PgcStatsTable if fn.endswith(".pgc") else GbStatsTable)()
            out["texts"][fn] = open(fn).read()
            t.read(fn)
            out["tables"][fn] = dump(t)
    return out
