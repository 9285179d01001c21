# -*- coding: utf-8 -*-
"""evaluation, agreement and difference reports"""
import cStringIO
import os
import pickle
import sys

from base import s, printed
from daeso.pair import Pair
from daeso.gb.graphbank import GraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.evaluate import AlignCounts, AlignEval
from daeso.pgc.graphpair import GraphPair
import daeso.pgc.agreement as agreement

BIN = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "bin")


def script(name, args):
    """run a command line script in this process: exit status"""
    argv, path, stdin = sys.argv, sys.path[:], sys.stdin
    fn = os.path.join(BIN, name)
    sys.argv = [fn] + [a.encode("utf-8") for a in args]
    sys.path.insert(0, BIN)
    # the builtin exit() closes it
    sys.stdin = cStringIO.StringIO("")
    try:
        execfile(fn, {"__name__": "__main__", "__file__": fn})
        return 0
    except SystemExit as e:
        return e.code or 0
    finally:
        sys.argv, sys.path, sys.stdin = argv, path, stdin


def corpus(pairs):
    bank = GraphBank("/nonexistent/bank.xml", "graphml")
    c = ParallelGraphCorpus()
    for i, al in enumerate(pairs):
        gp = GraphPair(Pair(bank, bank), Pair(DaesoGraph("s%d" % i), DaesoGraph("t%d" % i)))
        for a, b, r in al:
            gp.add_align(Pair(a, b), r)
        c.append(gp)
    return c


def counts(t):
    return [[c.counts[k] for k in AlignCounts.count_keys] +
            [c.measures[k] for k in AlignCounts.measure_keys] for c in t]


def table(t):
    return {"rows": counts(t),
            "counts": [[t.count_stats[k][x] for k in AlignCounts.count_keys]
                       for x in ("sum", "mean", "var", "sd")],
            "measures": [[t.measure_stats[k][m][x] for k in AlignCounts.measure_keys]
                         for m in ("macro", "micro") for x in ("mean", "var", "sd")]}


def summary(e):
    return {"tables": dict((r, table(t)) for r, t in e.items()), "names": list(e.names),
            "sums": [e.count_stats[k]["sum"] for k in AlignCounts.count_keys],
            "overall": [[e.measure_stats[k][m]["mean"] for k in AlignCounts.measure_keys]
                        for m in ("macro", "micro")]}


def evaluate(args):
    args = s(args)
    e = AlignEval(tuple(args["relations"])) if args["relations"] else AlignEval()
    res = []
    for i, r in enumerate(args["rounds"]):
        t, p = corpus(r["true"]), corpus(r["pred"])
        before = [dump_al(t), dump_al(p)]
        e.add(t, p, *([r["name"]] if r["name"] is not None else []))
        if [dump_al(t), dump_al(p)] != before:
            res.append("corpus changed")
        if r["run"] or i + 1 == len(args["rounds"]):
            e.run_eval()
            res.append([i + 1, summary(e)])
    out = {"results": res, "any": AlignEval.any_rel}
    if args["how"] == "file":
        fn = os.path.join(args["dir"], "report.txt")
        e.write(fn)
        f = open(fn)
        out["report"] = f.read()
        f.close()
    else:
        e.write()
        out["report"] = printed()
    buf = cStringIO.StringIO()
    for rel in (AlignEval.any_rel,) + tuple(e.relations):
        e[rel].write(e.names, out=buf, percent=False, heading=rel)
    e.write_alignment_overall(buf, percent=False)
    out["fractions"] = buf.getvalue()
    return out


def counts_scores(args):
    c = AlignCounts()
    c.counts.update(zip(("true", "pred", "common"), args["counts"]))
    c.run_eval(args["beta"])
    return [c.measures[k] for k in ("prec", "rec", "f")]


def dump_al(c):
    return [sorted([n.source, n.target, r] for n, r in gp.alignments()) for gp in c]


def agreement_tables(tables):
    return dict((rel, dict((m, {"labels": t.labels,
                                "cells": dict((a, dict(t[a])) for a in t)})
                           for m, t in ms.items())) for rel, ms in tables.items())


def pickled(fn):
    f = open(fn, "rb")
    try:
        return pickle.load(f)
    finally:
        f.close()


def agree(args):
    args = s(args)
    base = args["dir"]
    fns = [os.path.join(base, f) for f in args["files"]]
    pick = os.path.join(base, "out.pickle")
    kw = {"words_only": True} if args["words"] else {}
    if args["how"] == "cross":
        e = agreement.cross_evaluate(fns, args["names"], pick, **kw)
        again = pickled(pick)
        t = agreement.tableize(e, pick)
        tables = pickled(pick)
    elif args["how"] == "run":
        e, t = agreement.run_eval(fns, args["names"], pick, **kw)
        again, tables = pickled(pick)
    else:
        argv = fns[:]
        for n in args["names"] or []:
            argv += ["-a", n]
        argv += ["-p", pick]
        if args["words"]:
            argv.append("-w")
        status = script("pgc_agreement.py", argv)
        if status:
            return {"status": status}
        e, t = again, tables = pickled(pick)
    report = printed()
    buf = cStringIO.StringIO()
    for rel, ms in t.items():
        buf.write("Agreement on relation %s\n" % rel)
        for m, x in ms.items():
            x.write(out=buf, header=m)
    return {"fractions": buf.getvalue(), "eval": [summary(e), summary(again)],
            "tables": [agreement_tables(t), agreement_tables(tables)],
            "report": report}


def diff(args):
    from daeso.pgc.diff import pgc_diff
    base = args["dir"].encode("ascii")
    a = args["opts"]
    fns = [os.path.join(base, f.encode("ascii")) for f in args["files"]]
    if args["how"] == "script":
        argv = fns[:]
        for opt, val in (("-1", a["annot"] and a["annot"][0]), ("-2", a["annot"] and a["annot"][1])):
            if val:
                argv += [opt, val]
        for opt, on in (("-c", a["comments"]), ("-e", a["evaluate"]), ("-i", a["ident"])):
            if on:
                argv.append(opt)
        if a["relations"]:
            argv += ["-r"] + a["relations"]
        return {"status": script("pgc_diff.py", argv), "report": printed()}
    c1, c2 = [ParallelGraphCorpus(inf=f) for f in fns]
    before = [dump_al(c1), dump_al(c2)]
    kw = {"words_only": a["words"], "show_comments": a["comments"], "show_ident": a["ident"]}
    if a["relations"]:
        kw["relations"] = s(a["relations"])
    if a["annot"]:
        kw["annot1"], kw["annot2"] = s(a["annot"])
    if args["how"] == "file":
        fn = os.path.join(base, "out.txt")
        f = open(fn, "w")
        pgc_diff(c1, c2, fns[0], fns[1], out=f, **kw)
        f.close()
        f = open(fn)
        text = f.read().decode("utf-8")
        f.close()
        quiet = printed()
    else:
        pgc_diff(c1, c2, fns[0], fns[1], **kw)
        text, quiet = printed(), ""
    return {"status": 0, "report": text, "stray": quiet,
            "same": [dump_al(c1), dump_al(c2)] == before}
