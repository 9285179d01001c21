# -*- coding: utf-8 -*-
from base import s, dec, enc
from daeso.string.median import set_median_string
from daeso.string.needleman_wunsch import needleman_wunsch
from daeso.string.smith_waterman import smith_waterman
from daeso.string.waterman_eggert import waterman_eggert


def _lev(a, b):
    prev = range(len(b) + 1)
    for i in range(1, len(a) + 1):
        cur = [i]
        for j in range(1, len(b) + 1):
            cur.append(min(prev[j] + 1, cur[j - 1] + 1,
                           prev[j - 1] + (a[i - 1] != b[j - 1])))
        prev = cur
    return prev[-1]


DIST = {"lev": _lev, "half": lambda a, b: _lev(a, b) / 2.0,
        "len": lambda a, b: abs(len(a) - len(b)),
        "ham": lambda a, b: sum([x != y for x, y in zip(a, b)]) + abs(len(a) - len(b))}


def median(args):
    return set_median_string(s(args["strings"]), DIST[args["dist"]])


def align(args):
    """run an alignment algorithm with scores given as tables"""
    seq1, seq2 = dec(args["seq1"]), dec(args["seq2"])
    sim = dict(((s(a), s(b)), v) for a, b, v in args["sim"])
    gap = dict((s(a), v) for a, v in args["gap"])
    fn = {"nw": needleman_wunsch, "sw": smith_waterman,
          "we": waterman_eggert}[args["algo"]]
    kw = {}
    if args.get("limit") is not None:
        kw["limit"] = args["limit"]

    def sim_score(a, b):
        return sim[a, b]

    def gap_cost(a):
        return gap[a]

    first, alignment = fn(seq1, seq2, sim_score, gap_cost, **kw)
    if args["algo"] == "we":
        return [[_scores(t) for t in first], [[list(p) for p in a] for a in alignment]]
    return [_scores(first), [list(p) for p in alignment]]


def _scores(table):
    return sorted([[i, j, v[0]] for (i, j), v in table.items()])
