# -*- coding: utf-8 -*-
"""printed forms of scores, alignments, matrices and graph pairs"""
import cStringIO
import os
import sys

from base import s
from daeso.gb.graphbank import GraphBank
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.graphpair import GraphPair
from daeso.string import needleman_wunsch as nw, waterman_eggert as we
from daeso.thirdparty import munkres


def printed(fn, *args, **kw):
    old = sys.stdout
    sys.stdout = cStringIO.StringIO()
    try:
        fn(*args, **kw)
        return sys.stdout.getvalue()
    finally:
        sys.stdout = old


def tables(args):
    a, b = s(args["seq1"]), s(args["seq2"])
    scores = dict([((i, j), (v, c)) for i, j, v, c in s(args["scores"])])
    pairs = [tuple(p) for p in args["pairs"]]
    f = cStringIO.StringIO()
    if args["plain"]:
        nw.print_scores(a, b, scores, stdout=f)
        nw.print_alignment(a, b, pairs, stdout=f)
    else:
        nw.print_scores(a, b, scores, stdout=f, header="S!\n", trailer="end\n")
        nw.print_alignment(a, b, pairs, stdout=f, header="A!\n", trailer="end\n")
    return f.getvalue()


def matrix(args):
    return printed(munkres.print_matrix, args["matrix"], *args["msg"])


def pair(args):
    """alignments of a graph pair read from files"""
    os.chdir(args["cwd"].encode("ascii"))
    bank = GraphBank("bank.xml", "graphml")
    bank.load()
    ids = args["ids"]
    gp = GraphPair(Pair(bank, bank), Pair(bank.get_graph(ids[0]), bank.get_graph(ids[1])))
    for a, b, r in s(args["align"]):
        gp.add_align(Pair(a, b), r)
    c = ParallelGraphCorpus([gp], relations=["equals"])
    text = str(c)
    f = cStringIO.StringIO()
    c.write(f, pprint=True)
    return [printed(gp.dump_alignments), text == f.getvalue(), text.decode("utf-8")]
