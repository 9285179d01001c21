# -*- coding: utf-8 -*-
import copy
import xml.etree.cElementTree as et

from base import s
from daeso.gb.graphbank import GraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.pair import Pair
from daeso.pgc import graphpair as gpmod


def make(cls, roots=(None, None), meta=None, ids=("g1", "g2"),
         banks=("/b1.xml", "/b2.xml")):
    graphs = []
    for gid, root in zip(ids, roots):
        g = DaesoGraph(id=s(gid))
        g.root = s(root)
        graphs.append(g)
    kw = {}
    if meta is not None:
        kw["meta_data"] = et.fromstring(meta.encode("utf-8"))
    return getattr(gpmod, cls)(
        Pair(GraphBank(s(banks[0]), "graphml"), GraphBank(s(banks[1]), "graphml")),
        Pair(*graphs), **kw)


def observe(gp, nodes, full=True):
    al = sorted([[p.source, p.target, r] for p, r in gp.alignments()])
    o = {"al": al, "len": len(gp),
         "iter": sorted([[p.source, p.target, r] for p, r in gp.alignments_iter()]),
         "nodes": sorted([n for n in nodes if n in gp])}
    if full:
        o["get"] = [[a, b, gp.get_align(Pair(a, b))] for a in nodes for b in nodes]
        if hasattr(gp, "get_aligned_source_node"):
            o["src"] = [[n, gp.get_aligned_source_node(n)] for n in nodes]
            o["trg"] = [[n, gp.get_aligned_target_node(n)] for n in nodes]
        o["roots"] = bool(gp.roots_aligned())
    return o


def history(args):
    """run operations on graph pair 0; 'copy' makes further ones"""
    nodes = s(args["nodes"])
    pairs = [make(args["cls"], args["roots"], args.get("meta"))]
    trace = []
    for op in s(args["ops"]):
        gp = pairs[op[1] % len(pairs)]
        kind = op[0]
        res = None
        try:
            if kind == "add":
                gp.add_align(Pair(op[2], op[3]), op[4])
            elif kind == "del":
                gp.del_align(Pair(op[2], op[3]))
            elif kind == "filter":
                res = [sorted([[p.source, p.target, r]
                               for p, r in gp.alignments(relations=op[2])]),
                       sorted([[p.source, p.target, r]
                               for p, r in gp.alignments_iter(relations=op[2])])]
            elif kind == "copy":
                if len(pairs) < 3:
                    pairs.append(copy.deepcopy(gp))
            elif kind == "eq":
                other = pairs[op[2] % len(pairs)]
                res = [bool(gp == other), bool(gp != other)]
        except Exception as e:
            res = "exc:" + type(e).__name__
        trace.append([res, [observe(p, nodes) for p in pairs]])
    return trace


def eq_pairs(args):
    """two graph pairs built independently: equality both ways, then after a
    deep copy"""
    built = []
    for d in args["pairs"]:
        gp = make(args["cls"], meta=d["meta"], ids=d["ids"], banks=d["banks"])
        for a, b, r in s(d["al"]):
            gp.add_align(Pair(a, b), r)
        built.append(gp)
    a, b = built
    c = copy.deepcopy(a)
    return {"ab": bool(a == b), "ba": bool(b == a), "nab": bool(a != b),
            "ac": bool(a == c), "nac": bool(a != c), "cls": type(c).__name__,
            "meta": et.tostring(c.get_meta_data()),
            "meta0": et.tostring(a.get_meta_data()),
            "own_meta": c.get_meta_data() is not a.get_meta_data(),
            "shared": c.get_graphs() is a.get_graphs() or
            (c.get_source_graph() is a.get_source_graph() and
             c.get_target_graph() is a.get_target_graph()),
            "shared_banks": c.get_source_bank() is a.get_source_bank() and
            c.get_target_bank() is a.get_target_bank()}


def pair_ops(args):
    vals = s(args["vals"])
    p, q = Pair(vals[0], vals[1]), Pair(vals[2], vals[3])
    r = Pair(q.source, q.target)
    r.set(vals[4], vals[5])
    half = Pair(vals[0])
    return {"eq": bool(p == q), "ne": bool(p != q), "list": list(p),
            "twice": [list(p), list(p)], "attrs": [p.source, p.target],
            "set": list(r), "unpack": list(Pair(*p)), "half": list(half),
            "repr": repr(p), "str": str(Pair("x", "y")),
            "repr_back": bool(eval(repr(p), {"Pair": Pair}) == p),
            "other": [bool(p == 1), bool(p == tuple(vals[:2]))]}
