# -*- coding: utf-8 -*-
import copy
import cStringIO
import os
import warnings
import xml.etree.cElementTree as et

from base import s
from daeso.exception import DaesoError, DaesoWarning
from daeso.gb.graphbank import GraphBank, SparseGraphBank
from daeso.gb.graphstub import GraphStub
from daeso.graph.daesograph import DaesoGraph
from daeso.pair import Pair
from daeso.pgc.corpus import (LOAD_ALL, LOAD_NONE, LOAD_SPARSE, PGCParser,
                              ParallelGraphCorpus)
from daeso.pgc.graphpair import GraphPair
from graphs import dump as dump_graph

MODES = {"all": LOAD_ALL, "sparse": LOAD_SPARSE, "none": LOAD_NONE}


def elem(xml):
    return None if xml is None else et.fromstring(xml.encode("utf-8"))


def text(e):
    return None if e is None else et.tostring(e)


def build(spec, base):
    banks, graphs = [], {}
    for b in s(spec["banks"]):
        cls = {"full": GraphBank, "sparse": SparseGraphBank}[b["cls"]]
        banks.append(cls(os.path.join(base, b["path"]), b.get("format", "graphml")))
    pairs = []
    for p in s(spec["pairs"]):
        gs = []
        for bank, gid in ((p["src"], p["sg"]), (p["trg"], p["tg"])):
            bank %= len(banks)
            if (bank, gid) not in graphs:
                graphs[bank, gid] = DaesoGraph(gid)
            gs.append(graphs[bank, gid])
        gp = GraphPair(Pair(banks[p["src"] % len(banks)], banks[p["trg"] % len(banks)]),
                       Pair(*gs))
        if p["meta"] is not None:
            gp.set_meta_data(elem(p["meta"]))
        for a, b, r in p["al"]:
            gp.add_align(Pair(a, b), r)
        pairs.append(gp)
    return ParallelGraphCorpus(pairs, s(spec["relations"])[:], elem(spec["meta"]))


def dump(c):
    return {"relations": list(c.get_relations()), "meta": text(c.get_meta_data()),
            "annotator": c.get_annotator(),
            "pairs": [{"banks": [b.get_file_path() for b in gp.get_banks()],
                       "formats": [b.get_format() for b in gp.get_banks()],
                       "graphs": [g.id for g in gp.get_graphs()],
                       "al": sorted([[n.source, n.target, r] for n, r in gp.alignments()]),
                       "meta": text(gp.get_meta_data())} for gp in c]}


def put(c, base, how, name, **kw):
    path = os.path.join(base, name)
    if how == "path":
        c.write(path, **kw)
    elif how == "rel":
        os.chdir(os.path.dirname(path))
        c.write(os.path.basename(path), **kw)
    elif how == "file":
        f = open(path, "wb")
        c.write(f, **kw)
        f.close()
    elif how == "buffer":
        os.chdir(os.path.dirname(path))
        buf = cStringIO.StringIO()
        c.write(buf, **kw)
        f = open(path, "wb")
        f.write(buf.getvalue())
        f.close()


def get(base, how, name, mode, **kw):
    path = os.path.join(base, name)
    if how == "path":
        return ParallelGraphCorpus(inf=path, graph_loading=mode)
    c = ParallelGraphCorpus()
    if how == "rel":
        os.chdir(os.path.dirname(path))
        c.read(os.path.basename(path), mode, **kw)
    elif how == "file":
        f = open(path, "rb")
        c.read(f, graph_loading=mode, **kw)
        f.close()
    elif how == "buffer":
        os.chdir(os.path.dirname(path))
        f = open(path, "rb")
        data = f.read()
        f.close()
        c.read(cStringIO.StringIO(data), mode, **kw)
    return c


def content(base, name):
    f = open(os.path.join(base, name), "rb")
    try:
        return f.read().decode("utf-8")
    finally:
        f.close()


def roundtrip(args):
    base = args["dir"].encode("ascii")
    c = build(args["corpus"], base)
    for a, append in s(args["annot"]):
        c.set_annotator(a, append)
    res = {"before": dump(c)}
    kw = dict(abs_path=args["abs"], pprint=args["pprint"])
    first, second = s(args["names"])
    put(c, base, args["how"], first, **kw)
    res["after"] = dump(c)
    res["text"] = content(base, first)
    res["read"] = []
    for mode in ("none", "sparse", "all"):
        d = get(base, args["how2"], first, MODES[mode])
        res["read"].append([mode, dump(d), bool(c == d), bool(d == c), bool(c != d)])
    e = copy.deepcopy(d)
    put(e, base, args["how2"], second, **kw)
    f = get(base, args["how"], second, LOAD_NONE)
    res["again"] = [dump(f), bool(f == c), bool(f == d)]
    put(f, base, args["how"], first, **kw)
    res["text2"] = content(base, first)
    return res


def library(args):
    """a history over several corpora"""
    base = args["dir"].encode("ascii")
    pool, trace = [], []
    for op in s(args["ops"]):
        kind, res = op[0], None
        c = pool[op[1] % len(pool)] if pool and kind not in ("build", "read") else None
        if kind == "build":
            pool.append(build(op[1], base))
        elif kind == "write":
            put(c, base, op[3], op[2], abs_path=op[4])
            res = content(base, op[2])
        elif kind == "read":
            if os.path.exists(os.path.join(base, op[1])):
                pool.append(get(base, "path", op[1], MODES[op[2]]))
                res = True
        elif kind == "add":
            pool.append(c + pool[op[2] % len(pool)])
        elif kind == "extend":
            c.extend(list(pool[op[2] % len(pool)]))
        elif kind == "slice":
            pool.append(c[op[2]:op[3]])
        elif kind == "copy":
            pool.append(copy.deepcopy(c))
        elif kind == "purge":
            c.purge()
        trace.append(res)
    return {"trace": trace, "dumps": [dump(c) for c in pool]}


def loading(args):
    """read a corpus file in some mode; describe the outcome"""
    base = args["dir"].encode("ascii")
    mode = args["mode"]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            if args["how"] == "parser":
                c = PGCParser().parse(os.path.join(base, s(args["name"])),
                                      graph_loading=MODES[mode],
                                      relax_gb_paths=args["relax"])
            else:
                c = get(base, args["how"], s(args["name"]), MODES[mode],
                        **({} if args["how"] == "path" else
                           {"relax_gb_paths": args["relax"]}))
        except DaesoError as e:
            return {"error": unicode(e),
                    "warned": len([w for w in caught if w.category is DaesoWarning])}
    objs, banks = [], []
    pairs = []
    for gp in c:
        row = []
        for b, g in zip(gp.get_banks(), gp.get_graphs()):
            if not [x for x in banks if x is b]:
                banks.append(b)
            if not [x for x in objs if x is g]:
                objs.append(g)
            row.append([[x is b for x in banks].index(True),
                        [x is g for x in objs].index(True)])
        pairs.append(row)
    return {"corpus": dump(c), "index": pairs,
            "warned": len([w for w in caught if w.category is DaesoWarning]),
            "banks": [[b.get_file_path(), type(b).__name__, len(b),
                       sorted([g.id for g in b])] for b in banks],
            "graphs": [dump_graph(g) if isinstance(g, DaesoGraph) else
                       {"stub": isinstance(g, GraphStub), "id": g.id} for g in objs],
            "lookup": [all([gp.get_source_bank().get_graph(gp.get_source_graph().id)
                            is gp.get_source_graph(),
                            gp.get_target_bank().get_graph(gp.get_target_graph().id)
                            is gp.get_target_graph()]) for gp in c]}


def released(args):
    """which graphbanks and graphs of a corpus are still there after removing pairs"""
    import weakref
    from java.lang import System
    base = args["dir"].encode("ascii")
    c = get(base, "path", s(args["name"]), MODES[args["mode"]])
    banks, graphs = [], []

    def refs():
        for gp in c:
            row = []
            for x, known in zip(list(gp.get_banks()) + list(gp.get_graphs()),
                                [banks] * 2 + [graphs] * 2):
                for i, r in enumerate(known):
                    if r() is x:
                        break
                else:
                    i = len(known)
                    known.append(weakref.ref(x))
                row.append(i)
            yield row
    index = list(refs())

    def remove():
        for i in sorted(args["remove"], reverse=True):
            if args["how"] == "del":
                del c[i]
            else:
                c.pop(i)
    remove()
    kept = [i for i in range(len(index)) if i not in args["remove"]]
    for _ in range(40):
        alive = [[i for i, r in enumerate(known) if r() is not None]
                 for known in (banks, graphs)]
        if not [i for n in (0, 1) for i in alive[n]
                if i not in [row[k] for j in kept for row in [index[j]]
                             for k in (2 * n, 2 * n + 1)]]:
            break
        System.gc()
    return {"index": index, "alive": alive,
            "ids": [sorted([g.id for g in b]) for gp in c for b in gp.get_banks()],
            "len": len(c)}
