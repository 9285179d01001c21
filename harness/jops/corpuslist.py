# -*- coding: utf-8 -*-
"""the corpus as a mutable sequence"""
import copy
import os
import operator
import xml.etree.cElementTree as et

from base import s
from daeso.gb.graphbank import GraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.graphpair import GraphPair


def build_pool(specs):
    pool = []
    for k in specs:
        # the same key gives equal but distinct graph pairs and banks
        gp = GraphPair(Pair(GraphBank("/nowhere/b%d.xml" % (k % 2), "graphml"),
                            GraphBank("/nowhere/c%d.xml" % (k % 3), "graphml")),
                       Pair(DaesoGraph(id="s%d" % k), DaesoGraph(id="t%d" % k)))
        gp.add_align(Pair("n%d" % k, "m"), "equals")
        gp.key = k
        pool.append(gp)
    return pool


def history(args):
    pool = build_pool(args["pool"])
    names = {}
    for i, gp in enumerate(pool):
        names[id(gp)] = i
    metas = []
    corpora = []
    for c in args["corpora"]:
        meta = None
        if c["meta"] is not None:
            meta = et.fromstring("<corpus_meta_data><x>%d</x></corpus_meta_data>" % c["meta"])
            if not c["meta"]:
                # meta data without contents
                meta = et.Element("corpus_meta_data")
            metas.append((meta, c["meta"]))
        corpora.append(ParallelGraphCorpus([pool[i] for i in c["pairs"]],
                                           relations=s(c["relations"]), meta_data=meta))
    copies = []

    def name(gp):
        return names.get(id(gp))

    def register(corpus):
        # deep copies make new graph pairs
        for gp in corpus:
            if id(gp) not in names:
                names[id(gp)] = len(pool)
                pool.append(gp)
                gp.key = None
        return corpus

    def view(c):
        m = c.get_meta_data()
        return {"type": type(c).__name__, "items": [name(g) for g in c],
                "len": len(c), "rel": c.get_relations(),
                "meta": None if m is None else m.findtext("x", "0")}

    def sl(x):
        return slice(x[0], x[1], x[2])

    def step(op):
        kind, n = op[0], op[1] % len(corpora)
        c = corpora[n]
        a = op[2:]
        if kind == "append":
            return c.append(pool[a[0]])
        if kind == "append_bad":
            return c.append(["no", "graph", "pair"])
        if kind == "insert":
            return c.insert(a[0], pool[a[1]])
        if kind == "insert_bad":
            return c.insert(a[0], "nothing")
        if kind == "extend":
            return c.extend([pool[i] for i in a[0]])
        if kind == "extend_corpus":
            return c.extend(corpora[a[0] % len(corpora)])
        if kind == "pop":
            return name(c.pop(*a))
        if kind == "remove":
            return c.remove(pool[a[0]])
        if kind == "index":
            return c.index(pool[a[0]], *a[1:])
        if kind == "count":
            return c.count(pool[a[0]])
        if kind == "contains":
            return pool[a[0]] in c
        if kind == "getitem":
            return name(c[a[0]])
        if kind == "delitem":
            del c[a[0]]
            return None
        if kind == "setitem":
            c[a[0]] = pool[a[1]]
            return None
        if kind == "setitem_bad":
            c[a[0]] = 42
            return None
        if kind == "getslice":
            # simple slices go through another protocol than extended ones
            return view(c[a[0]:a[1]])
        if kind == "delslice":
            del c[a[0]:a[1]]
            return None
        if kind == "setslice":
            c[a[0]:a[1]] = corpora[a[2] % len(corpora)]
            return None
        if kind == "setslice_list":
            c[a[0]:a[1]] = [pool[a[2]]]
            return None
        if kind == "getext":
            return view(c[sl(a[0])])
        if kind == "delext":
            del c[sl(a[0])]
            return None
        if kind == "setext":
            c[sl(a[0])] = corpora[a[1] % len(corpora)]
            return None
        if kind == "add":
            return view(c + corpora[a[0] % len(corpora)])
        if kind == "add_list":
            return view(c + [pool[a[0]]])
        if kind == "iadd":
            d = c
            d += corpora[a[0] % len(corpora)]
            return d is c
        if kind == "mul":
            return [view(c * a[0]), view(a[0] * c)]
        if kind == "imul":
            d = c
            d *= a[0]
            return d is c
        if kind == "reverse":
            return c.reverse()
        if kind == "reversed":
            return [name(g) for g in reversed(c)]
        if kind == "sort":
            return c.sort(key=lambda g: g.get_source_graph().id, reverse=a[0])
        if kind == "sort_cmp":
            return c.sort(lambda x, y: cmp(y.get_source_graph().id, x.get_source_graph().id))
        if kind == "clear":
            return c.clear()
        if kind == "eq":
            d = corpora[a[0] % len(corpora)]
            return [bool(c == d), bool(c != d)]
        if kind == "eq_other":
            gp = pool[0]
            x = [None, list(c), "x", gp][a[0]]
            pairs = [(c, x), (gp, c)] + ([(gp, x)] if x is not gp else [])
            return [[bool(p == q), bool(p != q)] for p, q in pairs]
        if kind == "new":
            if len(corpora) < 4:
                corpora.append(c[a[0]:a[1]])
            return None
        if kind == "deepcopy":
            if len(corpora) < 4:
                corpora.append(register(copy.deepcopy(c)))
            return None
        if kind == "purge":
            c.purge()
            banks = []
            for g in c:
                banks.extend([g.get_source_bank(), g.get_target_bank()])
            paths = set([b.get_file_path() for b in banks])
            return [len(set([id(b) for b in banks])), len(paths)]
        raise ValueError(kind)

    trace = []
    for op in s(args["ops"]):
        try:
            res = ["ok", step(op)]
        except (TypeError, ValueError, IndexError) as e:
            res = ["exc", type(e).__name__]
        trace.append([res, [view(c) for c in corpora]])
    final = []
    for gp in pool:
        final.append([gp.get_source_graph().id, gp.get_target_graph().id,
                      gp.get_source_bank().get_file_path(),
                      gp.get_target_bank().get_file_path(),
                      [[p.source, p.target, r] for p, r in gp.alignments()]])
    return {"trace": trace, "pool": final}


def independent(args):
    """changes to a deep copy do not show in the original"""
    pool = build_pool(args["pool"])
    meta = et.fromstring("<corpus_meta_data><x>1</x></corpus_meta_data>")
    c = ParallelGraphCorpus(pool, relations=["equals", "restates"], meta_data=meta)
    d = copy.deepcopy(c)
    before = [bool(c == d), bool(c != d)]
    shared = all([g.get_source_graph() is h.get_source_graph() and
                  g.get_target_graph() is h.get_target_graph()
                  for g, h in zip(c, d)])
    i = args["i"] % len(pool)
    if args["what"] == "align":
        d[i].add_align(Pair("new", "new"), "restates")
    elif args["what"] == "unalign":
        d[i].del_align(Pair("n%d" % args["pool"][i], "m"))
    elif args["what"] == "meta":
        d.get_meta_data().find("x").text = "2"
    elif args["what"] == "relations":
        d.get_relations().append("zz")
    elif args["what"] == "pop":
        d.pop(i)
    elif args["what"] == "pair_meta":
        et.SubElement(d[i].get_meta_data(), "note").text = "x"
    return {"before": before, "after": [bool(c == d), bool(c != d)],
            "c": [[[p.source, p.target, r] for p, r in g.alignments()] for g in c],
            "rel": c.get_relations(), "meta": c.get_meta_data().find("x").text,
            "pair_meta": [len(g.get_meta_data()) for g in c],
            "graphs": shared}


def annotators(args):
    c = ParallelGraphCorpus(meta_data=et.Element("corpus_meta_data"))
    res = [c.get_annotator()]
    for name, append in s(args["ops"]):
        c.set_annotator(name, append=append)
        res.append(c.get_annotator())
    res.append(len(c.get_meta_data().findall("annotator")))
    return res


def purge(args):
    """purge a corpus or one of its pairs; which bank object is where"""
    base = args["dir"].encode("ascii")
    banks = [GraphBank(os.path.join(base, p), "graphml") for p in s(args["banks"])]
    pairs = []
    for i, (src, tgt, aligned) in enumerate(args["pairs"]):
        gp = GraphPair(Pair(banks[src], banks[tgt]),
                       Pair(DaesoGraph(id="s%d" % i), DaesoGraph(id="t%d" % i)))
        if aligned:
            gp.add_align(Pair("n", "m"), "equals")
        pairs.append(gp)
    corpus = ParallelGraphCorpus([pairs[i] for i in args["corpus"]], relations=["equals"])
    trace = []
    for i in args["ops"]:
        if i is None:
            res = corpus.purge()
        else:
            res = corpus.purge(graph_pair=pairs[i])
        trace.append([res, [[[x is b for x in banks].index(True) for b in gp.get_banks()]
                            for gp in pairs],
                      [[gp.get_source_graph().id, gp.get_target_graph().id, len(gp.alignments())]
                       for gp in pairs]])
    return trace


def relations(args):
    """lists of relations given to corpora, and taken over by others"""
    given = [s(r) for r in args["given"]]
    corpora, out = [], []
    for op in s(args["ops"]):
        name, a = op[0], op[1:]
        if name == "new":
            corpora.append(ParallelGraphCorpus(relations=given[a[0] % len(given)]))
        elif corpora:
            c = corpora[a[0] % len(corpora)]
            if name == "give":
                c.set_relations(given[a[1] % len(given)])
            elif name == "append":
                c.get_relations().append(a[1])
            elif name == "slice":
                corpora.append(c[:])
            elif name == "add":
                corpora.append(c + c)
            elif name == "mul":
                corpora.append(c * 2)
            elif name == "deepcopy":
                corpora.append(copy.deepcopy(c))
        out.append([[c.get_relations()[:] for c in corpora], [g[:] for g in given]])
    return out
