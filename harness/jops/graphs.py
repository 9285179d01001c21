# -*- coding: utf-8 -*-
import copy
import os

from base import s
from daeso.exception import DaesoError
from daeso.gb.graphbank import GraphBank, SparseGraphBank
from daeso.gb.graphml import GraphmlParser
from daeso.graph.daesograph import DaesoGraph
from daeso.graph.ograph import ODiGraph


def obs(g):
    return {"nodes": sorted([[n, sorted(g.node[n].items())] for n in g.nodes()]),
            "order": [[u, v] for u, v in g.edges()],
            "data": [[u, v, sorted(d.items())] for u, v, d in g.edges(data=True)],
            "succ": sorted([[n, list(g.successors(n))] for n in g]),
            "pred": sorted([[n, list(g.predecessors(n))] for n in g]),
            "predattr": sorted([[v, [[u, sorted(d.items())] for u, d in g.pred[v].items()]]
                                for v in g]),
            "deg": sorted([[n, g.in_degree(n), g.out_degree(n)] for n in g]),
            "size": [len(g), g.number_of_nodes(), g.number_of_edges()]}


def tuples(edges):
    return [tuple(e) for e in edges]


def ordered(args):
    """history on ODiGraph objects; the attribute dicts in args['pool'] are
    handed in again and again"""
    pool = [dict(d) for d in s(args["pool"])]
    graphs = [ODiGraph()]
    trace = []
    for op in s(args["ops"]):
        kind, g = op[0], graphs[-1]
        res = None
        try:
            if kind == "node":
                g.add_node(op[1], **op[2])
            elif kind == "noded":
                g.add_node(op[1], pool[op[2]])
            elif kind == "nodekw":
                g.add_node(op[1], pool[op[2]], **op[3])
            elif kind == "nodes":
                g.add_nodes_from(op[1], **op[2])
            elif kind == "edge":
                g.add_edge(op[1], op[2], **op[3])
            elif kind == "edged":
                g.add_edge(op[1], op[2], pool[op[3]])
            elif kind == "edgekw":
                g.add_edge(op[1], op[2], pool[op[3]], **op[4])
            elif kind == "edges":
                g.add_edges_from(tuples(op[1]), **op[2])
            elif kind == "edgesd":
                g.add_edges_from(tuples(op[1]), pool[op[2]], **op[3])
            elif kind == "path":
                g.add_path(op[1])
            elif kind == "rmnode":
                g.remove_node(op[1])
            elif kind == "rmnodes":
                g.remove_nodes_from(op[1])
            elif kind == "rmedge":
                g.remove_edge(op[1], op[2])
            elif kind == "rmedges":
                g.remove_edges_from(tuples(op[1]))
            elif kind == "setnode":
                g.node[op[1]][op[2]] = op[3]
            elif kind == "setedge":
                g[op[1]][op[2]][op[3]] = op[4]
            elif kind == "clear":
                g.clear()
            elif kind == "copy":
                graphs.append(g.copy())
            elif kind == "sub":
                graphs.append(g.subgraph(op[1]))
            elif kind == "flip":
                g.reverse(copy=False)
            elif kind == "new":
                data = {"graph": g, "edges": g.edges(data=True)}[op[1]]
                graphs.append(ODiGraph(data))
            elif kind == "baddict":
                g.add_node(op[1], 17)
            elif kind == "badedge":
                g.add_edges_from([(1, 2, {}, 3)])
        except Exception as e:
            res = type(e).__name__
        trace.append([res, [obs(x) for x in graphs[-2:]]])
    return {"trace": trace, "pool": [sorted(d.items()) for d in pool]}


def daeso(args):
    pool = [dict(d) for d in s(args["pool"])]
    g = DaesoGraph(*s(args["init"]))
    trace = []
    for op in s(args["ops"]):
        kind = op[0]
        res = None
        try:
            if kind == "node":
                g.add_node(*op[1], **op[2])
            elif kind == "noded":
                g.add_node(op[1], op[2], op[3], pool[op[4]])
            elif kind == "nodes":
                res = g.add_nodes_from(op[1]) is NotImplemented
            elif kind == "edge":
                g.add_edge(*op[1], **op[2])
            elif kind == "edged":
                g.add_edge(op[1], op[2], op[3], pool[op[4]])
            elif kind == "edges":
                g.add_edges_from(tuples(op[1]), **op[2])
            elif kind == "settok":
                g.set_node_tokens(op[1], op[2])
            elif kind == "settokstr":
                g.set_node_token_string(op[1], op[2])
            elif kind == "setedge":
                g[op[1]][op[2]][op[3]] = op[4]
            elif kind == "gtokstr":
                g.set_graph_token_string(op[1])
            elif kind == "root":
                g.root = op[1]
            elif kind == "rmnode":
                g.remove_node(op[1])
            elif kind == "rmedge":
                g.remove_edge(op[1], op[2])
            elif kind == "yield":
                res = g.terminal_yield(*op[1], **op[2])
            elif kind == "badedge":
                g.add_edge(op[1], op[2], "x", 17)
            elif kind == "badedges":
                g.add_edges_from([(1, 2, {}, 3)])
        except Exception as e:
            res = "exc:" + type(e).__name__
        flags = [(a, b) for a in (True, False) for b in (True, False)]
        o = obs(g)
        o.update(
            tokens=[[n, g.get_node_tokens(n), g.get_node_token_string(n)] for n in sorted(g)],
            graph=[g.id, g.tokens, g.get_graph_token_string(), g.root, g.is_failed_parse()],
            nodeflags=[[n, bool(g.node_is_empty(n)), bool(g.node_is_punct(n)),
                        bool(g.node_is_non_terminal(n))] for n in sorted(g)],
            terms=[sorted(g.terminals(*f)) for f in flags],
            terms2=[sorted(g.terminals_iter(**dict([("with_punct", False)][a:] +
                                                   [("with_empty", False)][b:])))
                    for a, b in flags],
            terms3=[sorted(g.terminals(**dict([("with_punct", False)][a:] +
                                              [("with_empty", False)][b:])))
                    for a, b in flags],
            terms4=[[n for n in sorted(g) if g.node_is_terminal(
                        n, **dict([("with_punct", False)][a:] + [("with_empty", False)][b:]))]
                    for a, b in flags],
            nonterms=[sorted(g.non_terminals()), sorted(g.non_terminals_iter())])
        trace.append([res, o])
    return {"trace": trace, "pool": [sorted(d.items()) for d in pool]}


def dump(g):
    """everything known about a parsed graph"""
    return {"id": g.id, "tokens": g.tokens, "root": g.root,
            "string": g.get_graph_token_string(),
            "attrs": sorted([[k, v] for k, v in g.graph.items() if k != "name"]),
            "nodes": sorted([[n, sorted(g.node[n].items())] for n in g]),
            "edges": [[u, v, sorted(d.items())] for u, v, d in g.edges(data=True)],
            "inedges": sorted([[v, u, sorted(d.items())] for v in g
                               for u, d in g.pred[v].items()]),
            "succ": sorted([[n, list(g.successors(n))] for n in g]),
            "pred": sorted([[n, list(g.predecessors(n))] for n in g])}


def parse(fn):
    try:
        return ["ok", sorted([[k, None if v is None else dump(v)] for k, v in fn().items()])]
    except DaesoError as e:
        return ["DaesoError", unicode(e)]


def graphml(args):
    data = args["data"].encode("utf-8")
    path = os.path.join(args["dir"], "gb.xml").encode("ascii")
    f = open(path, "wb")
    f.write(data)
    f.close()
    res = {}

    def bank():
        b = GraphBank(path, "graphml")
        assert len(b) == 0
        b.load()
        d = dict((g.id, g) for g in b)
        res["bank"] = [len(b), sorted([g.id for g in b]), b.get_format(),
                       b.get_file_path() == os.path.realpath(path),
                       all([b.get_graph(k) is d[k] for k in d])]
        return d

    res["full"] = parse(bank)

    def from_file():
        d = {}
        f = open(path, "rb")
        try:
            out = GraphmlParser().parse_file(f, d)
        finally:
            f.close()
        assert out is d
        return d

    res["file"] = parse(from_file)

    def chunks():
        p, d = GraphmlParser(), {}
        cuts = sorted([c % (len(data) + 1) for c in args["cuts"]])
        for a, b in zip([0] + cuts, cuts + [len(data)]):
            out = p.parse_string(data[a:b], d)
            assert out is d
        p.close()
        return d

    res["chunks"] = parse(chunks)

    def sparse():
        d = dict.fromkeys(s(args["wanted"]))
        GraphmlParser().parse_file(path, d, sparse=True)
        return d

    res["sparse"] = parse(sparse)

    return res


def bank_ops(args):
    """graphbank objects over files and paths"""
    base = args["dir"].encode("ascii")
    for name in s(args["files"]):
        open(os.path.join(base, name), "wb").close()
    for a, b in s(args["links"]):
        os.symlink(os.path.join(base, a), os.path.join(base, b))
    for a, b in s(args["hard"]):
        os.link(os.path.join(base, a), os.path.join(base, b))
    out = []
    for p, q in s(args["pairs"]):
        a = GraphBank(os.path.join(base, p), "graphml")
        b = GraphBank(os.path.join(base, q), "graphml")
        out.append([bool(a == b), bool(a != b), bool(b == a), bool(b != a)])
    errs = []
    for fmt in s(args["formats"]):
        try:
            GraphBank(os.path.join(base, "x"), fmt).load()
            errs.append(None)
        except Exception as e:
            errs.append(type(e).__name__)
    return {"eq": out, "errs": errs}
