# -*- coding: utf-8 -*-
"""graph corpora made from text corpora and graph banks"""
import os

from base import s, outcome
from daeso.pair import Pair
from daeso.pgc.creation import pgc_from_ptc


def create(args):
    """the corpora made, and the text of the files they are written to"""
    os.chdir(args["cwd"].encode("ascii"))
    kw = dict((str(k), s(v)) for k, v in args["kw"].items())
    for k in ("focus_tags", "graph_formats"):
        if k in kw:
            kw[k] = Pair(*kw[k])
    out = []
    for n, files in enumerate(s(args["files"])):
        try:
            c = pgc_from_ptc(*files, **kw)
        except Exception as e:
            out.append(["exc", type(e).__name__, unicode(repr(e))])
            continue
        out.append(["ok", {
            "relations": sorted(c.get_relations()),
            "pairs": [[[b.get_file_path(), b.get_format(), g.id, len(g), sorted(g.nodes())]
                       for b, g in zip(p.get_banks(), p.get_graphs())] +
                      [len(p.alignments())] for p in c]}])
    return out


def tool(args):
    """run a script; messages of exceptions count as error output"""
    import sys
    import tools
    from reports import script
    os.chdir(args["cwd"].encode("ascii"))
    sys.stdout.reset()
    sys.stderr.reset()
    try:
        status = script(args["name"], args["argv"])
    except Exception as e:
        return [1, sys.stdout.getvalue(), sys.stderr.getvalue() + type(e).__name__]
    if not isinstance(status, int):
        sys.stderr.write(str(status) + "\n")
        status = 1
    return [status, sys.stdout.getvalue(), sys.stderr.getvalue()]
