# -*- coding: utf-8 -*-
"""command line tools, run in this process"""
import os
import sys

from base import s
from reports import script


def run(args):
    """run scripts one after another: [status, stdout, stderr] of each"""
    out = []
    for name, argv in args["calls"]:
        if args.get("cwd"):
            os.chdir(args["cwd"].encode("ascii"))
        sys.stdout.reset()
        sys.stderr.reset()
        status = script(name, argv)
        if not isinstance(status, int):
            sys.stderr.write(str(status) + "\n")
            status = 1
        out.append([status, sys.stdout.getvalue(), sys.stderr.getvalue()])
    return out


def attempt(args):
    """the same, where a tool that ends with an exception has status 1"""
    import traceback
    from java.lang import Throwable
    out = []
    for name, argv in args["calls"]:
        os.chdir(args["cwd"].encode("ascii"))
        sys.stdout.reset()
        sys.stderr.reset()
        try:
            status = script(name, argv)
        except (Exception, Throwable):
            sys.stderr.write(traceback.format_exc())
            status = 1
        if not isinstance(status, int):
            sys.stderr.write(str(status) + "\n")
            status = 1
        out.append([status, sys.stdout.getvalue(), sys.stderr.getvalue()])
    return out


def spoil(args):
    """write a corpus with a value that does not fit in a file over the file it was read from:
    [failed] or the values read back"""
    from daeso.pgc.corpus import ParallelGraphCorpus
    from daeso.ptc.document import HitaextDoc
    from java.lang import Throwable
    value = {"none": None, "number": 3, "list": ["x"], "text": u"\u20ac"}[
        args["value"]]
    path = args["path"].encode("ascii")
    if args["kind"] == "pgc":
        corpus = ParallelGraphCorpus(inf=path)
        pair = corpus[args["at"] % len(corpus)]
        if args["where"] == "relation":
            from daeso.pair import Pair
            pair.add_align(Pair("n0", "n0"), value)
        else:
            corpus.set_annotator("x")
            corpus.get_meta_data().set(u"k", value)
        write = lambda: corpus.write(path, pprint=args["pprint"])
    else:
        doc = HitaextDoc(file=path)
        if args["where"] == "relation":
            doc.add_id_alignment("s", value, "s", "1")
        else:
            doc.getroot().set(u"k", value)
        write = lambda: doc.write(path)
    try:
        write()
    except (Exception, Throwable):
        return "failed"
    return "written"
