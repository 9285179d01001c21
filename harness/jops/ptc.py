# -*- coding: utf-8 -*-
"""parallel text corpora: Hitaext documents and indexed document trees"""
import cStringIO
import os
import sys
import types
from xml.etree.cElementTree import SubElement

from base import s, outcome
from daeso.pair import Pair
from daeso.ptc.document import HitaextDoc
from daeso.ptc.ielemtree import IndexElemTree

SIDES = ("from", "to")


# --- indexed trees ---

def dump_tree(tree):
    elems = list(tree.getiterator())
    pos = dict((id(e), i) for i, e in enumerate(elems))
    return {
        "text": tree.text,
        "elems": [{"tag": e.tag, "n": e.get("_n"), "id": e.get("id"),
                   "text": tree.get_elem_text(e),
                   "start": e.get("_start"), "end": e.get("_end"),
                   "ignore": bool(e.get("_ignore")),
                   "al": [pos.get(id(a)) for a in e.get("_alignments")]}
                  for e in elems],
        "count": sorted([[t, [pos.get(id(e)) for e in es]]
                         for t, es in tree.tagCountTable.items()]),
        "ids": sorted([[t, i, pos.get(id(e))] for t, d in tree.tagIdTable.items()
                       for i, e in d.items()])}


TAGS = ["doc", "p", "s", "w", "head"]
TEXTS = [u"", u" ", u"\n  ", u"a", u"De kat", u" slaapt . ", u"caf\u00e9\n", u"x  y", u"1 < 2 & 3",
         u"\u20ac 5 "]


def _edit(tree, kind, n, k):
    elems = list(tree.getiterator())
    elem = elems[n % len(elems)]
    if kind == "id":
        elem.set("id", "new%d" % k)
    elif kind == "text":
        elem.text = TEXTS[k]
    elif kind == "tail" and elem is not elems[0]:
        elem.tail = TEXTS[k]
    elif kind == "add":
        SubElement(elem, TAGS[k % len(TAGS)]).text = "added"
    elif kind == "del":
        for other in elems:
            if elem in list(other):
                other.remove(elem)


def index(args):
    """index one document under a sequence of render settings"""
    tree = IndexElemTree(s(args["file"]))
    out = []
    for settings in args["settings"]:
        if settings.get("align") is not None:
            elems = list(tree.getiterator())
            elems[settings["align"]].get("_alignments").append(elems[0])
        for kind, n, k in settings["edits"]:
            _edit(tree, kind, n, k)
        kw = dict((str(k), s(v)) for k, v in settings["kw"].items())
        tree.update(**kw)
        out.append(dump_tree(tree))
    return out


# --- documents ---

def dump_doc(doc):
    out = {}
    for side in SIDES:
        out[side] = {
            "filename": outcome(doc.get_filename, side),
            "pseudo_root": doc.get_pseudo_root(side),
            "pseudo_root_tags": doc.get_pseudo_root_tags(side),
            "elems": [[e.tag, sorted(e.items())]
                      for e in doc.find("./%s/render/elements" % side)],
            "tags": doc.get_elem_tags(side),
            "dict": sorted([[t, e.tag, sorted(e.items())]
                            for t, e in doc.get_elem_dict(side, None).items()]),
            "attr": dict((a, doc.get_tags(side, a))
                         for a in ("ignore", "skip", "newline", "blankline", "uniq"))}
    out["method"] = doc.get_alignment_method()
    out["links"] = [[e.tag, sorted(e.items())] for e in doc.get_alignments()]
    return out


def _reread(doc, how, path):
    if how == "name":
        doc.write(path)
        return HitaextDoc(file=path)
    if how in ("utf-8", "latin-1"):
        doc.write(path, encoding=str(how))
        return HitaextDoc(file=path)
    if how == "file":
        f = open(path, "wb")
        doc.write(f)
        f.close()
        f = open(path, "rb")
        try:
            return HitaextDoc(file=f)
        finally:
            f.close()
    if how == "element":
        return HitaextDoc(element=doc.getroot())
    f = cStringIO.StringIO()
    doc.write(f)
    return HitaextDoc(file=cStringIO.StringIO(f.getvalue()))


def history(args):
    doc = HitaextDoc()
    out = [[["ok", None], dump_doc(doc)]]
    for op in s(args["ops"]):
        name, a = op[0], op[1:]
        res = ["ok", None]
        try:
            if name == "reread":
                doc = _reread(doc, a[0], args["path"].encode("ascii"))
            elif name == "init_elems":
                doc.init_elems(a[0], IndexElemTree(a[1]))
            elif name == "set_attr":
                doc.get_elem(a[0], a[1]).set(a[2], a[3])
            elif name == "has_elem":
                res[1] = doc.get_elem(*a) is not None
            elif name == "default_elem":
                e = doc.default_elem(*a)
                res[1] = [e.tag, sorted(e.items())]
            elif name == "add_elem":
                e = doc.add_elem(*a)
                res[1] = [e.tag, sorted(e.items())]
            elif name == "validate":
                doc.validate()
            else:
                getattr(doc, name)(*a)
        except Exception as e:
            res = ["exc", type(e).__name__]
        out.append([res, dump_doc(doc)])
    return out


def search(args):
    """file names looked up from another working directory"""
    os.chdir(args["cwd"].encode("ascii"))
    doc = HitaextDoc(file=s(args["doc"]))
    out = []
    for side in SIDES:
        out.append([doc.get_filename(side), doc.get_filename(side, search=True)])
    tree = outcome(lambda: doc.get_doc_tree(args["side"], search=True).getroot().tag)
    pair = outcome(lambda: [t.getroot().tag for t in doc.get_doc_trees(search=True, update=False)])
    return [out, tree, pair]


def links(args):
    """put the links of a document on its trees and read them back"""
    doc = HitaextDoc(file=s(args["doc"]))
    if args["ignore"]:
        trees = tuple(doc.get_doc_trees(update=False))
        for t, i in zip(trees, s(args["ignore"])):
            t.update(ignoreTags=i)
    else:
        trees = tuple(doc.get_doc_trees())
    doc.inject_alignments(*trees)
    pos = [dict((id(e), i) for i, e in enumerate(t.getiterator())) for t in trees]
    al = []
    for k in (0, 1):
        al.append([[pos[1 - k][id(a)] for a in e.get("_alignments")]
                   for e in trees[k].getiterator()])
    before = [[e.tag, sorted(e.items())] for e in doc.get_alignments()]
    if args.get("method"):
        doc.set_alignment_method(s(args["method"]))
    doc.extract_alignments(*trees)
    after = dump_doc(doc)
    return [al, before, after]


# --- evaluation, comparison ---

def scores(args):
    from daeso.ptc.evaluate import compute_scores, count_alignment
    out = []
    for true, pred, tag in s(args["cases"]):
        counts = count_alignment(HitaextDoc(file=true), HitaextDoc(file=pred), tag)
        out.append([list(counts), list(compute_scores(*counts))])
    return out


def eval_alignment(args):
    from daeso.ptc.evaluate import eval_alignment
    kw = {}
    if args.get("labels") is not None:
        kw["labels"] = s(args["labels"])
    eval_alignment([tuple(p) for p in s(args["pairs"])], s(args["tag"]), **kw)
    return sys.stdout.getvalue()


def diff(args):
    from daeso.ptc.diff import print_diff
    a, b = s(args["true"]), s(args["pred"])
    if args["docs"]:
        a, b = HitaextDoc(file=a), HitaextDoc(file=b)
    if args.get("encoding"):
        print_diff(a, b, s(args["tag"]), str(args["encoding"]))
        return sys.stdout.getvalue(str(args["encoding"]))
    print_diff(a, b, s(args["tag"]))
    return sys.stdout.getvalue()


# --- automatic alignment ---

def _textalign():
    """the module needs a stop word list that is not part of the framework"""
    if "daeso_nl" not in sys.modules:
        for name in ("daeso_nl", "daeso_nl.string", "daeso_nl.string.stopword"):
            sys.modules[name] = types.ModuleType(name)

        def remove_stopwords(tokens, ignore_case=False, remove_punc=False):
            import string
            return [t for t in tokens
                    if (t.lower() if ignore_case else t) not in ("de", "het", "een")
                    and not (remove_punc and t in string.punctuation)]

        sys.modules["daeso_nl.string.stopword"].remove_stopwords = remove_stopwords
    import daeso.ptc.textalign as textalign
    return textalign


def align(args):
    """a sequence of automatic alignments of one document"""
    ta = _textalign()
    doc = HitaextDoc(file=s(args["doc"]))
    trees = None
    out = []
    for run in s(args["runs"]):
        kw = {}
        if run["scope"]:
            kw["scope_tags"] = Pair(*run["scope"])
        if run["ignore"]:
            kw["ignore_tags"] = Pair(*run["ignore"])
        if run["term"]:
            kw["term_func"] = getattr(ta, run["term"][0])(run["term"][1])
        if run["weight"]:
            kw["weight_func"] = getattr(ta, run["weight"])
        if run["sim"]:
            kw["sim_func"] = getattr(ta, run["sim"])
        if run["filter"]:
            f = getattr(ta, run["filter"][0])
            kw["filter_func"] = f(run["filter"][1]) if len(run["filter"]) > 1 else f
        aligner = ta.TextAligner(Pair(*run["focus"]), **kw)
        kw = {}
        if run["trees"]:
            if trees is None:
                trees = doc.get_doc_trees(update=False)
                for t, i in zip(trees, run["ignore"] or [[], []]):
                    t.update(ignoreTags=i)
            kw["doc_trees"] = trees
        if run["clear"] is not None:
            kw["clear"] = run["clear"]
        aligner.align_corpus(doc, **kw)
        out.append([[e.tag, sorted(e.items())] for e in doc.get_alignments()])
        if args.get("write"):
            doc.write(s(args["doc"]))
            doc = HitaextDoc(file=s(args["doc"]))
    return out


def textfuncs(args):
    ta = _textalign()
    out = []
    for name, params, a in s(args["calls"]):
        f = getattr(ta, name)
        if params:
            f = f(*params)
        out.append(f(*a))
    return out


class _Elem(dict):
    pass


def filters(args):
    """filters on generated scores: the pairs are (source n, target n)"""
    ta = _textalign()
    f = getattr(ta, s(args["filter"]))
    if args.get("threshold") is not None:
        f = f(args["threshold"])
    scores = [(v, Pair(_Elem(_n=i), _Elem(_n=j))) for v, i, j in args["scores"]]
    return [[v, p.source["_n"], p.target["_n"]] for v, p in f(scores)]
