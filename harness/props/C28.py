"""creation of graph corpora from text corpora, and phrases of graph corpora"""
import os
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

from core import TempDir, Test, check, same
from props.ptcgen import TAGS, flat, hitaext, index, trees, with_ids, write_text, write_tree
from props.pgcgen import read_corpus

RULE = ("one or two text corpora over generated document pairs with links by identifier "
        "(repeated, of several tags), graph banks with graphs for the linked elements (rarely "
        "one is missing), all options, through function and tool; corpora over generated graph "
        "banks with non-ASCII tokens, paths and delimiters, for phrase extraction; "
        "non-trivial: some links are taken and others left out, or several pairs with phrases")
RELATIONS = ["equals", "restates", "specifies", "generalizes", "intersects"]
WORDS = ["", "de de kat", "kat kat een kat", "de kat", "De Kat slaapt", "de  hond\n", "kat", " een ", "caf\u00e9 CAF\u00c9", "."]


def bank_xml(graphs):
    """graphs: id -> list of [node, tokens]"""
    out = ['<?xml version="1.0" encoding="utf-8"?><graphml><key id="tok" attr.name="tokens"/>'
           '<key id="lab" for="node" attr.name="label"/>']
    for g in graphs:
        out.append('<graph id=%s edgedefault="directed"><data key="tok">a b</data>' % quoteattr(g))
        for n, toks in graphs[g]:
            out.append('<node id=%s><data key="lab">L</data><data key="tok">%s</data></node>'
                       % (quoteattr(n), escape(toks)))
        out.append("</graph>")
    return "\n".join(out) + "</graphml>"


@st.composite
def text_corpora(draw):
    docs = [with_ids(draw(trees(size=12, tags=["p", "s", "s", "w"], text=st.sampled_from(WORDS))))
            for _ in "12"]
    # mostly elements of one tag
    els = [flat(t) for t in docs]
    els = [sorted(e, key=lambda x: x[0] != "s")[:1 + draw(st.integers(0, 11))] for e in els]
    links = [[els[0][i % len(els[0])][0], els[0][i % len(els[0])][1],
              els[1][j % len(els[1])][0], els[1][j % len(els[1])][1]]
             for i, j in draw(st.lists(st.tuples(st.integers(0, 11), st.integers(0, 11)),
                                       min_size=draw(st.sampled_from([0, 1, 4])), max_size=8))]
    return {"docs": docs, "links": links,
            "one_bank": draw(st.integers(0, 5)) == 0,
            "missing": draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(
                st.integers(0, 1), st.integers(0, 11))))}


@st.composite
def cases(draw):
    opt = {}
    if draw(st.integers(0, 2)) == 0:
        opt["focus_tags"] = [draw(st.sampled_from(["s", "s", "p", "w"])) for _ in "12"]
    if draw(st.booleans()):
        opt["relations"] = draw(st.lists(st.sampled_from(["x", "y", "equals"]), min_size=1,
                                         unique=True))
    if draw(st.booleans()):
        opt["min_token_diff"] = draw(st.integers(0, 4))
    if draw(st.booleans()):
        opt["max_token_len"] = draw(st.integers(0, 5))
    return {"corpora": draw(st.lists(text_corpora(), min_size=1, max_size=2)), "opt": opt,
            "short": draw(st.integers(0, 7)) == 0}


def expected(c, opt):
    """pairs of graph ids, or the side and id of a missing graph; links left out"""
    tags = opt.get("focus_tags", ["s", "s"])
    tokens = []
    for t in c["docs"]:
        _, recs = index(t)
        tokens.append({(e[0], e[1]): r[0].lower().split() for e, r in zip(flat(t), recs)})
    pairs, left = [], 0
    for a, i, b, j in c["links"]:
        s, t = tokens[0][a, i], tokens[1][b, j]
        diff = sum(x not in t for x in s) + sum(x not in s for x in t)
        if [a, b] != tags or max(len(s), len(t)) > opt.get("max_token_len", 10 ** 9) or (
                diff < opt.get("min_token_diff", 0)):
            left += 1
        else:
            pairs.append([i, j])
    return pairs, left


def run(case, w):
    corpora, opt = case["corpora"], case["opt"]
    want, files = [], []
    labels = set()
    with TempDir(w) as d:
        d = os.path.realpath(d)
        for n, c in enumerate(corpora):
            graphs = []
            for side, t in enumerate(c["docs"]):
                write_tree(os.path.join(d, "docs", "d%d%d.xml" % (n, side)), t)
                graphs.append({e[1]: [["n%d" % k, "a"] for k in range(i % 3)]
                               for i, e in enumerate(flat(t))})
            if c["one_bank"]:
                graphs[0].update(graphs[1])
                graphs[1] = graphs[0]
            if c["missing"]:
                side, k = c["missing"]
                ids = sorted(graphs[side])
                graphs[side] = {i: g for i, g in graphs[side].items() if i != ids[k % len(ids)]}
                if c["one_bank"]:
                    graphs = [graphs[side]] * 2
            banks = ["gb/b%d%d.xml" % (n, 0 if c["one_bank"] else side) for side in (0, 1)]
            for b, g in zip(banks, graphs):
                write_text(os.path.join(d, b), bank_xml(g))
            # the text documents are found beside or relative to the text corpus
            write_text(os.path.join(d, "docs", "c.%d.ptc" % n), hitaext(
                "d%d0.xml" % n, os.path.join(d, "docs/d%d1.xml" % n), c["links"], "id"))
            files.append(["docs/c.%d.ptc" % n] + banks)
            pairs, left = expected(c, opt)
            if any(i not in graphs[0] or j not in graphs[1] for i, j in pairs):
                want.append(None)
                labels.add("missing graph")
            else:
                want.append({"relations": sorted(opt.get("relations", RELATIONS)), "pairs": [
                    [[os.path.join(d, b), "graphml", i, len(g[i]), [x for x, _ in g[i]]]
                     for b, g, i in zip(banks, graphs, p)] + [0] for p in pairs]})
                if pairs and left:
                    labels.add("nontrivial")
        got = w.call("creation.create", cwd=d, files=files,
                     kw=dict(opt, graph_formats=["graphml", "graphml"]))
        for g, x in zip(got, want):
            if x is None:
                same(g[:2], ["exc", "KeyError"], "outcome without a graph for a linked element")
            else:
                same(g, ["ok", x], "the corpus made")
        flags = ["-p"] + [f[0] for f in files] + ["-s"] + [f[1] for f in files] + ["-t"] + [
            f[2] for f in files[:-1 if case["short"] else None]]
        if case["short"] and len(files) == 1:
            flags = flags[:-1]
        flags += ["--source-format", "graphml", "--target-format", "graphml"]
        for k, v in opt.items():
            if k == "focus_tags":
                flags += ["--source-tag", v[0], "--target-tag", v[1]]
            elif k == "relations":
                flags += ["--relations"] + v
            else:
                flags += ["--" + k.replace("_", "-"), str(v)]
        code, _, err = w.call("creation.tool", cwd=d, name="pgc_from_ptc.py", argv=flags)
        out = sorted(f for f in os.listdir(d) if f.endswith(".pgc"))
        if case["short"]:
            check(code != 0, "numbers of graph banks do not match, but exit status 0")
            same(out, [], "files written")
            return sorted(labels)
        good = want.index(None) if None in want else len(want)
        check((code == 0) == (good == len(want)), "exit status %r (%s)", code, err[-300:])
        same(out, ["c.%d.pgc" % n for n in range(good)], "files written")
        for n in range(good):
            f = read_corpus(os.path.join(d, "c.%d.pgc" % n))
            same(f["relations"], want[n]["relations"], "relations in the file")
            same([[p["banks"], p["graphs"], p["al"]] for p in f["pairs"]],
                 [[[a[0], b[0]], [a[2], b[2]], []] for a, b, _ in want[n]["pairs"]],
                 "pairs in the file")
    return sorted(labels)


# --- phrases ---

GB = ["gb/a.xml", "gb/b c.xml", "caf\u00e9.xml"]
TOKS = ["de kat", "a", "\u20ac 5 ,", "x < y & z", "caf\u00e9  (2)"]
NODES = ["n0", "n1", "n\u00e92"]


@st.composite
def phrase_cases(draw):
    banks = {}
    for p in draw(st.lists(st.sampled_from(GB), min_size=1, max_size=3, unique=True)):
        banks[p] = {g: [[n, draw(st.sampled_from(TOKS))] for n in NODES]
                    for g in ("g1", "g\u00e92")}
    graphs = [[b, g] for b in banks for g in banks[b]]
    corpora = []
    for _ in range(draw(st.integers(1, 2))):
        pairs = []
        for _ in range(draw(st.sampled_from([0, 1, 3, 4]))):
            s, t = draw(st.sampled_from(graphs)), draw(st.sampled_from(graphs))
            if s != t:
                al = draw(st.lists(st.tuples(
                    st.sampled_from(NODES), st.sampled_from(NODES),
                    st.sampled_from(["equals", "r\u00e9 b"])), max_size=4,
                    unique_by=(lambda x: x[0], lambda x: x[1])))
                pairs.append([s, t, [list(x) for x in al]])
        corpora.append(pairs)
    return {"banks": banks, "corpora": corpora,
            "delim": draw(st.sampled_from([None, "|", " -> ", "\u2192", "\t", "\\t", "%s", "{0}"])),
            "verbose": draw(st.booleans()), "long": draw(st.booleans())}


def run_phrases(case, w):
    banks = case["banks"]
    paths = sorted(banks)
    delim = case["delim"] or "\t"
    with TempDir(w) as d:
        d = os.path.realpath(d)
        for b in banks:
            write_text(os.path.join(d, b), bank_xml(banks[b]))
        names, want = [], []
        for n, pairs in enumerate(case["corpora"]):
            used = [p for p in paths if any(p in (x[0][0], x[1][0]) for x in pairs)]
            out = ["<parallel_graph_corpus><graphbanks>"]
            out += ['<file id="%d" format="graphml">../%s</file>' % (k, b)
                    for k, b in enumerate(used)]
            out.append("</graphbanks><node_relations/><aligned_graphs>")
            for (sb, sg), (tb, tg), al in pairs:
                out.append('<graph_pair from_bank_id="%d" from_graph_id=%s to_bank_id="%d" '
                           'to_graph_id=%s>' % (used.index(sb), quoteattr(sg), used.index(tb),
                                                quoteattr(tg)))
                group = []
                for x, y, r in al:
                    out.append("<node_pair from_node_id=%s to_node_id=%s relation=%s/>" % (
                        quoteattr(x), quoteattr(y), quoteattr(r)))
                    cols = [dict(banks[sb][sg])[x], r, dict(banks[tb][tg])[y]]
                    if case["verbose"]:
                        cols = [os.path.join(d, sb), os.path.join(d, tb), sg, tg, x, y] + cols
                    group.append(delim.join(cols))
                want.append(sorted(group))
                out.append("</graph_pair>")
            names.append("pgc/c %d.pgc" % n)
            write_text(os.path.join(d, names[-1]), "".join(out) + "</aligned_graphs></parallel_graph_corpus>")
        args = names[:]
        if case["delim"] is not None:
            args += [["-d", "--delimiter"][case["long"]], case["delim"]]
        if case["verbose"]:
            args.append(["-V", "--verbose"][case["long"]])
        code, out, err = w.call("creation.tool", cwd=d, name="pgc_extract_phrases.py", argv=args)
    same([code, err], [0, ""], "exit status and messages")
    lines = out.split("\n")
    same(lines.pop(), "", "after the last line")
    same(len(lines), sum(map(len, want)), "lines")
    for group in want:
        same(sorted(lines[:len(group)]), group, "phrases of a pair")
        lines = lines[len(group):]
    return ["nontrivial"] if sum(bool(g) for g in want) > 1 else []


TESTS = [
    Test("creation", cases(), run, 900),
    Test("phrases", phrase_cases(), run_phrases, 600),
]
