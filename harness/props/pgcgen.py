"""generators and readers of corpus files, shared by several properties"""
import os
import random
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

from core import same

BANKS = ["banks/b1.xml", "banks/b2.xml", "banks/sub dir/b&3.xml", "b4.xml"]
# for corpora with many of everything
MORE = ["more/%d.xml" % i for i in range(8, 22)]
MORE_GRAPHS = ["g%d" % i for i in range(1, 13)]
MORE_NODES = ["n%d" % i for i in range(14)]
LINKS = [["banks", "linked"], ["b4.xml", "banks/b5.xml"]]
LINKED = ["linked/b1.xml", "banks/b5.xml", "linked/sub dir/b&3.xml"]
GRAPHS = ["g1", "g2", "g&3", "gé4"]
NODES = ["n0", "n1", "n2", "t\"1", "né"]
RELS = ["equals", "restates", "is  like", "specifies", "gegeneraliseerd é", "a < b"]


def real(base, path):
    for a, b in LINKS:
        if path == b or path.startswith(b + "/"):
            path = a + path[len(b):]
    return os.path.join(os.path.realpath(base), path)


def bank_xml(graphs=GRAPHS, nodes=NODES):
    out = ['<?xml version="1.0" encoding="utf-8"?>', "<graphml>",
           '<key id="tok" attr.name="tokens"/><key id="lab" for="node" attr.name="label"/>']
    for g in graphs:
        out.append('<graph id=%s edgedefault="directed"><data key="tok">a b</data>'
                   % quoteattr(g))
        for n in nodes:
            out.append('<node id=%s><data key="lab">L</data><data key="tok">a</data></node>'
                       % quoteattr(n))
        out.append("</graph>")
    out.append("</graphml>")
    return "\n".join(out)


def lay_out(base, paths=BANKS, links=LINKS, xml=None, more=False):
    for p in paths:
        full = os.path.join(base, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w", encoding="utf-8") as f:
            f.write(xml or bank_xml())
    if more:
        os.makedirs(os.path.join(base, "more"))
        text = bank_xml(MORE_GRAPHS, MORE_NODES)
        for p in MORE:
            with open(os.path.join(base, p), "w", encoding="utf-8") as f:
                f.write(text)
    for a, b in links:
        os.symlink(os.path.join(base, a), os.path.join(base, b))


def canon(e):
    if e is None:
        return None
    if isinstance(e, str):
        e = ET.fromstring(e)
    return [e.tag, (e.text or "").strip(), (e.tail or "").strip(),
            sorted([k, v] for k, v in e.attrib.items()), [canon(c) for c in e]]


text = st.one_of(st.sampled_from(["x", "caf\u00e9", "a & b < c", "de man", "\u20ac"]),
                 st.text("ab&<>\"'\u00e9 ", max_size=5))
TAGS = ["a", "comment", "annotator", "file", "relation", "node_pair", "graph_pair",
        "graphbanks", "graph_meta_data", "corpus_meta_data", "node_relations",
        "aligned_graphs", "parallel_graph_corpus"]


@st.composite
def metas(draw, tag, tags=TAGS):
    """some XML element, as text"""
    def element(tag, depth):
        at = draw(st.dictionaries(st.sampled_from(["who", "id", "format"]), text, max_size=2))
        out = "<%s%s>" % (tag, "".join(" %s=%s" % (k, quoteattr(v)) for k, v in at.items()))
        out += escape(draw(st.one_of(st.just(""), text)))
        if depth < 3:
            for _ in range(draw(st.integers(0, 2))):
                out += element(draw(st.sampled_from(tags)), depth + 1)
                out += escape(draw(st.one_of(st.just(""), st.just(""), text)))
        return out + "</%s>" % tag

    if draw(st.integers(0, 5)) == 0:
        return "<%s />" % tag
    return element(tag, 0)


def uses_more(*specs):
    return any(b["path"] in MORE for s in specs for b in s["banks"])


def big_corpus(rng):
    """many graphbanks, graph pairs, alignments and relations"""
    banks = [{"path": p, "cls": rng.choice(["full", "sparse"])}
             for p in rng.sample(MORE, rng.randint(9, len(MORE)))]
    for _ in range(rng.randint(0, 3)):
        banks.append(dict(rng.choice(banks)))
    pairs = []
    rels = RELS + ["rel%d" % i for i in range(12)]
    for i in range(rng.randint(10, 25)):
        src, trg = rng.sample(range(len(banks)), 2)
        sg, tg = rng.sample(MORE_GRAPHS, 2)
        k = rng.randint(0, len(MORE_NODES))
        pairs.append({"src": src, "trg": trg, "sg": sg, "tg": tg,
                      "al": [[a, b, rng.choice(rels)] for a, b in
                             zip(rng.sample(MORE_NODES, k), rng.sample(MORE_NODES, k))],
                      "meta": rng.choice([None, "<graph_meta_data><comment>number %d</comment>"
                                          "</graph_meta_data>" % i])})
    return {"banks": banks, "pairs": pairs, "relations": rng.sample(rels, rng.randint(0, 14)),
            "meta": rng.choice([None, "<corpus_meta_data><comment>c</comment>"
                                "</corpus_meta_data>"])}


@st.composite
def corpora(draw, banks=BANKS + LINKED, max_pairs=6, node=st.sampled_from(NODES),
            graph=st.sampled_from(GRAPHS), rel=st.sampled_from(RELS), big=0):
    """big: one in so many is big"""
    if big and draw(st.integers(1, big)) == big:
        return big_corpus(random.Random(draw(st.integers(0, 2 ** 32))))
    objs = draw(st.lists(st.fixed_dictionaries({
        "path": st.sampled_from(banks), "cls": st.sampled_from(["full", "sparse"])}),
        min_size=1, max_size=5))
    pairs = draw(st.lists(st.fixed_dictionaries({
        "src": st.integers(0, 4), "trg": st.integers(0, 4), "sg": graph, "tg": graph,
        "al": st.lists(st.tuples(node, node, rel), max_size=5),
        "meta": st.one_of(st.none(), metas("graph_meta_data"))}),
        min_size=min(draw(st.integers(0, 4)), max_pairs), max_size=max_pairs))
    return {"banks": objs, "pairs": pairs,
            "relations": draw(st.lists(rel, unique=True, max_size=4)),
            "pad": draw(st.sampled_from(["", "", "\n  "])),    # around texts in the file
            "meta": draw(st.one_of(st.none(), metas("corpus_meta_data")))}


def distinct_graphs(spec, base="/x"):
    """a graph aligned with itself is outside the format"""
    n = len(spec["banks"])
    for p in spec["pairs"]:
        s = real(base, spec["banks"][p["src"] % n]["path"])
        t = real(base, spec["banks"][p["trg"] % n]["path"])
        if s == t and p["sg"] == p["tg"]:
            return False
    return True


def expected(spec, base):
    """the dump of a corpus built from spec"""
    from props.C03 import model_add
    n = len(spec["banks"])
    pairs = []
    for p in spec["pairs"]:
        al = {}
        for a, b, r in p["al"]:
            model_add(al, True, a, b, r)
        pairs.append({
            "banks": [real(base, spec["banks"][i % n]["path"]) for i in (p["src"], p["trg"])],
            "formats": ["graphml", "graphml"], "graphs": [p["sg"], p["tg"]],
            "al": sorted([a, b, r] for (a, b), r in al.items()),
            "meta": canon(p["meta"] or "<graph_meta_data/>")})
    return {"relations": sorted(spec["relations"]), "meta": canon(spec["meta"]),
            "pairs": pairs}


def clean(dump):
    d = {k: dump[k] for k in ("relations", "meta")}
    d["meta"] = canon(d["meta"])
    d["pairs"] = [dict(p, meta=canon(p["meta"])) for p in dump["pairs"]]
    return d


def corpus_text(spec, base, name, abs_path=False, paths=None):
    """a corpus file for the spec; banks are numbered by object"""
    out = ['<?xml version="1.0" encoding="utf-8"?>', "<parallel_graph_corpus>"]
    if spec["meta"] is not None:
        out.append(spec["meta"])
    out.append("<graphbanks>")
    here = os.path.dirname(os.path.join(os.path.realpath(base), name))
    for i, b in enumerate(spec["banks"]):
        p = os.path.join(base, b["path"])
        pad = spec.get("pad", "")
        if paths:
            p, pad = paths[i], ""
        elif not abs_path:
            p = os.path.relpath(real(base, b["path"]), here)
        out.append('<file id="b%d" format="graphml">%s%s%s</file>' % (
            i, pad, escape(p), pad))
    out.append("</graphbanks><node_relations>")
    pad = spec.get("pad", "")
    out += ["<relation>%s%s%s</relation>" % (pad, escape(r), pad) for r in spec["relations"]]
    out.append("</node_relations><aligned_graphs>")
    n = len(spec["banks"])
    for p in spec["pairs"]:
        out.append("<graph_pair from_bank_id='b%d' from_graph_id=%s to_bank_id='b%d' "
                   "to_graph_id=%s>" % (p["src"] % n, quoteattr(p["sg"]), p["trg"] % n,
                                        quoteattr(p["tg"])))
        if p["meta"] is not None:
            out.append(p["meta"])
        out += ["<node_pair from_node_id=%s to_node_id=%s relation=%s/>" % tuple(
            quoteattr(x) for x in a) for a in p["al"]]
        out.append("</graph_pair>")
    return "".join(out) + "</aligned_graphs></parallel_graph_corpus>"


def read_corpus(path=None, text=None, where=None):
    """independent reader of corpus files; where: the directory that relative
    paths refer to"""
    if text is None:
        with open(path, "rb") as f:
            text = f.read()
    elif isinstance(text, str):
        text = text.encode("utf-8")
    if where is None:
        where = os.path.dirname(os.path.realpath(path))
    root = ET.fromstring(text)
    files = {e.get("id"): os.path.realpath(os.path.join(where, e.text.strip()))
             for e in root.find("graphbanks")}
    pairs = []
    for e in root.find("aligned_graphs"):
        meta = e.find("graph_meta_data")
        pairs.append({
            "banks": [files[e.get(k)] for k in ("from_bank_id", "to_bank_id")],
            "formats": ["graphml"] * 2,
            "graphs": [e.get("from_graph_id"), e.get("to_graph_id")],
            "al": sorted([n.get("from_node_id"), n.get("to_node_id"), n.get("relation")]
                         for n in e.findall("node_pair")),
            "meta": canon(meta) if meta is not None else canon("<graph_meta_data/>")})
    return {"files": sorted(files.values()), "relations": sorted(
        e.text.strip() for e in root.find("node_relations")),
        "meta": canon(root.find("corpus_meta_data")), "pairs": pairs}


def same_corpus(got, want, what, keys=("relations", "meta", "pairs")):
    for k in keys:
        same(got[k], want[k], "%s: %s" % (what, k))
    banks = sorted({b for p in want["pairs"] for b in p["banks"]})
    if "files" in got:
        same(got["files"], banks, what + ": graphbank files")
