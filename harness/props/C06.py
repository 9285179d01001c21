"""reading GraphML graphbanks"""
import os
import random
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

from core import TempDir, Test, check, same, short

RULE = ("GraphML documents generated from keys (for graph, node, edge or all, with and "
        "without defaults, sharing names), graphs, nodes, edges and data in varying order, "
        "with entities, CDATA, comments, non-ASCII text and duplicate data; read whole, from "
        "an open file, in chunks cut at arbitrary bytes and sparsely; some documents violate "
        "one requirement; non-trivial: the document has a default, data after a node or edge, "
        "or an error")
NS = ' xmlns="http://graphml.graphdrawing.org/xmlns"'


class Bad(Exception):
    pass


def split(text):
    return text.split()


def interpret(doc, wanted=None):
    """what the document means; wanted: the graphs asked for"""
    table = {k: {} for k in ("graph", "node", "edge", "all")}
    for k in doc["keys"]:
        table[k["for"] or "all"][k["id"]] = k
    result = {}

    def defaults(kind):
        d = {}
        for t in ("all", kind):
            for k in table[t].values():
                if k["default"] is not None:
                    d[k["name"]] = k["default"]
        return d

    def name(kind, key):
        for t in (kind, "all"):
            if key in table[t]:
                return table[t][key]["name"]
        raise Bad("key")

    for g in doc["graphs"]:
        if wanted is not None and g["id"] not in wanted:
            continue
        attrs, tokens = {}, None
        for k, v in defaults("graph").items():
            if k == "tokens":
                tokens = split(v)
            else:
                attrs[k] = v
        nodes, edges = {}, {}
        for item in g["items"]:
            if item["kind"] == "data":
                n = name("graph", item["key"])
                if n == "tokens":
                    tokens = split(item["text"])
                else:
                    attrs[n] = item["text"]
            elif item["kind"] == "node":
                d = dict(defaults("node"))
                d.setdefault("label", None)
                for x in item["data"]:
                    d[name("node", x["key"])] = x["text"]
                if not d.get("label") or "tokens" not in d:
                    raise Bad("node")
                d["tokens"] = d["tokens"].split(" ")
                nodes[item["id"]] = d
            else:
                d = edges.setdefault((item["source"], item["target"]), {})
                d["label"] = None
                d.update(defaults("edge"))
                for x in item["data"]:
                    d[name("edge", x["key"])] = x["text"]
        if tokens is None:
            raise Bad("graph")
        order = [e for n in nodes for e in edges if e[0] == n]
        result[g["id"]] = {
            "id": g["id"], "tokens": tokens, "root": attrs.get("root"),
            "string": " ".join(tokens),
            "attrs": sorted([k, v] for k, v in attrs.items()),
            "nodes": sorted([n, sorted([k, v] for k, v in d.items())]
                            for n, d in nodes.items()),
            "edges": [[u, v, sorted([k, x] for k, x in edges[u, v].items())]
                      for u, v in order],
            "inedges": sorted([v, u, sorted([k, x] for k, x in edges[u, v].items())]
                              for u, v in order),
            "succ": sorted([n, [v for u, v in edges if u == n]] for n in nodes),
            "pred": sorted([n, [u for u, v in edges if v == n]] for n in nodes)}
    return result


def serialise(doc):
    sp = doc["style"]
    nl = "\n" + " " * sp["indent"] if sp["indent"] >= 0 else ""
    out = ['<?xml version="1.0" encoding="UTF-8"?>' + nl if sp["decl"] else "",
           "<graphml%s>" % (NS if sp["ns"] else "")]

    def text(t):
        if sp["cdata"] and t and "]]>" not in t:
            return "<![CDATA[%s]]>" % t
        if sp["comment"] and len(t) > 1:
            return escape(t[:1]) + "<!-- x -->" + escape(t[1:])
        if sp["charref"]:
            return "".join("&#%d;" % ord(c) if not c.isalnum() and c != " " or ord(c) > 127
                           else c for c in t)
        return escape(t)

    def data(x):
        return "<data key=%s>%s</data>" % (quoteattr(x["key"]), text(x["text"]))

    for k in doc["keys"]:
        at = " id=%s attr.name=%s" % (quoteattr(k["id"]), quoteattr(k["name"]))
        if k["for"]:
            at += " for=%s" % quoteattr(k["for"])
        if sp["decl"]:
            at += ' attr.type="string"'
        if k["default"] is None:
            out.append("<key%s/>" % at)
        else:
            out.append("<key%s>%s<default>%s</default>%s</key>"
                       % (at, nl, text(k["default"]), nl))
    for g in doc["graphs"]:
        out.append('<graph id=%s edgedefault="directed">' % quoteattr(g["id"]))
        for it in g["items"]:
            if it["kind"] == "data":
                out.append(data(it))
            elif it["kind"] == "node":
                out.append("<node id=%s>%s</node>" % (
                    quoteattr(it["id"]), nl + nl.join(data(x) for x in it["data"]) + nl))
            else:
                body = nl.join(data(x) for x in it["data"])
                at = "<edge source=%s target=%s" % (quoteattr(it["source"]),
                                                    quoteattr(it["target"]))
                out.append(at + (">%s</edge>" % body if body else "/>"))
        out.append("</graph>")
    out.append("</graphml>")
    return nl.join(out)


def outcome(doc, wanted=None):
    try:
        r = interpret(doc, wanted)
    except Bad:
        return ["DaesoError", None]
    if wanted is not None:
        if any(x not in r for x in wanted):
            return ["DaesoError", None]
    return ["ok", sorted([k, v] for k, v in r.items())]


def run_doc(case, w):
    doc = case["doc"]
    with TempDir(w) as d:
        r = w.call("graphs.graphml", dir=d, data=serialise(doc), cuts=case["cuts"],
                   wanted=case["wanted"])
    want = outcome(doc)
    labels = [want[0]]
    for k in ("full", "file", "chunks"):
        same(r[k][:1] if want[0] != "ok" else r[k],
             want[:1] if want[0] != "ok" else want, k)
    if want[0] == "ok":
        ids = sorted(g["id"] for g in doc["graphs"])
        same(r["bank"], [len(ids), ids, "graphml", True, True], "graphbank")
    sp = outcome(doc, case["wanted"])
    for k in ("sparse",):
        if sp[0] == "ok":
            same(r[k], sp, k)
        else:
            same(r[k][0], sp[0], k)
            for x in case["wanted"]:
                if not doc["bad"] and x not in [g["id"] for g in doc["graphs"]]:
                    check('"%s"' % x in r[k][1], "%s: the message %s does not name %s",
                          k, short(r[k][1]), x)
    after = any(i["kind"] == "data" and n and g["items"][n - 1]["kind"] != "data"
                for g in doc["graphs"] for n, i in enumerate(g["items"]))
    if after:
        labels.append("data_after")
    if any(k["default"] is not None for k in doc["keys"]):
        labels.append("default")
    if sp[0] == "ok" and case["wanted"]:
        labels.append("sparse_ok")
    if after or "default" in labels or want[0] != "ok":
        labels.append("nontrivial")
    return labels


text = st.one_of(
    st.sampled_from(["NP", "de man", "x", "a & b < c", "caf\u00e9 \u20ac", "\"q\" 'r'", "0"]),
    st.text("ab &<>\"'\u00e9\u4e2d]", min_size=1, max_size=8))
anytext = st.one_of(text, st.sampled_from(["", " ", "a\n b ", "  x", "a  b"]))
# not for tokens, which are split at whitespace
LABELS = ["a\u00a0b", "\u2028", "\U0001f600 \U00010400x", "\u0301", "\ufeffx", "\u200b"]
label = st.one_of(text, text, st.sampled_from(LABELS))
EXTRA = ["cat", "rel", "size"]


def enlarge(doc, rng):
    """more graphs, more nodes and edges, longer texts"""
    graphs = doc["graphs"]
    for k in range(3, rng.randint(4, 14)):
        graphs.append(dict(rng.choice(graphs), id="g%d" % k))
    for n, g in enumerate(graphs):
        items = [dict(i) for i in g["items"]]
        nodes = [i for i in items if i["kind"] == "node"]
        edges = [i for i in items if i["kind"] == "edge"]
        if nodes:
            for k in range(4, rng.randint(4, 24)):
                items.append(dict(rng.choice(nodes), id="n%d" % k))
            ids = [i["id"] for i in items if i["kind"] == "node"]
            for _ in range(rng.randint(0, 24)):
                items.append({"kind": "edge", "source": rng.choice(ids),
                              "target": rng.choice(ids),
                              "data": rng.choice(edges)["data"] if edges else []})
        if rng.random() < .3:
            more = rng.choice([" de man", " caf\u00e9", "&<>", "\n  b"]) * rng.randint(1, 2000)
            for i in items:
                if rng.random() < .2 and i["kind"] == "node":
                    i["data"] = [dict(x, text=x["text"] + more if x["text"] and
                                      rng.random() < .5 else x["text"]) for x in i["data"]]
                elif i["kind"] == "data" and i["key"] != "root" and i["text"]:
                    i["text"] = i["text"] + more
        graphs[n] = {"id": g["id"], "items": items}
    rng.shuffle(graphs)


@st.composite
def documents(draw, big=0):
    """big: one in so many is big"""
    keys = []

    def key(id, name, for_, default=None):
        keys.append({"id": id, "name": name, "for": for_, "default": default})

    tok_all = draw(st.booleans())
    default = st.one_of(st.none(), st.none(), text)
    if tok_all:
        key("tok", "tokens", draw(st.sampled_from([None, "all"])), draw(default))
        tk = {"graph": "tok", "node": "tok"}
    else:
        key("gt", "tokens", "graph", draw(default))
        key("nt", "tokens", "node", draw(default))
        tk = {"graph": "gt", "node": "nt"}
    key("lab", "label", "node", draw(default))
    key("root", "root", "graph", draw(default))
    if draw(st.booleans()):
        key(draw(st.sampled_from(["lab", "dep"])), "label", "edge", draw(default))
    for n in range(draw(st.integers(0, 3))):
        key("x%d" % draw(st.integers(0, 2)), draw(st.sampled_from(EXTRA)),
            draw(st.sampled_from([None, "all", "graph", "node", "edge"])), draw(default))
    # one key per id and domain
    seen, uniq = set(), []
    for k in keys:
        if (k["id"], k["for"] or "all") not in seen and \
                (k["name"], k["for"] or "all") not in seen:
            seen.add((k["id"], k["for"] or "all"))
            seen.add((k["name"], k["for"] or "all"))
            uniq.append(k)
    keys = draw(st.permutations(uniq))
    ids = {}
    for kind in ("graph", "node", "edge"):
        ids[kind] = sorted({k["id"] for k in keys if k["for"] in (None, "all", kind)})
    bad = draw(st.sampled_from([None] * 8 + ["key", "nolabel", "notokens", "nograph"]))
    names = {kind: {k["id"]: k["name"] for k in keys if k["for"] in (None, "all")}
             for kind in ids}
    for kind in ids:
        names[kind].update({k["id"]: k["name"] for k in keys if k["for"] == kind})

    def has_default(kind, name):
        return any(k["name"] == name and k["default"] for k in keys
                   if k["for"] in (None, "all", kind))

    def extra(kind):
        c = [i for i in ids[kind] if names[kind][i] != "label" and (
            kind == "edge" or names[kind][i] != "tokens")]
        if not c:
            return []
        return [{"key": k, "text": draw(st.one_of(anytext, label))}
                for k in draw(st.lists(st.sampled_from(c), max_size=2))]

    graphs = []
    for g in range(draw(st.integers(0, 3))):
        gid = "g%d" % g
        heads, body = [], []
        if bad != "nograph" and not (has_default("graph", "tokens") and draw(st.booleans())):
            heads.append({"kind": "data", "key": tk["graph"], "text": draw(anytext)})
        nodes = ["n%d" % i for i in range(draw(st.integers(0, 4)))]
        heads += [dict(x, kind="data") for x in extra("graph")]
        if nodes and draw(st.booleans()):
            heads.append({"kind": "data", "key": "root", "text": draw(st.sampled_from(nodes))})
        for n in nodes:
            data = extra("node")
            if bad == "key" and draw(st.booleans()):
                data.append({"key": "nokey", "text": "x"})
            if not (bad == "nolabel" and draw(st.booleans())) and \
                    not (has_default("node", "label") and draw(st.booleans())):
                data.append({"key": "lab", "text": draw(label)})
            if not (bad == "notokens" and draw(st.booleans())) and \
                    not (has_default("node", "tokens") and draw(st.booleans())):
                data.append({"key": tk["node"], "text": draw(anytext)})
            body.append({"kind": "node", "id": n, "data": draw(st.permutations(data))})
        if nodes:
            for _ in range(draw(st.integers(0, 5))):
                u, v = draw(st.sampled_from(nodes)), draw(st.sampled_from(nodes))
                data = extra("edge")
                c = [i for i in ids["edge"] if names["edge"][i] == "label"]
                if c and draw(st.booleans()):
                    data.append({"key": c[0], "text": draw(label)})
                at = max(i for i, x in enumerate(body)
                         if x["kind"] == "node" and x["id"] in (u, v)) + 1
                body.insert(draw(st.integers(at, len(body))),
                            {"kind": "edge", "source": u, "target": v, "data": data})
        for h in heads:
            body.insert(draw(st.one_of(st.just(0), st.integers(0, len(body)))), h)
        graphs.append({"id": gid, "items": body})
    style = {"indent": draw(st.sampled_from([-1, 0, 2])), "decl": draw(st.booleans()),
             "ns": draw(st.booleans()), "cdata": draw(st.booleans()),
             "comment": draw(st.booleans()), "charref": draw(st.booleans())}
    doc = {"keys": keys, "graphs": draw(st.permutations(graphs)), "style": style, "bad": bad}
    if big and graphs and not bad and draw(st.integers(1, big)) == big:
        enlarge(doc, random.Random(draw(st.integers(0, 2 ** 32))))
    return doc


TESTS = [
    Test("document", st.fixed_dictionaries({
        "doc": documents(big=15),
        "cuts": st.lists(st.one_of(st.integers(0, 4000), st.integers(0, 90000)), max_size=6),
        "wanted": st.lists(st.sampled_from(["g0", "g1", "g2", "g9", "g10"]), unique=True,
                           max_size=3)}), run_doc, 2400),
]
