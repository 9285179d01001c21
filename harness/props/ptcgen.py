"""generated text documents and Hitaext documents, and a reference index"""
import os
import string
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

TAGS = ["doc", "p", "s", "w", "head"]
TEXTS = ["", " ", "\n  ", "a", "De kat", " slaapt . ", "caf\u00e9\n", "x  y", "1 < 2 & 3", "\u20ac 5 "]
texts = st.sampled_from(TEXTS)


@st.composite
def trees(draw, size=14, tags=TAGS, root=None, text=texts, big=0):
    """[tag, id or None, text, [children], tail]; shape from a list of parent
    choices, identifiers unique per tag; big: one in so many is big"""
    n = draw(st.integers(1, size))
    if big and draw(st.integers(1, big)) == big:
        n = size * draw(st.integers(2, 5))
    nodes = []
    ids = draw(st.sampled_from(["all", "all", "some", "none"]))
    depth = draw(st.sampled_from([1, 2, 99]))
    for i in range(n):
        tag = root if root and i == 0 else draw(st.sampled_from(tags))
        has_id = ids == "all" or (ids == "some" and draw(st.booleans()))
        same_tag = sum(m[0] == tag for m in nodes)
        ident = "%s%d" % (draw(st.sampled_from(["", "n", "x.", "\u00e9"])), same_tag) if has_id else None
        node = [tag, ident, draw(text), [], draw(text) if i else ""]
        if i:
            back = min(len(nodes), depth)
            nodes[-draw(st.integers(1, back))][3].append(node)
        nodes.append(node)
    return nodes[0]


def flat(tree):
    """elements in document order"""
    out = [tree]
    for c in tree[3]:
        out += flat(c)
    return out


def to_xml(tree):
    tag, ident, text, children, tail = tree
    return "<%s%s>%s%s</%s>%s" % (
        tag, "" if ident is None else " id=" + quoteattr(ident), escape(text),
        "".join(to_xml(c) for c in children), tag, escape(tail))


def write_tree(path, tree):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write('<?xml version="1.0" encoding="utf-8"?>\n' + to_xml(tree))


def index(tree, ignore=(), newline=(), blankline=()):
    """the text of a tree, and for each element in document order
    (text it contains, whether it is ignored, start)"""
    recs = []

    def walk(node, start, ignored):
        ignored = ignored or node[0] in ignore
        rec = ["", ignored, start]
        recs.append(rec)
        text = "" if ignored else node[2].strip()
        for c in node[3]:
            part = walk(c, start + len(text), ignored)
            if not ignored:
                text += part
        rec[0] = text
        if not ignored:
            if node[0] in blankline:
                text += "\n\n"
            elif node[0] in newline:
                text += "\n"
        return text + node[4].strip()

    return walk(tree, 0, False), recs


def numbers(tree):
    """for each element in document order, its rank among those of its tag"""
    seen, out = {}, []
    for node in flat(tree):
        seen[node[0]] = seen.get(node[0], 0) + 1
        out.append(seen[node[0]])
    return out


def hitaext(from_name, to_name, links, method=None):
    """links: [from_tag, from_n or id, to_tag, to_n or id]"""
    key = "id" if method == "id" else "n"
    return ('<?xml version="1.0" encoding="utf-8"?>\n<hitaext>'
            '<from><filename>%s</filename><render><font /><elements /></render></from>\n'
            '<to><filename>%s</filename><render><font /><elements /></render></to>'
            '<alignment%s>%s</alignment></hitaext>' % (
                escape(from_name), escape(to_name),
                "" if method is None else ' method="%s"' % method,
                "".join('<link from_tag=%s from_%s=%s to_tag=%s to_%s=%s />' % (
                    quoteattr(a), key, quoteattr(str(b)), quoteattr(c), key, quoteattr(str(d)))
                    for a, b, c, d in links)))


def write_text(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def link_of(t1, t2, i, j, method):
    """the link between two elements given by position in document order"""
    a, b = flat(t1)[i], flat(t2)[j]
    if method == "id":
        return [a[0], a[1], b[0], b[1]]
    return [a[0], str(numbers(t1)[i]), b[0], str(numbers(t2)[j])]


def link_elem(link, method):
    key = "id" if method == "id" else "n"
    return ["link", sorted([["from_tag", link[0]], ["from_" + key, link[1]],
                            ["to_tag", link[2]], ["to_" + key, link[3]]])]


def with_ids(tree):
    """every element has an identifier, unique in its tag"""
    def walk(node, seen):
        seen[node[0]] = seen.get(node[0], 0) + 1
        out = [node[0], node[1] or "%s_%d" % (node[0], seen[node[0]]), node[2], [], node[4]]
        out[3] = [walk(c, seen) for c in node[3]]
        return out
    return walk(tree, {})
