"""automatic text alignment"""
import math
import os
import string

from hypothesis import strategies as st

from core import TempDir, Test, check, close, same
from props.ptcgen import (flat, hitaext, index, link_elem, link_of, trees, write_text,
                          write_tree)

RULE = ("one to three successive automatic alignments of two generated documents of up to 14 "
        "elements with existing links, all term, weight, similarity and filter functions, "
        "scopes, ignored tags, clearing or keeping, reused document trees; generated scores "
        "for the filters; non-trivial: some but not all pairs of focus elements are linked, or "
        "the filter drops a crossing pair")
ASSUMPTIONS = ["The stop word list (package daeso_nl) is not part of the framework; a stand-in with "
               "three words replaces it.",
               "Whether the link between both roots, taken for granted without scope, appears "
               "in the result is left open."]
TERMS = ["word_n_gram_factory", "char_n_gram_factory", "preproc_word_n_gram_factory",
         "preproc_stopword_word_n_gram_factory", "preproc_char_n_gram_factory"]
SIMS = ["equals_sim", "jaccard_sim", "dice_sim", "cosine_sim", "tanimoto_sim", "type_match_sim",
        "overlap_min_sim", "overlap_max_sim", "weighted_cosine_sim"]
WORDS = ["de", "kat", "Kat", "slaapt", ".", "een", "()", "hond", "caf\u00e9"]
STOP = {"de", "het", "een"}
sentence = st.lists(st.sampled_from(WORDS), max_size=4).map(" ".join)


# --- reference ---

def terms_of(text, spec):
    name, n = spec or ["word_n_gram_factory", 1]
    if name == "word_n_gram_factory":
        toks = text.split()
    elif name == "char_n_gram_factory":
        toks = list(text)
    elif name == "preproc_word_n_gram_factory":
        toks = [t.lower() for t in text.split() if t not in string.punctuation]
    else:
        toks = [t for t in text.lower().split() if t not in STOP and t not in string.punctuation]
        if name == "preproc_char_n_gram_factory":
            toks = list(" ".join(toks))
    return [" ".join(toks[i:i + n]) for i in range(len(toks) - n + 1)]


def div(a, b):
    return a / b if b else 0.0


def sim_of(name, a, b, wa, wb):
    A, B = set(a), set(b)
    i, la, lb = len(A & B), len(a), len(b)
    if name in (None, "equals_sim"):
        return float(a == b)
    if name == "weighted_cosine_sim":
        dot = sum(x * y for x, y in zip(wa, wb))
        return div(dot, math.sqrt(sum(x * x for x in wa) * sum(x * x for x in wb)))
    return {"jaccard_sim": div(i, len(A | B)), "dice_sim": div(2 * i, la + lb),
            "cosine_sim": div(i, math.sqrt(la * lb)), "tanimoto_sim": div(i, la + lb - i),
            "type_match_sim": i, "overlap_min_sim": div(i, min(la, lb)),
            "overlap_max_sim": div(i, max(la, lb))}[name]


def weights_of(docs):
    vocab = sorted({t for d in docs for t in d})
    n = len(docs)
    scale = (math.log(n) if n > 1 else 1.0) or 1.0
    df = {t: sum(t in d for d in docs) for t in vocab}
    return [[math.log(n / df[t]) / scale * (t in d) for t in vocab] for d in docs]


def crossing(p, q):
    return (p[0] < q[0] and p[1] > q[1]) or (p[0] > q[0] and p[1] < q[1])


def greedy(scores, threshold):
    """[(score, i, j)] kept by the no-crossing filter; None if ties matter"""
    kept = []
    todo = sorted((s for s in scores if s[0] >= threshold), key=lambda s: -s[0])
    for n, s in enumerate(todo):
        if any(abs(s[0] - t[0]) < 1e-9 and crossing(s[1:], t[1:]) for t in todo if t is not s):
            return None
        if not any(crossing(s[1:], k[1:]) for k in kept):
            kept.append(s)
    return kept


def descendants(tree):
    """for each element in document order the range of its descendants"""
    out = []

    def walk(node):
        k = len(out)
        out.append(None)
        for c in node[3]:
            walk(c)
        out[k] = range(k + 1, len(out))
    walk(tree)
    return out


class Skip(Exception):
    """the outcome depends on ties or rounding"""


def simulate(t1, t2, links, run, ignore):
    """links after one automatic alignment, as ordered lists per source"""
    e1, e2 = flat(t1), flat(t2)
    x1, x2 = index(t1, ignore[0])[1], index(t2, ignore[1])[1]
    d1, d2 = descendants(t1), descendants(t2)
    focus = run["focus"]
    if run["clear"] is not False:
        links = [l for l in links
                 if e1[l[0]][0] != focus[0] and e2[l[1]][0] != focus[1]]
    al = {k: [] for k in range(len(e1))}
    for i, j in links:
        al[i].append(j)
    if run["scope"]:
        scopes = [(i, j) for i in range(len(e1)) if e1[i][0] in run["scope"][0]
                  for j in al[i] if e2[j][0] in run["scope"][1]]
    else:
        scopes = [(0, 0)]
    considered = 0
    for a, b in scopes:
        src = [i for i in d1[a] if e1[i][0] == focus[0] and not x1[i][1]]
        tgt = [j for j in d2[b] if e2[j][0] == focus[1] and not x2[j][1]]
        if not src or not tgt:
            continue
        st_, tt = [terms_of(x1[i][0], run["term"]) for i in src], [terms_of(x2[j][0], run["term"]) for j in tgt]
        ws = weights_of(st_ + tt) if run["weight"] else [None] * (len(src) + len(tgt))
        scores = []
        for p, i in enumerate(src):
            for q, j in enumerate(tgt):
                scores.append((sim_of(run["sim"], st_[p], tt[q], ws[p], ws[len(src) + q]), i, j))
        considered += len(scores)
        f = run["filter"]
        if f and len(f) > 1:
            if run["sim"] == "weighted_cosine_sim" and any(abs(s[0] - f[1]) < 1e-9 for s in scores):
                raise Skip()
            if f[0] == "threshold_filter_factory":
                scores = [s for s in scores if s[0] > f[1]]
            else:
                scores = greedy(scores, f[1])
                if scores is None:
                    raise Skip()
        for _, i, j in scores:
            if j not in al[i]:
                al[i].append(j)
    return al, considered


@st.composite
def sections(draw):
    """a document of sections of sentences"""
    def sent(tag="s"):
        kids = [[draw(st.sampled_from(["w", "w", "s"])), None, draw(sentence), [], ""]
                for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2])))]
        return [tag, None, draw(sentence), kids, draw(st.sampled_from(["", "\n", "kat"]))]
    secs = []
    many = draw(st.integers(0, 19)) == 19
    for _ in range(draw(st.integers(1, 3 + 2 * many))):
        kids = [sent(draw(st.sampled_from(["s", "s", "s", "s", "p"])))
                for _ in range(draw(st.integers(1, 4 + 8 * many)))]
        secs.append([draw(st.sampled_from(["q", "q", "q", "p"])), None, "", kids, ""])
    return ["doc", None, "", secs, ""]


@st.composite
def align_cases(draw):
    tags = ["p", "s", "s", "s", "w"]
    if draw(st.sampled_from([True, True, True, False])):
        t1, t2 = draw(sections()), draw(sections())
    else:
        t1 = draw(trees(14, tags, "doc", sentence))
        t2 = draw(trees(14, tags, "doc", sentence))
    method = draw(st.sampled_from([None, "n", "id"]))
    if method == "id" or draw(st.booleans()):
        t1, t2 = fresh(t1), fresh(t2)
    n1, n2 = len(flat(t1)), len(flat(t2))
    links = draw(st.lists(st.tuples(st.integers(0, n1 - 1), st.integers(0, n2 - 1)).map(list),
                          max_size=6 if n1 < 17 else 20, unique_by=tuple))
    runs = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        scope = draw(st.sampled_from([None, [["q"], ["q"]], [["p", "q"], ["p", "q"]],
                                      [["doc"], ["doc"]], [["p"], ["doc", "q"]]]))
        focus = draw(st.sampled_from([["s", "s"]] * 5 + [["s", "w"], ["w", "w"], ["p", "s"]]))
        if scope and any(f in s for f, s in zip(focus, scope)):
            focus = ["s", "s"]
        sim = draw(st.sampled_from(SIMS + [None]))
        runs.append({
            "focus": focus, "scope": scope, "sim": sim,
            "term": draw(st.one_of(st.none(), st.tuples(st.sampled_from(TERMS), st.integers(1, 2)).map(list))),
            "weight": "tf_idf_indicator_weight" if sim == "weighted_cosine_sim"
                      else draw(st.sampled_from([None, "no_weight", None])),
            "filter": draw(st.sampled_from([
                None, ["no_filter"], ["threshold_filter_factory", 0.2],
                ["threshold_filter_factory", 0.6], ["threshold_filter_factory", 0],
                ["no_cross_filter_factory", 0.3], ["no_cross_filter_factory", 0.01],
                ["no_cross_filter_factory", 1], ["no_cross_filter_factory", -1]])),
            "clear": draw(st.sampled_from([None, None, True, False])),
            "trees": draw(st.sampled_from([False, False, True]))})
        for _ in range(draw(st.sampled_from([0, 1, 2, 3])) if scope else 0):
            q1 = [i for i, e in enumerate(flat(t1)) if e[0] in scope[0]]
            q2 = [i for i, e in enumerate(flat(t2)) if e[0] in scope[1]]
            if q1 and q2:
                link = [draw(st.sampled_from(q1)), draw(st.sampled_from(q2))]
                if link not in links:
                    links.append(link)
    return {"t1": t1, "t2": t2, "method": method, "links": links, "runs": runs,
            "ignore": draw(st.sampled_from([None] * 4 + [[["p"], []], [["w"], ["p"]],
                                                         [[], ["p", "w"]], [["q"], ["p"]]])),
            "write": draw(st.booleans())}


def fresh(tree):
    """identifiers unique over the whole document"""
    k = [0]

    def walk(node):
        k[0] += 1
        return [node[0], "i%d" % k[0], node[2], [walk(c) for c in node[3]], node[4]]
    return walk(tree)


def run_align(case, w):
    t1, t2 = case["t1"], case["t2"]
    n1, n2 = len(flat(t1)), len(flat(t2))
    method = case["method"]
    with TempDir(w) as d:
        names = [os.path.join(d, f) for f in ("t1.xml", "t2.xml")]
        write_tree(names[0], t1)
        write_tree(names[1], t2)
        doc = os.path.join(d, "h.htd")
        write_text(doc, hitaext(names[0], names[1],
                                [link_of(t1, t2, i, j, method) for i, j in case["links"]], method))
        runs = [dict(r, ignore=case["ignore"]) for r in case["runs"]]
        got = w.call("ptc.align", doc=doc, runs=runs, write=case["write"])
    known = {}
    for i in range(n1):
        for j in range(n2):
            known[str(link_elem(link_of(t1, t2, i, j, method), method))] = [i, j]
    links = case["links"]
    labels = set()
    for r, g in zip(case["runs"], got):
        found = []
        for l in g:
            key = str([l[0], [list(x) for x in l[1]]])
            check(key in known, "link %r does not join two elements", l)
            found.append(known[key])
        same([i for i, j in found], sorted(i for i, j in found), "source elements of the links")
        check(len(set(map(tuple, found))) == len(found) or
              len(set(map(tuple, links))) < len(links), "links given twice: %r", found)
        before, links = links, found
        try:
            al, considered = simulate(t1, t2, before, r, case["ignore"] or [[], []])
        except Skip:
            labels.add("ties")
            continue
        for i in range(n1):
            loose = {0} if i == 0 and not r["scope"] else set()
            same(sorted({j for a, j in found if a == i} - loose), sorted(set(al[i]) - loose),
                 "elements aligned to source element %d <%s> by %r" % (i, flat(t1)[i][0], r))
        new = sum(len(v) for k, v in al.items() if k) - len(before)
        if considered and 0 < new < considered:
            labels.add("nontrivial")
        if considered:
            labels.add("considered")
            labels.add("scope" if r["scope"] else "no_scope")
            if r["trees"]:
                labels.add("trees")
    return sorted(labels)


# --- filters and term functions on their own ---

@st.composite
def filter_cases(draw):
    pairs = draw(st.lists(st.tuples(st.integers(1, 12), st.integers(1, 12)), max_size=14, unique=True))
    vals = st.sampled_from([0.0, 0.25, 0.5, 0.75, 1.0]) if draw(st.booleans()) else st.integers(0, 60).map(lambda x: x / 64)
    return {"scores": [[draw(vals), i, j] for i, j in pairs],
            "threshold": draw(st.sampled_from([0, 0.25, 0.5, 0.75, 1, 0.3, -1])),
            "filter": draw(st.sampled_from(["no_cross_filter_factory", "no_cross_filter_factory",
                                            "threshold_filter_factory", "no_filter"]))}


def run_filter(case, w):
    th = None if case["filter"] == "no_filter" else case["threshold"]
    got = w.call("ptc.filters", filter=case["filter"], threshold=th, scores=case["scores"])
    scores = [list(s) for s in case["scores"]]
    if case["filter"] == "no_filter":
        same(got, scores, "scores without filter")
        return []
    if case["filter"] == "threshold_filter_factory":
        same(got, [s for s in scores if s[0] > th], "scores above %r" % th)
        return []
    passing = [s for s in scores if s[0] >= th]
    for s in got:
        check(s in passing, "score %r is not among those of at least %r", s, th)
    same(len(set(map(tuple, got))), len(got), "kept scores")
    for s in got:
        for t in got:
            check(not crossing(s[1:], t[1:]), "kept %r and %r cross", s, t)
    for s in passing:
        if s not in got:
            check(any(crossing(s[1:], t[1:]) and t[0] >= s[0] for t in got),
                  "%r is dropped, but crosses no kept pair of at least its score: %r", s, got)
    want = greedy([tuple(s) for s in passing], th)
    labels = ["ties"] if want is None else []
    if len(got) < len(passing):
        labels.append("nontrivial")
    return labels


@st.composite
def func_cases(draw):
    text = st.lists(st.sampled_from(WORDS + ["HET", "\"", "x.", "!?"]), max_size=7).map("  ".join)
    a, b = draw(text), draw(text)
    return {"texts": [a, b], "n": draw(st.integers(1, 3)),
            "weights": [[draw(st.integers(0, 4)) / 2 for _ in range(4)] for _ in "12"]}


def run_funcs(case, w):
    calls, want = [], []
    for t in case["texts"]:
        for name in TERMS:
            calls.append([name, [case["n"]], [t]])
            want.append(terms_of(t, [name, case["n"]]))
    got = w.call("ptc.textfuncs", calls=calls)
    for c, g, x in zip(calls, got, want):
        same(g, x, "terms of %r by %s" % (c[2][0], c[0]))
    ta, tb = [terms_of(t, None) for t in case["texts"]]
    wa, wb = case["weights"]
    got = w.call("ptc.textfuncs", calls=[[s, [], [ta, tb, wa, wb]] for s in SIMS]
                 + [["no_weight", [], [[ta, tb]]], ["tf_idf_indicator_weight", [], [[ta, tb]]]])
    for name, g in zip(SIMS, got):
        x = sim_of(name, ta, tb, wa, wb)
        check(close(g, x), "%s is %r, expected %r", name, g, x)
    same(got[-2], [None, None], "no weights")
    x = weights_of([ta, tb])
    for g, y in zip(got[-1], x):
        check(len(g) == len(y) and all(close(p, q) for p, q in zip(g, y)),
              "weights %r, expected %r", got[-1], x)
    return ["nontrivial"] if set(ta) & set(tb) and set(ta) != set(tb) else []


TESTS = [
    Test("align", align_cases(), run_align, 1500),
    Test("filter", filter_cases(), run_filter, 1200),
    Test("functions", func_cases(), run_funcs, 500),
]
