"""command lines of the tools"""
from hypothesis import strategies as st

from core import TempDir, Test, check, same

RULE = ("declarations of up to 6 options (values of several types and numbers, flags, counters, "
        "constants, repeated ones) and up to 3 positional arguments; up to 4 command lines for "
        "one parser, written from what they are to mean with options in any order, abbreviated, "
        "joined to their values or bundled, behind -- or in (nested) files, or with one mistake; "
        "any arguments at all, compared to Python's own parser; mutually exclusive options and arguments of a parent parser; "
        "help for such declarations with texts wrapped or kept, and defaults shown; "
        "non-trivial: at least two arguments are given or described")
LONG = ["--alpha", "--alp", "--alpine", "--beta", "--be-ta", "--gamma", "--with_all", "--verb"]
SHORT = ["-a", "-b", "-c", "-x", "-n", "-F"]
POS = ["file", "target", "rest"]
WORDS = ["x", "a b", "", "v1", "-", "alpha", "-1", "-3.5", "-.5", "1=2", "a/b.xml", "=", "é", "@"]
# an argument like any other only behind -- or joined to its option
DASHES = "--"
NUMBERS = {"int": ["1", "-1", "20", "0"], "float": ["1", "-3.5", "0.25", "-.5"],
           "even": ["2", "-4", "0"]}
VALUE = {"int": int, "float": float, "even": int, None: lambda x: x}
MAX = {None: 1, "?": 1, "*": 3, "+": 3, 1: 1, 2: 2}
MIN = {None: 1, "?": 0, "*": 0, "+": 1, 1: 1, 2: 2}


def words(typ, choices):
    return st.sampled_from(choices or (NUMBERS[typ] if typ else WORDS))


@st.composite
def valued(draw, nargs, action):
    """keyword arguments shared by options and positional arguments that take values"""
    kw, typ, choices = {}, None, None
    if nargs is not None:
        kw["nargs"] = nargs
    if draw(st.integers(0, 2)) == 0:
        typ = kw["type"] = draw(st.sampled_from(sorted(NUMBERS)))
    if draw(st.integers(0, 4)) == 0:
        choices = [w for w in (NUMBERS[typ][:2] if typ else ["v1", "alpha", "x"])]
        kw["choices"] = [VALUE[typ](w) for w in choices]
    if draw(st.integers(0, 4)) == 0 and nargs != 2:
        kw["metavar"] = "MV"
    if draw(st.booleans()) and action != "append":
        if nargs in ("*", "+", 2):
            kw["default"] = draw(st.sampled_from([[], [1, 2], 7]))
        else:
            kw["default"] = draw(st.one_of(words(typ, choices), st.just(7)))
    return kw, choices


HELP = [None, "some help", "the default is %(default)s", "long help about %(prog)s " * 6]


@st.composite
def option(draw):
    names = draw(st.sampled_from([1, 1, 2, 3]).flatmap(lambda k: {
        1: st.sampled_from(LONG + SHORT).map(lambda x: [x]),
        2: st.tuples(st.sampled_from(SHORT), st.sampled_from(LONG)).map(list),
        3: st.tuples(st.sampled_from(LONG), st.sampled_from(SHORT)).map(list)}[k]))
    action = draw(st.sampled_from([None, None, None, "store", "store_true", "store_true",
                                   "store_false", "count", "append", "store_const"]))
    kw, choices = {}, None
    if action in (None, "store", "append"):
        nargs = draw(st.sampled_from([None, None, None, "?", "*", "+", 1, 2]
                                     if action != "append" else [None, None, 2]))
        kw, choices = draw(valued(nargs, action))
        if nargs == "?" and draw(st.booleans()):
            kw["const"] = 99
        if action == "append" and draw(st.booleans()):
            kw["default"] = draw(st.sampled_from([[], ["p"]]))
    if action:
        kw["action"] = action
    if action == "store_const":
        kw["const"] = draw(st.sampled_from(["k", 7]))
    if action == "count" and draw(st.booleans()):
        kw["default"] = draw(st.sampled_from([0, 5]))
    if draw(st.integers(0, 3)) == 0:
        kw["dest"] = draw(st.sampled_from(["d1", "d2"]))
    if draw(st.integers(0, 6)) == 0:
        kw["required"] = True
    return {"names": names, "kw": kw, "words": choices}


def dest(arg):
    if "dest" in arg["kw"]:
        return arg["kw"]["dest"]
    long = [n for n in arg["names"] if n.startswith("--")] or arg["names"]
    return long[0].lstrip("-").replace("-", "_")


@st.composite
def declarations(draw):
    args, seen, dests = [], set(), set()
    groups = draw(st.sampled_from([[], [], ["one"], ["one", "two"]]))
    for a in draw(st.lists(option(), max_size=6)):
        if seen & set(a["names"]) or dest(a) in dests:
            continue
        seen.update(a["names"])
        dests.add(dest(a))
        args.append(a)
    free = draw(st.sampled_from([0, 0, 1, 2, 3]))  # which positional may vary in number
    for k, name in enumerate(POS[:draw(st.integers(0, 3))]):
        nargs = draw(st.sampled_from(["?", "*", "+"] if k + 1 == free else [None, None, 1, 2]))
        kw, choices = draw(valued(nargs, None))
        if nargs == "*" and kw.pop("choices", None):  # none of them is no choice
            choices = None
        if nargs not in ("?", "*"):
            kw.pop("default", None)
        elif nargs == "*" and isinstance(kw.get("default"), int):
            del kw["default"]
        args.append({"names": [name], "kw": kw, "words": choices})
    args = draw(st.permutations(args)) if draw(st.booleans()) else args
    for a in args:
        text = draw(st.sampled_from(HELP))
        if text:
            a["kw"]["help"] = text
        a["group"] = draw(st.sampled_from([None] + groups))
    kw = {}
    if draw(st.booleans()):
        kw["description"] = draw(st.sampled_from(["What the tool does. " * 7, "Does it.",
                                                  "First it\n\n  * reads\n  * writes\nand ends"]))
    if draw(st.integers(0, 3)) == 0:
        kw["epilog"] = "The end of it"
    if draw(st.integers(0, 3)) == 0:
        kw["fromfile_prefix_chars"] = "%"
    if draw(st.integers(0, 5)) == 0:
        kw["add_help"] = False
    daeso = draw(st.booleans())
    if draw(st.integers(0, 2)) == 0:
        kw["formatter_class"] = draw(st.sampled_from(
            ["HelpFormatter", "RawDescriptionHelpFormatter", "ArgumentDefaultsHelpFormatter"]))
    free = [a for a in args if a["names"][0].startswith("-")
            and not {"required", "default"} & set(a["kw"])
            and (a["kw"].get("nargs") != "?" or "const" in a["kw"])]
    alone = draw(st.permutations(free))[:draw(st.sampled_from([0, 0, 2, 3]))]
    must = draw(st.booleans()) and bool(alone)
    parent = draw(st.integers(0, 4)) == 0
    for a in args:
        a["in"] = "alone" if a in alone else "parent" if (
            parent and a["names"][0].startswith("-") and draw(st.booleans())) else ""
    return {"kw": kw, "daeso": daeso, "groups": groups, "args": args, "must": must}


def known(spec):
    """all option strings"""
    out = [n for a in spec["args"] for n in a["names"] if n.startswith("-")]
    if spec["kw"].get("add_help", True):
        out += ["-h", "--help"]
        # the parser declares these two together
    if spec["daeso"]:
        out += ["-v", "--version"]
    return out


def spellings(name, options):
    if not name.startswith("--"):
        return [name]
    return [name] + [name[:k] for k in range(3, len(name))
                     if name[:k] not in options
                     and [o for o in options if o.startswith(name[:k])] == [name]]


def initial(arg):
    kw = arg["kw"]
    action = kw.get("action")
    if action in ("store_true", "store_false"):
        return action == "store_false"
    default = kw.get("default")
    if isinstance(default, str):
        return VALUE[kw.get("type")](default)
    if default is None and kw.get("nargs") == "*" and not arg["names"][0].startswith("-"):
        return []
    return default


@st.composite
def line(draw, spec):
    """a command line and what it means"""
    options = known(spec)
    want = {dest(a) if a["names"][0].startswith("-") else a["names"][0]: initial(a)
            for a in spec["args"]}
    opts, uses = [a for a in spec["args"] if a["names"][0].startswith("-")], []
    for a in opts:
        kw = a["kw"]
        k = draw(st.sampled_from([0, 1, 1, 2])) if not kw.get("required") else 1
        uses += [a] * k
    alone = [a for a in opts if a["in"] == "alone"]
    if alone:                       # at most one of them
        one = draw(st.sampled_from(alone + [a for a in uses if a in alone]))
        uses = [a for a in uses if a not in alone or a is one]
        if spec["must"] and one not in uses:
            uses.append(one)
    uses = draw(st.permutations(uses))
    chunks = []                     # [tokens, takes more, is a bundle of flags]
    for a in uses:
        kw, d = a["kw"], dest(a)
        action = kw.get("action")
        name = draw(st.sampled_from(a["names"]))
        spelling = draw(st.sampled_from(spellings(name, options)))
        if action in (None, "store", "append"):
            n = kw.get("nargs")
            vals = draw(st.lists(words(kw.get("type"), a["words"]), min_size=MIN[n],
                                 max_size=MAX[n]))
            conv = [VALUE[kw.get("type")](v) for v in vals]
            value = (conv[0] if n is None else
                     (conv[0] if conv else kw.get("const")) if n == "?" else conv)
            if action == "append":
                want[d] = (want[d] or []) + [value]
            else:
                want[d] = value
            how = draw(st.sampled_from(["apart", "joined"]))
            if (how == "joined" and vals == ["x"] and name.startswith("--") and n != 2
                    and not a["words"]):
                vals = [DASHES]
                value = DASHES if n in (None, "?") else [DASHES]
                if action == "append":
                    want[d][-1] = value
                else:
                    want[d] = value
            if how == "joined" and len(vals) == 1 and n != 2:
                if name.startswith("--"):
                    chunks.append([[spelling + "=" + vals[0]], False, None])
                    continue
                if vals[0] and not vals[0].startswith("="):
                    chunks.append([[name + vals[0]], False, "last"])
                    continue
            chunks.append([[spelling] + vals, n in ("?", "*", "+") and len(vals) < 10,
                           "last" if n in (None, 1, 2) and len(name) == 2 else None])
        else:
            if action == "count":
                want[d] = (want[d] or 0) + 1
            elif action == "store_const":
                want[d] = kw["const"]
            else:
                want[d] = action == "store_true"
            chunks.append([[spelling], False, "flag" if len(name) == 2 else None])
    # bundle neighbouring short flags
    merged = []
    for c in chunks:
        if (merged and merged[-1][2] == "flag" and c[2] in ("flag", "last")
                and draw(st.booleans())):
            head = merged[-1][0]
            merged[-1] = [[head[0] + c[0][0][1:]] + c[0][1:], c[1], c[2]]
        else:
            merged.append(c)
    pos = [a for a in spec["args"] if not a["names"][0].startswith("-")]
    given = []
    where = draw(st.sampled_from(["end", "dashes", "middle", "spread"]))
    for a in pos:
        kw, n = a["kw"], a["kw"].get("nargs")
        vals = draw(st.lists(words(kw.get("type"), a["words"]), min_size=MIN[n], max_size=MAX[n]))
        if where == "dashes" and not a["words"] and not kw.get("type"):
            vals = [DASHES if v == "x" else v for v in vals]
        conv = [VALUE[kw.get("type")](v) for v in vals]
        if n is None:
            want[a["names"][0]] = conv[0]
        elif n == "?":
            if conv:
                want[a["names"][0]] = conv[0]
        elif n != "*" or conv:
            want[a["names"][0]] = conv
        given.append(vals)
    flat = [v for vals in given for v in vals]
    fixed = all(a["kw"].get("nargs") in (None, 1, 2) for a in pos)
    argv = []
    if where == "dashes" or not merged or merged[-1][1] or where == "end":
        dashes = (where == "dashes" and flat) or (bool(merged) and merged[-1][1] and flat)
        argv = [t for c in merged for t in c[0]] + (["--"] if dashes else []) + flat
    elif where == "middle" or not fixed:
        k = draw(st.sampled_from([i for i in range(len(merged) + 1)
                                  if i == 0 or not merged[i - 1][1]]))
        argv = [t for c in merged[:k] for t in c[0]] + flat + [t for c in merged[k:] for t in c[0]]
    else:
        rest = list(given)
        for i, c in enumerate(merged):
            while rest and (i == 0 or not merged[i - 1][1]) and draw(st.booleans()):
                argv += rest.pop(0)
            argv += c[0]
        argv += [v for vals in rest for v in vals]
    return {"argv": argv, "want": want, "n": len(uses) + len(flat)}


ERRORS = ["unknown", "missing", "surplus", "type", "valueless", "flag value", "help", "version",
          "ambiguous", "exclusive", "missing one of", "later choice"]


@st.composite
def wrong(draw, spec):
    """a command line with one mistake, or one that asks for help; None if there is none"""
    kind = draw(st.sampled_from(ERRORS))
    options = known(spec)
    good = draw(line(spec))
    argv, args = list(good["argv"]), spec["args"]
    opts = [a for a in args if a["names"][0].startswith("-")]
    if kind == "help" and "-h" in options:
        return {"argv": [draw(st.sampled_from(["-h", "--help"]))] + argv, "want": "help"}
    if kind == "version" and spec["daeso"]:
        return {"argv": [draw(st.sampled_from(["-v", "--version"]))] + argv, "want": "version"}
    if kind == "unknown":
        return {"argv": [draw(st.sampled_from(["--zeta", "-z", "--zeta=1", "-z1"]))] + argv,
                "want": "error"}
    if kind == "missing" and any(a["kw"].get("required") for a in opts):
        return {"argv": draw(st.sampled_from([[], ["x"]])), "want": "error"}
    if kind == "missing" and any(MIN[a["kw"].get("nargs")] for a in args
                                 if not a["names"][0].startswith("-")):
        return {"argv": [], "want": "error"}
    if kind == "surplus" and not any(a["kw"].get("nargs") in ("*", "+", "?") for a in args):
        return {"argv": argv + ["x" if "--" in argv else "1"], "want": "error"}
    alone = [a for a in opts if a["in"] == "alone"]
    flags = [a for a in alone if a["kw"].get("action", "store") not in ("store", "append")]
    if kind == "missing one of" and spec["must"]:
        pos = [a for a in args if not a["names"][0].startswith("-")]
        if not any(a["kw"].get("required") or a["words"] or a["kw"].get("type")
                   for a in opts + pos) and all(
                       a["kw"].get("nargs") is None for a in pos):
            return {"argv": ["x"] * len(pos), "want": "error"}
    if kind == "exclusive" and len(flags) > 1:
        return {"argv": [a["names"][0] for a in draw(st.permutations(flags))[:2]] + argv,
                "want": "error"}
    if kind == "type":
        typed = [a for a in opts if ("type" in a["kw"] or a["words"])
                 and a["kw"].get("nargs") is None]
        if typed:
            a = draw(st.sampled_from(typed))
            bad = ["1x", "", "1.5e", "7" if a["words"] or a["kw"].get("type") == "even" else "q"]
            return {"argv": [a["names"][0], draw(st.sampled_from(bad))] + argv, "want": "error"}
    many = [a for a in opts if a["words"] and a["kw"].get("nargs") in ("*", "+")]
    if many and "--" not in argv and (kind == "later choice" or draw(st.booleans())):
        a = draw(st.sampled_from(many))
        return {"argv": argv + [a["names"][0]] + a["words"][:1] * draw(st.integers(1, 3)) + ["7"],
                "want": "error"}
    if kind == "valueless":
        takes = [a for a in opts if a["kw"].get("action") in (None, "store", "append")
                 and MIN[a["kw"].get("nargs")]]
        if takes and "--" not in argv:
            return {"argv": argv + [draw(st.sampled_from(takes))["names"][0]], "want": "error"}
    if kind == "flag value":
        flags = [n for a in opts for n in a["names"] if n.startswith("--")
                 and a["kw"].get("action") in ("store_true", "store_false", "count")]
        if flags:
            return {"argv": [draw(st.sampled_from(flags)) + "=1"] + argv, "want": "error"}
    if kind == "ambiguous":
        heads = sorted({o[:k] for o in options if o.startswith("--") for k in range(3, len(o))})
        heads = [h for h in heads if h not in options
                 and len([o for o in options if o.startswith(h)]) > 1]
        if heads:
            return {"argv": [draw(st.sampled_from(heads))] + argv, "want": "error"}
    return good


@st.composite
def cases(draw):
    spec = draw(declarations())
    lines = draw(st.lists(st.one_of(line(spec), line(spec), line(spec), wrong(spec)),
                          min_size=1, max_size=4))
    files = {}
    if "fromfile_prefix_chars" in spec["kw"]:
        for k, l in enumerate(lines):
            if l["argv"] and draw(st.booleans()):
                i = draw(st.integers(0, len(l["argv"]) - 1))
                j = draw(st.integers(i, len(l["argv"])))
                if all("\n" not in t for t in l["argv"][i:j]):
                    files["f%d" % k] = t = l["argv"][i:j]
                    if draw(st.booleans()):             # and a file named in that file
                        i2 = draw(st.integers(0, len(t)))
                        files["g%d" % k] = t[i2:]
                        files["f%d" % k] = t[:i2] + ["%%g%d" % k]
                    l["argv"][i:j] = ["%%f%d" % k]
    return {"spec": spec, "lines": lines, "files": files}


def flat(text):
    return " ".join(text.split())


def check_help(spec, text):
    got = flat(text)
    check(text.startswith("usage: tool"), "help begins %r", text[:40])
    formatter = spec["kw"].get("formatter_class", "RawDescriptionHelpFormatter" if spec["daeso"]
                               else "HelpFormatter")
    for a in spec["args"]:
        for n in a["names"]:
            if n.startswith("-") or not {"metavar", "choices"} & set(a["kw"]):
                check(n in got, "no %r in the help: %s", n, text)
        if a["kw"].get("metavar"):
            check(a["kw"]["metavar"] in got, "no metavar in the help: %s", text)
        h = a["kw"].get("help")
        if h:
            default = a["kw"].get("default")
            if a["kw"].get("action") in ("store_true", "store_false"):
                default = a["kw"]["action"] == "store_false"
            if isinstance(default, str) and a["kw"].get("type"):
                default = a["kw"]["default"]
            h = h % {"prog": "tool", "default": default}
            h = flat(h)
            if (formatter == "ArgumentDefaultsHelpFormatter" and "default" not in h
                    and (a["names"][0].startswith("-") or a["kw"].get("nargs") in ("?", "*"))):
                h += " (default: %s)" % (default,)
            check(h in got, "no %r in the help: %s", h, text)
    for t in ("description", "epilog"):
        if t in spec["kw"]:
            check(flat(spec["kw"][t]) in got, "no %s in the help: %s", t, text)
            check((spec["kw"][t].rstrip() in text) == (
                formatter == "RawDescriptionHelpFormatter" or len(spec["kw"][t]) < 20),
                "%s wrapped or not: %s", t, text)
    for g in spec["groups"]:
        if any(a["group"] == g and not a["in"] for a in spec["args"]):
            check(g + ":" in text.split("\n"), "no group %r in the help: %s", g, text)


def run(case, w):
    spec = case["spec"]
    with TempDir(w) as d:
        got = w.call("cmdline.parse", cwd=d, spec={
            "kw": spec["kw"], "daeso": spec["daeso"], "groups": spec["groups"],
            "must": spec["must"],
            "args": [{k: a[k] for k in ("names", "kw", "group", "in")} for a in spec["args"]]},
            files=case["files"], lines=[l["argv"] for l in case["lines"]])
    labels = set()
    for l, (kind, value, out, err, kept) in zip(case["lines"], got):
        what = " for %r" % l["argv"]
        check(kept, "the list of arguments changed" + what)
        if isinstance(l["want"], dict):
            same([kind, value], ["ok", l["want"]], "result" + what + " " + err)
            same([out, err], ["", ""], "output" + what)
            labels.add("parsed")
            if l["n"] > 1:
                labels.add("nontrivial")
        elif l["want"] == "error":
            same([kind, value], ["exit", 2], "outcome" + what)
            same(out, "", "output" + what)
            check(err.startswith("usage: tool") and "\ntool: error: " in err,
                  "message %r" + what, err)
            labels.add("error")
        else:
            same([kind, value], ["exit", 0], "outcome" + what)
            if l["want"] == "help":
                check_help(spec, out + err)
            else:
                same((out + err).strip(), w.call("cmdline.version"), "version")
            labels.add(l["want"])
            if len(spec["args"]) > 1:
                labels.add("nontrivial")
    return sorted(labels)


@st.composite
def help_cases(draw):
    spec = draw(declarations())
    spec["kw"].pop("add_help", None)
    return {"spec": spec, "lines": [{"argv": ["-h"], "want": "help"}], "files": {}}


@st.composite
def loose_cases(draw):
    """command lines of any arguments at all"""
    spec = draw(declarations())
    spec["kw"].pop("fromfile_prefix_chars", None)
    spec["daeso"] = False
    names = [n for a in spec["args"] for n in a["names"] if n.startswith("-")] or ["-a"]
    vals = sorted({w for a in spec["args"] for w in
                   (a["words"] or NUMBERS.get(a["kw"].get("type")) or ["v1"])}) or ["v1"]
    token = st.one_of(
        st.sampled_from(names), st.sampled_from(names), st.sampled_from(vals), st.sampled_from(vals),
        st.sampled_from(WORDS + ["--", "-q b", "--zeta x", "-1x", "-1e5", "-5."]),
        st.sampled_from(names).flatmap(lambda n: st.integers(2, len(n)).map(lambda k: n[:k])),
        st.tuples(st.sampled_from(names), st.sampled_from(["=", ""]),
                  st.sampled_from(vals)).map(
                      lambda x: x[0] + x[2] if x[0][1] != "-" else "".join(x)),
        st.tuples(st.sampled_from(names), st.sampled_from(names)).map(lambda x: x[0] + x[1].lstrip("-")))
    return {"spec": spec, "lines": draw(st.lists(st.lists(token, max_size=7), min_size=1, max_size=6))}


def run_loose(case, w):
    spec = case["spec"]
    with TempDir(w) as d:
        got = w.call("cmdline.compare", cwd=d, spec={
            "kw": spec["kw"], "daeso": False, "groups": spec["groups"], "must": spec["must"],
            "args": [{k: a[k] for k in ("names", "kw", "group", "in")} for a in spec["args"]]},
            lines=case["lines"])
    labels = set()
    for argv, (both, rest, kept) in zip(case["lines"], got):
        check(kept, "the list of arguments %r changed", argv)
        if argv.count("--") > 1:        # Python's own drops too many
            continue
        same(both[0], both[1], "outcome of %r" % (argv,))
        same(rest[0], rest[1], "known and other arguments of %r" % (argv,))
        labels.add(str(both[0][0]))
        if both[0][0] == "ok" and len(argv) > 1:
            labels.add("nontrivial")
    return sorted(labels)


TESTS = [Test("loose", loose_cases(), run_loose, 800), Test("parsing", cases(), run, 1500), Test("help", help_cases(), run, 500)]
