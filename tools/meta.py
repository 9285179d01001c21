#!/usr/bin/env python3
"""the list of properties: writes properties.jsonl, MANIFEST.json and DESIGN.md"""
import ast
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": files,
                 "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                 "observe_at": observe, "hook_needed": None},
        technique=technique, note=note))


exec(open(os.path.join(VERIF, "tools", "props_data.py")).read())


def main():
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            d = {k: v for k, v in p.items() if k not in ("technique", "note")}
            f.write(json.dumps(d) + "\n")
    checks = []
    for p in PROPS:
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3-vt check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"],
            "technique": p["technique"], "level": "exploration",
            "level_note": p["note"],
            "evidence_file": "evidence/%s.json" % p["id"]})
    manifest = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
                "not_applicable": NOT_APPLICABLE, "notes": NOTES}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    design()


def assigned(path, names):
    """string constants assigned at the top of a module, and the tests"""
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) in names:
            if node.targets[0].id == "TESTS":
                out["TESTS"] = ["%s (%s)" % (c.args[0].value, c.args[3].value)
                                for c in node.value.elts]
            else:
                out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


def design():
    """DESIGN.md: tools/design.md with the lists of properties and planted bugs"""
    lines = []
    for p in PROPS:
        a = assigned(os.path.join(VERIF, "harness", "props", p["id"] + ".py"),
                     ("RULE", "TESTS", "ASSUMPTIONS"))
        lines += ["### %s %s" % (p["id"], p["title"]), "",
                  "* Ranges over: %s." % p["quantifier"]["text"],
                  "* Generated: %s." % a["RULE"],
                  "* Decided by: %s." % p["technique"],
                  "* Tests and cases (quick): %s." % ", ".join(a["TESTS"]),
                  "* Why tests do not settle it: %s" % p["why_tests_cant"]]
        lines += ["* Assumed: %s" % x for x in a.get("ASSUMPTIONS", [])]
        lines.append("")
    planted = ["| bug | property | needs | first | now |", "|---|---|---|---|---|"]
    missed = json.load(open(os.path.join(VERIF, "tools", "planted.json")))
    seeded = os.path.join(VERIF, "seeded")
    for i in sorted(os.listdir(seeded)):
        m = json.load(open(os.path.join(seeded, i, "meta.json")))
        planted.append("| %s | %s | %s | %s | %s |" % (
            i, m["property"], m["needs"].replace("|", "/"),
            "missed" if i in missed else "caught", missed.get(i, "caught")))
    text = open(os.path.join(VERIF, "tools", "design.md")).read()
    text = text.replace("{PROPERTIES}", "\n".join(lines)).replace("{PLANTED}", "\n".join(planted))
    with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
        f.write(text)


main()
