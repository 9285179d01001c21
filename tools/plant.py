"""Confirm planted bugs in a scratch worktree of /repo.

    python3 tools/plant.py [--no-tests] [--no-check] ID...

For each seeded/ID: the patch applies, touches original lines, the demo passes without and fails
with it, the stable tests still pass, and whether its property's check catches it.
"""
import json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(*argv, **kw):
    return subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def original_lines(tree, patch, base):
    """are all lines removed by the patch lines of the original commit?"""
    path, old, foreign = None, 0, []
    for line in open(patch):
        if line.startswith("--- a/"):
            path = line[6:].strip()
        elif line.startswith("@@"):
            old = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and not line.startswith("---"):
            blame = run("git", "-C", tree, "blame", "-s", "-l", "-L", "%d,%d" % (old, old), "HEAD", "--", path).stdout
            if not blame.lstrip("^").startswith(base[:20]):
                foreign.append("%s:%d %s" % (path, old, line.strip()))
            old += 1
        elif line.startswith(" "):
            old += 1
    return foreign


def demo(tree, where):
    with tempfile.TemporaryDirectory() as d:
        there = os.path.join(d, "demo")
        shutil.copytree(where, there, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        return run("bash", os.path.join(there, "demo.sh"), cwd=tree, timeout=300)


def main():
    argv = sys.argv[1:]
    tests = "--no-tests" not in argv
    check = "--no-check" not in argv
    base = run("git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD").stdout.split()[-1]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for ident in [a for a in argv if not a.startswith("--")]:
        where = os.path.join(VERIF, "seeded", ident)
        meta = json.load(open(os.path.join(where, "meta.json")))
        tree = tempfile.mkdtemp(prefix="plant-")
        os.rmdir(tree)
        run("git", "clone", "-q", "--shared", os.environ.get("VERIF_REPO", "/repo"), tree)
        notes = []
        try:
            before = demo(tree, where)
            if before.returncode:
                notes.append("DEMO FAILS ON BASE: " + before.stdout[-600:])
            patch = os.path.join(where, "patch.diff")
            applied = run("git", "-C", tree, "apply", patch)
            if applied.returncode:
                print(ident, "PATCH DOES NOT APPLY", applied.stdout, flush=True)
                continue
            notes += ["NOT ORIGINAL " + f for f in original_lines(tree, patch, base)]
            after = demo(tree, where)
            if not after.returncode:
                notes.append("DEMO PASSES WITH PATCH: " + after.stdout[-600:])
            else:
                notes.append("demo: " + after.stdout.strip().splitlines()[-1][:200] if after.stdout.strip() else "demo: silent")
            if tests:
                with tempfile.TemporaryDirectory() as d:
                    for name in ["/opt/vp/test.sh", "/opt/jy/env.sh", "/opt/jy/runtests.py"]:
                        text = open(name).read()
                        for new in ["/opt/jy/env.sh", "/opt/jy/runtests.py"]:
                            text = text.replace(new, os.path.join(d, os.path.basename(new)))
                        text = re.sub(r"/repo\b", tree, text)
                        open(os.path.join(d, os.path.basename(name)), "w").write(text)
                    out = os.path.join(d, "out.json")
                    run("bash", os.path.join(d, "test.sh"), out)
                    lost = stable - set(json.load(open(out))["passed"])
                    notes.append("tests pass" if not lost else "TESTS FAIL: %s" % sorted(lost)[:4])
            if check:
                done = run("python3-vt", os.path.join(VERIF, "check.py"), meta["property"], cwd=VERIF,
                           env=dict(os.environ, VERIF_REPO=tree, VERIF_SEED="1", VERIF_TIER="quick"))
                hit = re.findall(r"^VIOLATION property=(\S+)", done.stdout, re.M)
                notes.append("caught" if done.returncode == 1 and meta["property"] in hit
                             else "MISSED (exit %d) %s" % (done.returncode, done.stdout[-300:] if done.returncode not in (0, 1) else ""))
        finally:
            shutil.rmtree(tree, ignore_errors=True)
        print(ident, meta["property"], "; ".join(notes), flush=True)


main()
