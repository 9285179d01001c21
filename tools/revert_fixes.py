#!/usr/bin/env python3
"""for every fix listed in known_findings.txt: revert it in a scratch worktree
and report whether the check of its property notices.  Not run by any check."""
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TREE = "/tmp/verif-revert"


def sh(*cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


only = sys.argv[1:]
sh("git", "-C", "/repo", "worktree", "remove", "--force", TREE)
sh("git", "-C", "/repo", "worktree", "add", "--detach", TREE, "HEAD")
for line in open(os.path.join(VERIF, "known_findings.txt")):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", line)
    if not m or (only and m.group(1) not in only and m.group(2) not in only):
        continue
    prop, commit, what = m.groups()
    r = sh("git", "-C", TREE, "revert", "-n", commit)
    if r.returncode:
        print(prop, commit, "CONFLICT", what)
    else:
        r = sh("python3-vt", os.path.join(VERIF, "check.py"), prop, cwd=VERIF,
               env=dict(os.environ, VERIF_REPO=TREE))
        msg = [x for x in r.stdout.split("\n") if x.strip()]
        print(prop, commit, {0: "MISSED", 1: "caught"}.get(r.returncode, r.returncode), what,
              "|", msg[0][:150] if msg else "", flush=True)
    sh("git", "-C", TREE, "revert", "--abort")
    sh("git", "-C", TREE, "reset", "-q", "--hard", "HEAD")
sh("git", "-C", "/repo", "worktree", "remove", "--force", TREE)
sh("git", "-C", "/repo", "worktree", "prune")
