#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds.py (development tool; no check uses it).
usage: mkseed.py [id...]   generate;   mkseed.py -t id...   also confirm demo and run the check against a scratch copy"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from seeds import S
root = os.path.dirname(here)
args = sys.argv[1:]
test = "-t" in args
ids = [a for a in args if not a.startswith("-")] or sorted(S)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


for i in ids:
    s = S[i]
    wt = tempfile.mkdtemp(prefix="seed_")
    sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm b" % (wt, wt))
    for f, a, b in s["edits"]:
        t = open(wt + "/" + f).read()
        n = s.get("count", 1)
        assert t.count(a) == n, (i, f, a, t.count(a))
        open(wt + "/" + f, "w").write(t.replace(a, b))
    d = root + "/seeded/" + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % wt).stdout)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    n = s["demo"]
    shutil.copy(here + "/demos/%s.cc" % n, d + "/demo.cc")
    x = open(here + "/demos/%s.cc" % n).read().splitlines()
    ex = [l[len("// extract: "):] for l in x if l.startswith("// extract: ")]
    fl = " ".join(l[len("// flags: "):] for l in x if l.startswith("// flags: "))
    shutil.copy(root + "/vf/extract.py", d + "/ex.py")
    open(d + "/ex.py", "a").write('\n\nif __name__ == "__main__":\n    import sys\n    ex = [a[1:] for a in sys.argv[4:] if a[0] == "-"]\n'
                                  '    t, _ = extract(sys.argv[2], sys.argv[3].split(","), exclude=ex)\n    open(sys.argv[1], "a").write(t)\n')
    shutil.copytree(root + "/shim", d + "/shim")
    shutil.copy(here + "/demos/vf.h", d + "/shim/vf.h")
    open(d + "/demo.sh", "w").write("#!/bin/bash\n# exit 0: the property holds on the demonstrated input; 1: it does not\n"
                                    "here=\"$(cd \"$(dirname \"$0\")\" && pwd)\"\nrepo=\"$PWD\"\nd=$(mktemp -d)\ntrap 'rm -rf -- \"$d\"' EXIT\n" +
                                    "".join("python3 \"$here/ex.py\" \"$d/%s\" \"$repo/%s\" '%s' %s || exit 2\n" % (e.split()[0], e.split()[1], e.split()[2], " ".join("-" + q for q in e.split()[3:])) for e in ex) +
                                    "clang++ -std=c++17 -O1 -w -I\"$d\" -I\"$here/shim\" -I\"$repo\" \"$here/demo.cc\" -o \"$d/demo\" -lfmt %s || exit 2\ntimeout 200 \"$d/demo\"\n" % fl)
    os.chmod(d + "/demo.sh", 0o755)
    if test:
        a = sh("bash %s/demo.sh" % d, cwd="/repo")
        b = sh("bash %s/demo.sh" % d, cwd=wt)
        e = dict(os.environ, VF_REPO=wt, VF_EVDIR="/tmp")
        c = sh("cd %s && timeout 900 ./check %s quick" % (root, s["property"]), env=e)
        print(i, "demo unchanged:", a.returncode, "patched:", b.returncode, (b.stdout + b.stderr)[-200:].strip(), "| check:", c.returncode, [l for l in c.stdout.splitlines() if "VIOL" in l][:2] or c.stdout[-300:], flush=True)
    shutil.rmtree(wt)
