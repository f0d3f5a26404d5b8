#!/usr/bin/env python3
"""overlay.py PROPERTY REPO TMP: writes TMP/overlay.json, which lays the harness packages of /verif/h
into the module of REPO (virtually, nothing is written there), and TMP/pkg, the package to build.

Checks named in REWRITE also get rewritten copies of some of the repository's own files (see tools/rewrite)."""
import json, os, subprocess, sys

prop, repo, tmp = sys.argv[1:4]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
h = os.path.join(here, "h")
rep = {}

def lay(sub, dst):
    src = os.path.join(h, sub)
    for root, _, files in os.walk(src):
        for f in files:
            if f.endswith(".go"):
                rel = os.path.relpath(os.path.join(root, f), src)
                rep[os.path.join(repo, dst, rel)] = os.path.join(root, f)

cfg = json.load(open(os.path.join(h, "checks.json")))
c = cfg[prop]
base = "internal/zzverif"
for lib in c.get("libs", []) + ["vk"]:
    lay(lib, base + "/" + lib)
lay("c/" + c["main"], base + "/c/" + c["main"])
for inject in c.get("inject", []):
    # a file of ours added to one of the repository's packages (glue to reach an unexported function)
    name, pkgdir = inject
    out = os.path.join(tmp, os.path.basename(name))
    subprocess.run([sys.executable, os.path.join(here, "tools", name), repo, out], check=True)
    rep[os.path.join(repo, pkgdir, "zz_verif_" + os.path.basename(out).replace(".py", "") + ".go")] = out
if c.get("rewrite"):
    exe = os.path.join(tmp, "rewrite")
    env = dict(os.environ, GOFLAGS="-mod=mod")
    subprocess.run(["go", "build", "-o", exe, "."], cwd=os.path.join(here, "tools", "rewrite"), check=True, env=env)
    out = os.path.join(tmp, "rw")
    os.makedirs(out)
    subprocess.run([exe, "-mode", c["rewrite"], "-repo", repo, "-out", out], check=True)
    for line in open(os.path.join(out, "map.txt")):
        a, b = line.rstrip("\n").split("\t")
        rep[a] = b
json.dump({"Replace": rep}, open(os.path.join(tmp, "overlay.json"), "w"), indent=1)
open(os.path.join(tmp, "pkg"), "w").write("./" + base + "/c/" + c["main"])
