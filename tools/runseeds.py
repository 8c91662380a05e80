#!/usr/bin/env python3
"""Runs the checks against planted bugs: runseeds.py [--all-checks] [ID...].  Applies each patch in a private copy
of /repo and of /verif (under /tmp/seedrun), never in /repo. By default only the bug's own property is checked."""
import glob, json, os, re, subprocess, sys, time
V, S = "/verif", "/tmp/seedrun"
allc = "--all-checks" in sys.argv
extra = [a[8:] for a in sys.argv if a.startswith("--props=")]
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
def sh(c, cwd=None, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
os.makedirs(S, exist_ok=True)
sh("rsync -a --delete --exclude target /repo/ %s/repo/ || (mkdir -p %s/repo && cp -a /repo/. %s/repo/)" % (S, S, S))
os.makedirs(S + "/verif", exist_ok=True)
sh("cp -a harness check.py known_findings.json cli.Cargo.lock regress %s/verif/" % S, V)
sh("sed -i 's#/repo/lib#%s/repo/lib#' %s/verif/harness/Cargo.toml" % (S, S))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
props.remove("N01")
for i in ids:
    sh("git checkout -q -- . && git apply %s/seeded/%s/patch.diff" % (V, i), S + "/repo")
    own = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
    res = []
    for p in (extra[0].split(",") if extra else props if allc else [own]):
        t = time.time()
        r = sh("timeout 900 python3 check.py " + p, S + "/verif", dict(os.environ, TEXPRESSO_REPO=S + "/repo"))
        out = r.stdout.decode(errors="replace")
        if r.returncode == 1 and "VIOLATION property=" + p in out:
            res.append(p)
            msg = [l for l in out.splitlines() if l.startswith(("VIOLATION",)) is False][-1:]
            if p == own:
                print("   ", msg[0][:220] if msg else "")
        elif r.returncode != 0:
            res.append(p + "(rc%d)" % r.returncode)
            print(out[-600:])
    print(i, "CAUGHT by " + " ".join(res) if res else "MISSED", flush=True)
