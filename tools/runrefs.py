#!/usr/bin/env python3
"""Run every check against behaviour-preserving edits (tools/refs.py) in a scratch copy; all must stay quiet. runrefs.py [--props=ID,ID…] [NAME…]
The names all-lib and cli-all stand for every edit of that part at once (an edit whose text another one took away is left out)."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refs import REFS
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/refrun"
env = dict(os.environ, TEXPRESSO_REPO=S + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
def sh(c, cwd=None): return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
os.makedirs(S + "/verif", exist_ok=True)
sh("cp -a harness check.py known_findings.json cli.Cargo.lock regress %s/verif/" % S, HERE)
sh("sed -i 's#/repo/lib#%s/repo/lib#' %s/verif/harness/Cargo.toml" % (S, S))
props = ["C%02d" % i for i in range(1, 23)] + ["K%02d" % i for i in range(1, 12)]
chosen = [a[8:].split(",") for a in sys.argv[1:] if a.startswith("--props=")]
if chosen: props = chosen[0]
for name in [a for a in sys.argv[1:] if not a.startswith("--")] or REFS:
    sh("rsync -rlpc --delete --exclude /target /repo/ %s/repo/" % S)
    part = {"all-lib": "lib/", "cli-all": "cli/"}.get(name)
    for f, old, new in [e for n in REFS for e in REFS[n] if e[0].startswith(part)] if part else REFS[name]:
        p = "%s/repo/%s" % (S, f); t = open(p).read()
        if part and old not in t: continue
        assert old in t, (name, f, old)
        open(p, "w").write(t.replace(old, new))
    r = sh("cargo test -q --workspace --offline", S + "/repo")
    tests = "tests pass" if r.returncode == 0 else "a test fails"
    bad = []
    only = [q for q in props if (q[0] == "K") == name.startswith("cli")]
    for q in only:
        r = sh("python3 check.py " + q, S + "/verif")
        if r.returncode: bad.append((q, r.returncode, r.stdout.decode(errors="replace")[-400:]))
    print(name, tests, "QUIET" if not bad else bad, flush=True)
