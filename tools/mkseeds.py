#!/usr/bin/env python3
"""Writes and confirms the planted bugs: mkseeds.py [ID...]   (specs in seeds/*.py, scratch copy in /tmp/seedrepo)

For each: apply the edits in a scratch copy of /repo, take the diff, build, run the stable tests,
run the demonstration on the changed and on the unchanged copy."""
import glob, json, os, shutil, stat, subprocess, sys

T = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.dirname(T) + "/seeded"
W = "/tmp/seedrepo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
ENV["PATH"] += ":/root/.cargo/bin"
DEMO_SH = '#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
RUST_PY = 'import sys\nfrom demolib import *\nsys.exit(rust(%s))\n'


def sh(cmd, cwd=W):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def build():
    r = sh("cargo build --workspace --offline && cargo check -p texpresso --offline && "
           "cargo check -p texpresso_cli --no-default-features --offline")
    return r


def main():
    if not os.path.exists(W):
        subprocess.run(["cp", "-a", "/repo", W], check=True)
    head = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], stdout=subprocess.PIPE).stdout.decode().strip()
    sh("git fetch -q /repo HEAD && git checkout -q -f %s && git checkout -q -- ." % head)
    specs = {}
    for f in sorted(glob.glob(T + "/seeds/*.py")):
        ns = {}
        exec(open(f).read(), ns)
        for s in ns["SEEDS"]:
            specs[s["id"]] = s
    ids = sys.argv[1:] or list(specs)
    for i in ids:
        s = specs[i]
        d = OUT + "/" + i
        os.makedirs(d, exist_ok=True)
        with open(d + "/demo.sh", "w") as f:
            f.write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        shutil.copy(T + "/demolib.py", d)
        if "rust" in s:
            with open(d + "/demo.rs", "w") as f:
                f.write(s["rust"])
            with open(d + "/demo.py", "w") as f:
                f.write(RUST_PY % s.get("opts", ""))
        else:
            with open(d + "/demo.py", "w") as f:
                f.write(s["py"])
        with open(d + "/meta.json", "w") as f:
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
        sh("git checkout -q -- .")
        ok = True
        if "-nobase" not in s:
            b = build()
            r = sh(d + "/demo.sh")
            if r.returncode != 0:
                print(i, "DEMO FAILS ON UNCHANGED", r.stdout.decode()[-800:])
                ok = False
        for (path, old, new) in s["edits"]:
            p = W + "/" + path
            t = open(p).read()
            if t.count(old) != 1:
                print(i, "EDIT does not match once:", t.count(old), old[:60])
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        diff = sh("git diff").stdout
        with open(d + "/patch.diff", "wb") as f:
            f.write(diff)
        b = build()
        if b.returncode:
            print(i, "DOES NOT BUILD", b.stdout.decode()[-1500:])
            continue
        t = sh("cargo test --workspace --offline")
        if t.returncode:
            print(i, "TESTS FAIL", [l for l in t.stdout.decode().splitlines() if "FAILED" in l][:8])
            continue
        r = sh(d + "/demo.sh")
        if r.returncode == 0:
            print(i, "DEMO PASSES WITH THE BUG", r.stdout.decode()[-500:])
            continue
        print(i, "ok:", r.stdout.decode().strip().splitlines()[-1:][0][:150] if r.stdout.strip() else "")
    sh("git checkout -q -- .")


main()
