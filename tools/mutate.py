#!/usr/bin/env python3
"""Mutation analysis of the checks (development aid, not a check): mutate.py lib|cli OUT.jsonl [--scale X] [--only FILE] [--shard i/n]

Single-token changes in a scratch copy; those that build and pass the repository's tests are run through the checks."""
import json, os, random, re, subprocess, sys, time, hashlib
which, out = sys.argv[1], sys.argv[2]
def opt(k, d): return sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d
SCALE = opt("--scale", "0.3"); ONLY = opt("--only", ""); I, N = map(int, opt("--shard", "0/1").split("/"))
LIMIT = int(opt("--max", "100000"))
S = opt("--dir", "/tmp/mut")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0")
def sh(c, cwd=None, t=900, env=None):
    try:
        return subprocess.run(c, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    except subprocess.TimeoutExpired as e:
        class R: returncode = 124; stdout = b"timeout"
        subprocess.run("pkill -f %s/" % S, shell=True)
        return R
os.makedirs(S, exist_ok=True)
sh("rsync -a --delete --exclude /target /repo/ %s/repo/" % S)
os.makedirs(S + "/verif", exist_ok=True)
sh("cp -a harness check.py known_findings.json cli.Cargo.lock regress %s/verif/" % S, "/verif")
sh("sed -i 's#/repo/lib#%s/repo/lib#' %s/verif/harness/Cargo.toml" % (S, S))
files = (["lib/src/alpha.rs", "lib/src/colourblock.rs", "lib/src/colourset.rs", "lib/src/colourfit.rs", "lib/src/colourfit/range.rs",
          "lib/src/colourfit/cluster.rs", "lib/src/colourfit/single.rs", "lib/src/math.rs", "lib/src/lib.rs", "lib/src/math/vec3.rs", "lib/src/math/vec4.rs"]
         if which == "lib" else ["cli/src/main.rs", "cli/src/image/png.rs", "cli/src/image/jpeg.rs"])
if which == "lut": files = ["lib/src/colourfit/single_lut.rs"]
RULES = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
         (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" \+= ", [" = ", " -= "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
         (r"\.\.=", [".."]), (r"(?<=\w)\.\.(?=\w)", ["..="]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
         (r"\bif \(?!", ["if ("]), (r" \| ", [" & "]), (r" & ", [" | "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r"\bcontinue;", [""]), (r"\bbreak;", [""]),
         (r"(?<![\w.#])\d+\.\d+(?![\w.])", ["FLOAT"]), (r"(?<![\w.#])(0x[0-9A-F]+|\d+)(?=(u8|u32|i32|usize)?\b)(?!\.\d)", ["INT+", "INT-"]),
         (r"^(\s+)[\w.\[\]\*]+( as usize\])? [+*|-]?= [^;{]*;$", ["DEL"]), (r"^(\s+)[a-z_]+(\.|::)[^=;{]*;$", ["DEL"]),
         (r"\.x\(\)", [".y()"]), (r"\.z\(\)", [".x()"]), (r"\.splat_x", [".splat_y"]), (r"0 => 1", ["0 => 0"])]
muts = []
for f in files:
    src = open("/repo/" + f).read()
    end = src.find("#[cfg(test)]")
    pos = 0
    for ln, line in enumerate(src.splitlines(keepends=True)):
        start = pos; pos += len(line)
        if end >= 0 and start >= end: break
        code = line.split("//")[0]
        if not code.strip() or code.strip().startswith(("#", "use ", "mod ", "pub mod", "///", "assert")): continue
        if which == "lut":
            m = re.search(r"entry!\((\d+), (\d+), (\d+), (\d+), (\d+), (\d+)\)", code)
            if m:
                for g in (1, 2, 4, 5):
                    v = int(m.group(g))
                    for w in (v + 1, v - 1):
                        if 0 <= w < 32: muts.append((f, ln + 1, start + m.start(g), start + m.end(g), str(w)))
            continue
        for pat, reps in RULES:
            for m in re.finditer(pat, code.rstrip("\n") if "^" in pat else code):
                for r in reps:
                    t = m.group(0)
                    if r == "DEL": new = m.group(1)
                    elif r == "FLOAT": new = {"0.0": "1.0", "1.0": "0.0"}.get(t, repr(float(t) * 1.02 + 0.0))
                    elif r in ("INT+", "INT-"):
                        v = int(t, 0) + (1 if r == "INT+" else -1)
                        if v < 0: continue
                        new = str(v)
                    else: new = r
                    muts.append((f, ln + 1, start + m.start(), start + m.end(), new))
random.Random(7).shuffle(muts)
muts = [m for m in muts if not ONLY or ONLY in m[0]]
done = set()
if os.path.exists(out):
    for l in open(out):
        done.add(tuple(json.loads(l)["key"]))
CPROPS = ["C01", "C02", "C08", "C09", "C10", "C11", "C12", "C19", "C07", "C06", "C16", "C13", "C14", "C15", "C17", "C05", "C20", "C03", "C04"]
KPROPS = ["K08", "K01", "K03", "K04", "K06", "K07", "K02", "K05"]
if "--count" in sys.argv: print(len(muts)); sys.exit()
log = open(out, "a")
print(len(muts), "mutants")
n = 0
for k, m in enumerate(muts):
    f, ln, a, b, new = m
    key = [f, ln, a, b, new]
    if k % N != I or tuple(key) in done: continue
    n += 1
    if n > LIMIT: break
    src = open("/repo/" + f).read()
    p = S + "/repo/" + f
    open(p, "w").write(src[:a] + new + src[b:])
    r = {"key": key, "line": src.splitlines()[ln - 1].strip(), "new": (src[:a] + new + src[b:]).splitlines()[ln - 1].strip()}
    t = sh("timeout 120 cargo test -q --workspace --offline", S + "/repo", 200)
    o = t.stdout.decode(errors="replace")
    if t.returncode:
        r["result"] = "nobuild" if "could not compile" in o else "tests"
    else:
        V = S + "/verif"
        if which == "cli":
            t = sh("cargo build --release --offline -q -p texpresso_cli --target-dir %s/cli && cd %s/harness && cargo build --release --offline -q --target-dir %s/ser" % (S, V, S), S + "/repo")
        else:
            t = sh("cargo build --release --offline -q --target-dir %s/ser" % S, V + "/harness")
        if t.returncode:
            r["result"] = "nobuild2"; r["out"] = t.stdout.decode(errors="replace")[-500:]
        else:
            r["result"] = "survived"
            props = KPROPS if which == "cli" else ["C11"] if which == "lut" else CPROPS
            for q in props:
                t = sh("timeout 300 %s/ser/release/vh check %s --tier quick --seed 1 --scale %s --limit 250 --replays %s/rep" % (S, q, SCALE, S), V, 320, dict(ENV, VH_CLI=S + "/cli/release/texpresso"))
                if t.returncode == 1 and b"VIOLATION" in t.stdout:
                    r["result"] = "caught"; r["by"] = q; break
                if t.returncode:
                    r["result"] = "error"; r["by"] = q; r["out"] = t.stdout.decode(errors="replace")[-300:]; break
    open(p, "w").write(src)
    log.write(json.dumps(r) + "\n"); log.flush()
