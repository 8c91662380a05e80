#!/usr/bin/env python3
"""Check one property against /repo's working tree.

    check.py ID [--thorough]      exit 0 held, 1 VIOLATION line, 3 error of the check
    check.py --build              build everything (setup)

VERIF_SEED and VERIF_TIER are read from the environment.
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TEXPRESSO_REPO", "/repo")
TARGET = os.path.join(HERE, "target")
# properties about the image functions, whose code differs when the `rayon` feature is on
BOTH = {"C03", "C04", "C05", "C20", "C22"}
PAR_ONLY = {"C18"}  # the parallel build, compared with a serial process
# generated cases per run, relative to the counts written in the harness (ten to eighty seconds per quick run on eight cores)
SCALE = {"C01": 20, "C02": 12, "C03": 5, "C04": 2, "C05": 16, "C06": 24, "C07": 36, "C08": 30, "C09": 25, "C10": 30, "C11": 24, "C12": 45, "C13": 15,
         "C14": 20, "C15": 30, "C16": 24, "C17": 20, "C18": 2, "C19": 25, "C20": 10, "C21": 4, "C22": 20,
         "K01": 10, "K02": 8, "K03": 12, "K04": 12, "K05": 8, "K06": 12, "K07": 8, "K08": 12, "K09": 6, "K10": 20, "K11": 10}


def err(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(3)


def cargo(args, cwd):
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode(errors="replace")[-6000:])
        err("build failed: cargo " + " ".join(args))


def fresh(t):
    """cargo compares file times: see to it that sources put back with an old time are compiled again."""
    h = hashlib.sha256()
    for part in ("lib", "cli"):
        for d, ds, fs in os.walk(os.path.join(REPO, part)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for n in sorted(fs):
                f = os.path.join(d, n)
                if os.path.isfile(f) and not os.path.islink(f):
                    with open(f, "rb") as g:
                        b = g.read()
                    h.update(b"%s\0%d\0" % (os.fsencode(f), len(b)) + b)
    stamp = t + ".sources"
    try:
        with open(stamp) as f:
            same = f.read() == h.hexdigest()
    except OSError:
        same = False
    if not same:
        for f in glob.glob(os.path.join(t, "release", ".fingerprint", "texpresso*")):
            shutil.rmtree(f)
        os.makedirs(TARGET, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(h.hexdigest())


def build_vh(par):
    t = os.path.join(TARGET, "par" if par else "ser")
    fresh(t)
    cargo(["build", "--release", "--offline", "-q", "--target-dir", t] + (["--features", "par"] if par else []),
          os.path.join(HERE, "harness"))
    return os.path.join(t, "release", "vh")


def build_cli():
    lock = os.path.join(REPO, "Cargo.lock")  # git-ignored in /repo
    if not os.path.exists(lock):
        shutil.copy(os.path.join(HERE, "cli.Cargo.lock"), lock)
    t = os.path.join(TARGET, "cli")
    fresh(t)
    cargo(["build", "-q", "-p", "texpresso_cli", "--release", "--offline", "--target-dir", t], REPO)
    return os.path.join(t, "release", "texpresso")


def build_shim():
    """The library preloaded into the tool to disturb its file accesses."""
    os.makedirs(TARGET, exist_ok=True)
    src, out = os.path.join(HERE, "harness", "shim.c"), os.path.join(TARGET, "shim.so")
    tmp = "%s.%d" % (out, os.getpid())
    p = subprocess.run(["cc", "-O2", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode(errors="replace"))
        err("build failed: " + src)
    os.replace(tmp, out)
    return out


def cli_version():
    m = re.search(r'^version *= *"([^"]*)"', open(os.path.join(REPO, "cli", "Cargo.toml")).read(), re.M)
    return m.group(1) if m else ""


NOBODY = 65534


class Cage:
    """The tool is run by an unprivileged user who owns nothing but a scratch folder, so that a run that
    removes or replaces a wrong path can reach nothing real. Without the right to change users it runs as it is."""

    def __init__(self, files):
        self.dir = tempfile.mkdtemp(prefix="texpresso-check-")
        os.chmod(self.dir, 0o755)
        self.files = {}
        for n, f in files.items():
            self.files[n] = os.path.join(self.dir, n)
            (shutil.copytree if os.path.isdir(f) else shutil.copy)(f, self.files[n])
        self.kw = {}
        self.scratch, self.out = os.path.join(self.dir, "scratch"), os.path.join(self.dir, "out")
        for d in (self.scratch, self.out):
            os.mkdir(d)
        if os.getuid() == 0:
            try:
                for d in (self.scratch, self.out):
                    os.chown(d, NOBODY, NOBODY)
                kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
                subprocess.run(["/bin/true"], check=True, **kw)
                self.kw = kw
            except (OSError, subprocess.SubprocessError) as e:
                print("note: the tool runs without a user of its own: %s" % e, file=sys.stderr)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def fatal_case(cmd, vh, env, kw, tmp):
    """The code under test ended the whole process (stack overflow, abort): run the same cases again, each thread noting
    the case it is at, and find the one that does it. Returns the replay file."""
    d = tempfile.mkdtemp(prefix="journal-", dir=tmp)
    try:
        os.chmod(d, 0o777)
        subprocess.run(cmd, env=dict(env, VH_JOURNAL=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **kw)
        for n in sorted(os.listdir(d)):
            f = os.path.join(d, n)
            try:
                case = json.load(open(f))
            except ValueError:
                continue
            p = subprocess.run([vh, "replay", f], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
            if p.returncode < 0:
                case["message"] = "the process ends with signal %d: %s" % (-p.returncode, p.stderr.decode(errors="replace")[-300:])
                os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                r = os.path.join(HERE, "replays", "%s-%s.json" % (case["property"], case["facet"]))
                with open(r, "w") as g:
                    json.dump(case, g, indent=1)
                print(case["message"], file=sys.stderr)
                return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_findings(pid):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def main():
    if sys.argv[1:] == ["--build"]:
        build_vh(False), build_vh(True), build_cli(), build_shim()
        return 0
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    env = dict(os.environ)
    ser = build_vh(False) if pid not in PAR_ONLY or pid == "C18" else None
    runs = []
    if pid not in PAR_ONLY:
        runs.append(("serial", ser))
    if pid in BOTH | PAR_ONLY:
        runs.append(("parallel", build_vh(True)))
        env["VH_SERIAL"] = ser
    if pid.startswith("K"):
        env["VH_CLI"], env["VH_SHIM"], env["VH_VERSION"] = build_cli(), build_shim(), cli_version()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evfile = os.path.join(HERE, "evidence", pid + ".json")
    evs = {}
    rc = 0
    for name, vh in runs:
        tmp = evfile + "." + name
        if os.path.exists(tmp):
            os.remove(tmp)
        replays, regress, kw, ev, cage = os.path.join(HERE, "replays"), os.path.join(HERE, "regress"), {}, tmp, None
        if pid.startswith("K"):
            cage = Cage({"vh": vh, "texpresso": env["VH_CLI"], "shim.so": env["VH_SHIM"], "regress": regress})
            vh, regress, env["VH_CLI"], env["VH_SHIM"] = (cage.files[n] for n in ("vh", "regress", "texpresso", "shim.so"))
            replays, ev, kw = os.path.join(cage.out, "replays"), os.path.join(cage.out, "evidence"), dict(cage.kw, cwd=cage.dir)
            env["TMPDIR"] = cage.scratch
        cmd = [vh, "check", pid, "--tier", tier, "--seed", str(seed), "--evidence", ev,
               "--replays", replays, "--regress", regress,
               "--scale", str(SCALE.get(pid, 1)), "--limit", "7200" if thorough else "780"]
        try:
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, **kw)
            out = p.stdout.decode()
            if p.returncode < 0 and -p.returncode not in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
                f = fatal_case(cmd, vh, env, kw, cage.scratch if cage else None)
                if f:
                    out += "VIOLATION property=%s replay=%s\n" % (pid, f)
                    p.returncode = 1
            if cage:
                if os.path.exists(ev):
                    shutil.copy(ev, tmp)
                if os.path.isdir(replays):
                    shutil.copytree(replays, os.path.join(HERE, "replays"), dirs_exist_ok=True)
                out = out.replace(replays, os.path.join(HERE, "replays"))
        finally:
            if cage:
                cage.close()
        if os.path.exists(tmp):
            with open(tmp) as f:
                evs[name] = json.load(f)
            os.remove(tmp)
        if p.returncode not in (0, 1) or (p.returncode == 1 and "VIOLATION property=" + pid not in out):
            sys.stderr.write(out)
            err("%s run ended with status %d" % (name, p.returncode))
        sys.stdout.write(out)
        rc = p.returncode
        if rc:
            break
    if not evs:  # the process ended before it could write anything
        evs["-"] = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "violations": 1, "coverage": {
            "evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped at a case that ends the process", "facets": {},
            "samples": [json.load(open(out.split("replay=")[-1].strip()))]}}
    first = list(evs.values())[0]
    for name, e in list(evs.items())[1:]:
        c, d = first["coverage"], e["coverage"]
        c["evaluations"] += d["evaluations"]
        # the same cases may be generated for both builds: count them once
        c["distinct_nontrivial"] = max(c["distinct_nontrivial"], d["distinct_nontrivial"])
        c["build"] = "serial, then parallel"
        c["facets_parallel_build"] = d["facets"]
        first["violations"] += e["violations"]
    first["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(HERE, "known_findings.json")) as f:
        known = json.load(f)
    first["assumptions"] = known.get("assumptions", {}).get(pid, [])
    if not first["assumptions"]:
        del first["assumptions"]
    with open(evfile, "w") as f:
        json.dump(first, f, indent=1)
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    return rc


sys.exit(main())
