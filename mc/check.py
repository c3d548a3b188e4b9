#!/usr/bin/env python3
"""Driver of the checks.

  check.py setup            build everything once (setup_cmd)
  check.py C01 [...]        run checks; tier from VERIF_TIER (quick|thorough)
  check.py list             what each check runs

Exit 0: held on everything explored. 1: VIOLATION line printed. 2: the check
itself failed (build error, engine error), which is never a verdict.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
sys.path.insert(0, HERE)
from jobs import CHECKS, CONFIGS, ENGINES  # noqa: E402


class Broken(Exception):
    pass


def env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    e.update(
        HOME=os.environ.get("HOME", "/root"),
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="0",
        CARGO_TERM_COLOR="never",
        RUSTUP_TOOLCHAIN="stable",
        RUSTC_WRAPPER="",
        VERIF_SEED=str(SEED),
        VERIF_TIER=TIER,
    )
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(extra or {})
    return e


def source_hash():
    h = hashlib.sha256()
    for top in ("src", "pyfnntw", "Cargo.toml", "README.md"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else []
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__"))
            files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            try:
                h.update(open(f, "rb").read())
            except OSError:
                pass
            h.update(b"\0")
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired as x:
        raise Broken(f"timed out after {timeout}s: {' '.join(cmd)}\n{(x.stdout or b'')[-2000:]}")


def freshen(td, bases, crate):
    """cargo decides by time stamps; make sure it rebuilds what changed"""
    os.makedirs(td, exist_ok=True)
    stamp = os.path.join(td, "repo.hash")
    cur = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != cur:
        if old:
            os.remove(stamp)
        for base in bases:
            fp = os.path.join(base, ".fingerprint")
            for d in os.listdir(fp) if os.path.isdir(fp) else []:
                if d.startswith(("fnntw-", "pyfnntw-", crate)):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    with open(stamp, "w") as f:
        f.write(cur)


def cargo_build(crate, cfg, bins, extra_args=(), extra_env=None, toolchain=None, out=None, release=True, target=None, tag="", features=()):
    """Build bins of a harness crate for one feature configuration, from /repo's
    current tree. Returns {bin: path}, copies private to this run."""
    td = os.path.join(BUILD, f"t_{os.path.basename(crate)}_{cfg}{tag}")
    feats = CONFIGS[cfg] + list(features)
    prof = "release" if release else "debug"
    with Lock(os.path.basename(td)):
        freshen(td, [os.path.join(td, prof), os.path.join(td, target or "-", prof)], os.path.basename(crate))
        cmd = ["cargo", "build", "--offline", "--target-dir", td]
        if release:
            cmd.append("--release")
        if target:
            cmd += ["--target", target]
        if feats:
            cmd += ["--features", ",".join(feats)]
        for b in bins:
            cmd += ["--bin", b]
        e = dict(extra_env or {})
        if toolchain:
            e["RUSTUP_TOOLCHAIN"] = toolchain
        r = sh(cmd + list(extra_args), 1500, cwd=crate, env=env(e))
        if r.returncode != 0:
            raise Broken(f"build failed ({os.path.basename(crate)} {cfg}{tag}):\n{r.stdout[-6000:]}")
        res = {}
        for b in bins:
            src = os.path.join(td, target, prof, b) if target else os.path.join(td, prof, b)
            if out:
                dst = os.path.join(out, f"{b}_{cfg}{tag}")
                shutil.copy2(src, dst)
                res[b] = dst
        return res


def cargo_lib(manifest, lib, extra_env, out):
    """Build a library of /repo's workspace in a target directory of our own."""
    td = os.path.join(BUILD, "t_" + os.path.basename(os.path.dirname(manifest)))
    lock = os.path.join(REPO, "Cargo.lock")  # ignored by git
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)
    with Lock(os.path.basename(td)):
        freshen(td, [os.path.join(td, "release")], "pyfnntw-")
        cmd = ["cargo", "build", "--release", "--offline", "--manifest-path", manifest, "--target-dir", td]
        cmd += ["--lib", "--config", "profile.release.lto=false", "--config", "profile.release.codegen-units=16"]
        r = sh(cmd, 1500, cwd=BUILD, env=env(extra_env))
        if r.returncode != 0:
            raise Broken(f"build failed ({manifest}):\n{r.stdout[-6000:]}")
        src = os.path.join(td, "release", lib)
        if out:
            shutil.copy2(src, os.path.join(out, lib))
            return os.path.join(out, lib)
        return src


BUDGET = {"quick": 760, "thorough": 6 * 3600}
T0 = time.time()


def cap(caps):
    """seconds a job may explore: its own limit, or what is left for the check"""
    return int(max(10, min(caps[TIER], BUDGET[TIER] - (time.time() - T0))))


def run_report(cmd, d, timeout, e=None):
    """Run an engine that leaves d/report.json."""
    os.makedirs(d, exist_ok=True)
    rep = os.path.join(d, "report.json")
    if os.path.exists(rep):
        os.remove(rep)
    r = sh(cmd, timeout, env=env(e), cwd=d)
    for line in r.stdout.splitlines():
        if line.startswith("repeated: "):
            print(line[:1500])
    if not os.path.exists(rep):
        raise Broken(f"no report (exit {r.returncode}) from {' '.join(cmd)}:\n{r.stdout[-3000:]}")
    try:
        j = json.load(open(rep))
    except ValueError as x:
        raise Broken(f"bad report from {' '.join(cmd)}: {x}")
    j.setdefault("errors", [])
    return j


def known(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    for line in open(p) if os.path.exists(p) else []:
        line = line.strip()
        if line.startswith("finding: property=" + pid + " "):
            rest = line.split(" ", 2)[2]
            key, _, what = rest.partition(" :: ")
            out.append((key, what))
    return out


def check(pid):
    global T0
    t0 = T0 = time.time()
    jobs = [j for j in CHECKS[pid]["jobs"] if TIER in j.get("tiers", ("quick", "thorough"))]
    work = os.path.join(BUILD, "run", f"{pid}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    reports = []
    try:
        # builds in parallel, one per (crate, configuration)
        groups = {}
        for j in jobs:
            groups.setdefault(ENGINES[j["engine"]]["group"](j), []).append(j)
        with cf.ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(ENGINES[js[0]["engine"]]["build"], sys.modules[__name__], js, work) for js in groups.values()]
            built, broken = {}, []
            for f, js in zip(futs, groups.values()):
                try:
                    built.update(f.result())
                except Broken as x:
                    # what the others find still counts
                    broken.append(str(x))
                    jobs = [j for j in jobs if j not in js]
        tb = time.time() - t0
        # engines: those that use one process each share the machine
        par = [j for j in jobs if j.get("cpus", 8) <= 2]
        seq = [j for j in jobs if j.get("cpus", 8) > 2]

        def go(j):
            d = os.path.join(work, j["name"].replace("/", "_").replace(" ", "_"))
            t = time.time()
            if t - T0 > BUDGET[TIER] - 10:
                return dict(job=j["name"], job_wall=0, cases=0, cases_done=0, states=0, transitions=0, capped=True, violations=[], errors=[])
            try:
                r = ENGINES[j["engine"]]["run"](sys.modules[__name__], j, built, d, pid)
            except Broken as x:
                r = dict(cases=0, cases_done=0, states=0, transitions=0, capped=True, violations=[], errors=[str(x)])
            r["job"] = j["name"]
            r["job_wall"] = round(time.time() - t, 2)
            return r

        with cf.ThreadPoolExecutor(max(1, 8 // max([j.get("cpus", 8) for j in par] + [1]))) as ex:
            fs = [ex.submit(go, j) for j in par]
            reports += [f.result() for f in fs]
        for j in seq:
            if any(r["violations"] for r in reports):
                break
            reports.append(go(j))
    except Broken as x:
        print(f"ERROR property={pid}: {x}", file=sys.stderr)
        return 2
    finally:
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(work, ignore_errors=True)
    kn = known(pid)
    viol, hits = [], set()
    errors = broken
    for r in reports:
        errors += [f"{r['job']}: {e}" for e in r["errors"]]
        for v in r["violations"]:
            key = f"{r['job']}/{v['family']}#{v['idx']}"
            m = [k for k in kn if k[0] == key]
            if m:
                hits.add(m[0])
            else:
                viol.append((key, v, r))
    for k in hits:
        print(f"KNOWN-FINDING: property={pid} {k[1]}")
    cov = {
        "states": sum(r["states"] for r in reports),
        "transitions": sum(r["transitions"] for r in reports),
        "traces_validated_against_impl": sum(r.get("traces", r["cases_done"]) for r in reports),
        "distinct_outcomes": sum(r.get("distinct_outcomes", 0) for r in reports),
        "exhaustive": bool(reports) and not any(r["capped"] or r["cases_done"] < r["cases"] for r in reports),
        "rule": CHECKS[pid]["rule"],
        "bounds": CHECKS[pid]["bounds"],
        "engines": [
            {
                "job": r["job"],
                "cases": r["cases_done"],
                "of": r["cases"],
                "states": r["states"],
                "transitions": r["transitions"],
                "capped": r["capped"],
                "wall_s": r["job_wall"],
                "families": [f"{f['name']}: {f['cases']} cases, {f['transitions']} ops" for f in r.get("families", [])][:60],
                "counters": r.get("counters", {}),
            }
            for r in reports
        ],
        "build_s": round(tb, 1),
        "samples": [s for r in reports for s in r.get("samples", [])[:6]][:24],
    }
    ev = {
        "property": pid,
        "tier": TIER,
        "seed": SEED,
        "level": CHECKS[pid].get("level", "model_checking"),
        "coverage": cov,
        "assumptions": CHECKS[pid].get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        key, v, r = viol[0]
        rp = os.path.join(EVID, f"replay-{pid}.json")
        with open(rp, "w") as f:
            json.dump(
                {
                    "property": pid,
                    "tier": TIER,
                    "case": key,
                    "what": v["what"],
                    "schedule": v.get("schedule"),
                    "replay_cmd": f"VERIF_TIER={TIER} python3 {HERE}/check.py replay {rp}",
                    "all": [f"{k}: {x['what']}"[:2000] for k, x, _ in viol[:10]],
                },
                f,
                indent=1,
            )
        print(f"  {key}: {v['what'][:3000]}")
        print(f"VIOLATION property={pid} replay={rp}", flush=True)
        return 1
    if errors:
        print(f"ERROR property={pid}: " + "\n".join(errors), file=sys.stderr)
        return 2
    n = cov["transitions"]
    print(f"OK property={pid} tier={TIER} states={cov['states']} transitions={n} traces={cov['traces_validated_against_impl']} exhaustive={cov['exhaustive']} build={tb:.1f}s wall={time.time() - t0:.1f}s")
    return 0


def setup():
    os.makedirs(BUILD, exist_ok=True)
    groups = {}
    for c in CHECKS.values():
        for j in c["jobs"]:
            js = groups.setdefault(ENGINES[j["engine"]]["group"](j), [])
            js.append(j)
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(ENGINES[js[0]["engine"]]["build"], sys.modules[__name__], js, None) for js in groups.values()]
        for f in fs:
            f.result()
    print(f"setup: {len(groups)} builds")
    return 0


def replay(path):
    """Run the recorded case alone."""
    global TIER
    j = json.load(open(path))
    TIER = j["tier"]
    pid = j["property"]
    job, _, case = j["case"].partition("/")
    jb = [x for x in CHECKS[pid]["jobs"] if x["name"] == job][0]
    work = os.path.join(BUILD, "run", f"replay-{os.getpid()}")
    os.makedirs(work)
    try:
        built = ENGINES[jb["engine"]]["build"](sys.modules[__name__], [jb], work)
        return ENGINES[jb["engine"]]["replay"](sys.modules[__name__], jb, built, case, j, pid)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == "setup":
            return setup()
        if a[0] == "replay":
            return replay(a[1])
        if a[0] == "list":
            for p, c in CHECKS.items():
                print(p, [j["name"] for j in c["jobs"]])
            return 0
        if a[0] == "all":
            a = list(CHECKS)
        rc = 0
        for p in a:
            rc = max(rc, check(p))
        return rc
    except Broken as x:
        print(f"ERROR: {x}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
