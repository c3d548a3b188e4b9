#!/usr/bin/env python3
"""Engine P: exhaustive enumeration of calls of the Python extension.

  pyk.py run --prop C14 --tier quick --dir D --lib libpyfnntw.so --cap S [--shards N]
  pyk.py one --prop C14 --tier quick --lib .. --fam F --idx I

Every case runs in a worker process; a worker that dies or hangs is attributed
to the case in its journal, and the case is run again alone to confirm.
"""
import argparse
import json
import mmap
import os
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


class Cx:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.fails = []
        self.samples = []
        self.outcomes = set()
        self.counters = {}
        self.want = False
        self.note = lambda s: None

    def fail(self, msg):
        if len(self.fails) < 3:
            self.fails.append(msg)

    def op(self, outcome, desc=None):
        self.transitions += 1
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(outcome))
        if self.want and desc is not None:
            self.want = False
            self.samples.append(desc())

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n


# the journal of one shard: state, family, index, heartbeat, then text
J = struct.Struct("<qqqd")
JSIZE = 4096


class Journal:
    def __init__(self, mm, at):
        self.mm, self.at = mm, at

    def put(self, state, fam, idx):
        J.pack_into(self.mm, self.at, state, fam, idx, time.time())

    def get(self):
        return J.unpack_from(self.mm, self.at)

    def note(self, s):
        b = s.encode(errors="replace")[: JSIZE - 64]
        self.mm[self.at + 64 : self.at + 64 + len(b) + 1] = b + b"\0"

    def text(self):
        b = bytes(self.mm[self.at + 64 : self.at + JSIZE])
        return b.split(b"\0")[0].decode(errors="replace")


def load(lib, d):
    """Import the library under its module name from a scratch folder."""
    p = os.path.join(d, "lib")
    os.makedirs(p, exist_ok=True)
    dst = os.path.join(p, "pyfnntw.so")
    if not os.path.exists(dst):
        shutil.copy2(lib, dst + ".tmp%d" % os.getpid())
        os.replace(dst + ".tmp%d" % os.getpid(), dst)
    sys.path.insert(0, p)
    sys.dont_write_bytecode = True
    import pyfnntw

    assert os.path.dirname(pyfnntw.__file__) == p, pyfnntw.__file__
    return pyfnntw


def quiet():
    """The constructor prints when it starts the pool."""
    n = os.open("/dev/null", os.O_WRONLY)
    os.dup2(n, 1)
    os.dup2(n, 2)


def families(prop, tier):
    import fams

    return fams.PROPS[prop](tier)


def worker(a, shard, order, jr, out, deadline):
    quiet()
    ncpu = os.cpu_count() or 1
    avail = sorted(os.sched_getaffinity(0))
    # different numbers of workers in the pool of the extension
    w = [1, 2, 3, 8, 2, 4, 1, 8][shard % 8]
    sel = {avail[(shard + i) % len(avail)] for i in range(min(w, len(avail)))}
    os.sched_setaffinity(0, sel)
    mod = load(a.lib, a.dir)
    os.sched_setaffinity(0, avail) if w == 8 else None
    fams = families(a.prop, a.tier)
    cx = Cx()
    cx.note = jr.note
    res = {"fams": {}, "viol": [], "errors": []}
    done = 0
    for pos, (f, i) in enumerate(order):
        if time.time() > deadline:
            res["capped"] = True
            break
        jr.put(1, f, i)
        cx.want = done % max(1, len(order) // 4) == 0 and len(cx.samples) < 6
        t0 = cx.transitions
        try:
            fams[f].run(mod, cx, i)
        except BaseException:
            cx.fail("driver: " + traceback.format_exc()[-1500:])
        e = res["fams"].setdefault(fams[f].name, [0, 0])
        e[0] += 1
        e[1] += cx.transitions - t0
        done += 1
        for m in cx.fails:
            res["viol"].append([fams[f].name, i, m])
        cx.fails = []
        if len(res["viol"]) >= 3:
            break
    jr.put(2, 0, 0)
    res.update(
        states=cx.states,
        transitions=cx.transitions,
        done=done,
        outcomes=len(cx.outcomes),
        samples=cx.samples,
        counters=cx.counters,
    )
    with open(out + ".tmp", "w") as fo:
        json.dump(res, fo)
    os.replace(out + ".tmp", out)


def spawn(fn):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            fn()
            rc = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(rc)
    return pid


def run(a):
    t0 = time.time()
    deadline = t0 + a.cap
    fams = families(a.prop, a.tier)
    cases = [(f, i) for f, fam in enumerate(fams) for i in range(fam.n)]
    shutil.rmtree(a.dir, ignore_errors=True)
    os.makedirs(a.dir)
    load_dir = os.path.join(a.dir, "lib")
    os.makedirs(load_dir, exist_ok=True)
    shutil.copy2(a.lib, os.path.join(load_dir, "pyfnntw.so"))
    mm = mmap.mmap(-1, JSIZE * a.shards)
    S = []
    for s in range(a.shards):
        S.append(dict(jr=Journal(mm, s * JSIZE), order=cases[s :: a.shards], out=os.path.join(a.dir, f"s{s}.json"), pid=0))
    for s, x in enumerate(S):
        x["pid"] = spawn(lambda: worker(a, s, x["order"], x["jr"], x["out"], deadline))
    viol, errors = [], []
    live = {x["pid"]: x for x in S}
    while live:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for p, x in live.items():
                state, f, i, hb = x["jr"].get()
                if state == 1 and now - hb > a.hang:
                    x["hung"] = True
                    os.kill(p, signal.SIGKILL)
            time.sleep(0.05)
            continue
        x = live.pop(pid, None)
        if x is None:
            continue
        if not os.path.exists(x["out"]):
            state, f, i, hb = x["jr"].get()
            if state == 1:
                how = "hung" if x.get("hung") else f"died ({os.waitstatus_to_exitcode(st)})"
                # again, alone
                again = 0
                for _ in range(3):
                    r = alone(a, fams[f].name, i)
                    if r is not None:
                        again += 1
                        how = r
                        break
                if again:
                    viol.append([fams[f].name, i, f"process {how} during: {x['jr'].text()}"])
                else:
                    errors.append(f"worker {how} in {fams[f].name}#{i} but not when run alone: {x['jr'].text()}")
            else:
                errors.append(f"worker ended with {st} outside a case")
    tot = dict(states=0, transitions=0, cases_done=0, distinct_outcomes=0)
    fa, counters, samples, capped = {}, {}, [], False
    for x in S:
        if not os.path.exists(x["out"]):
            continue
        r = json.load(open(x["out"]))
        tot["states"] += r["states"]
        tot["transitions"] += r["transitions"]
        tot["cases_done"] += r["done"]
        tot["distinct_outcomes"] = max(tot["distinct_outcomes"], r["outcomes"])
        capped |= r.get("capped", False)
        samples += r["samples"][:2]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r["fams"].items():
            e = fa.setdefault(k, [0, 0])
            e[0] += v[0]
            e[1] += v[1]
        for fam, i, m in r["viol"]:
            if m.startswith("driver: "):
                errors.append(f"{fam}#{i}: {m}")
                continue
            res = alone(a, fam, i)
            if res is None:
                # some answers may depend on the schedule of the pool or on history
                res = next((q for q in (alone(a, fam, i) for _ in range(4)) if q is not None), None)
            if res is None:
                m += " (seen once in a shared process, not when run alone)"
            viol.append([fam, i, m])
    rep = dict(
        tot,
        cases=len(cases),
        capped=capped,
        violations=[dict(family=f, idx=i, what=m) for f, i, m in viol],
        errors=errors,
        families=[dict(name=k, cases=v[0], transitions=v[1]) for k, v in fa.items()],
        counters=counters,
        samples=samples,
        wall=time.time() - t0,
    )
    with open(os.path.join(a.dir, "report.json"), "w") as fo:
        json.dump(rep, fo)
    return 1 if viol else 0


def alone(a, fam, i):
    """Run one case in its own process; None if it held, else what happened."""
    out = os.path.join(a.dir, f"one{os.getpid()}-{time.time_ns()}.json")
    b = argparse.Namespace(**vars(a))

    def go():
        quiet()
        cx = one(b, fam, i)
        with open(out, "w") as fo:
            json.dump(cx.fails, fo)

    pid = spawn(go)
    end = time.time() + a.hang
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return "hung"
        time.sleep(0.02)
    if not os.path.exists(out):
        return f"died ({os.waitstatus_to_exitcode(st)})"
    fails = [m for m in json.load(open(out)) if not m.startswith("driver: ")]
    return fails[0] if fails else None


def one(a, fam, idx):
    mod = load(a.lib, a.dir)
    f = [x for x in families(a.prop, a.tier) if x.name == fam][0]
    cx = Cx()
    f.run(mod, cx, idx)
    return cx


def main():
    p = argparse.ArgumentParser()
    p.add_argument("mode")
    p.add_argument("--prop")
    p.add_argument("--tier", default="quick")
    p.add_argument("--dir", default=None)
    p.add_argument("--lib")
    p.add_argument("--cap", type=float, default=400)
    p.add_argument("--hang", type=float, default=90)
    p.add_argument("--shards", type=int, default=8)
    p.add_argument("--fam")
    p.add_argument("--idx", type=int)
    a = p.parse_args()
    own = a.dir is None
    if own:
        a.dir = tempfile.mkdtemp(prefix="pyk-")
    try:
        if a.mode == "run":
            return run(a)
        if a.mode == "list":
            for f in families(a.prop, a.tier):
                print(f.name, f.n)
            return 0
        cx = one(a, a.fam, a.idx)
        for m in cx.fails:
            print(m)
        print(f"{a.fam}#{a.idx}: {cx.transitions} ops, {'FAILS' if cx.fails else 'holds'}")
        return 1 if cx.fails else 0
    finally:
        if own:
            shutil.rmtree(a.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
