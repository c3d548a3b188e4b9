#!/usr/bin/env python3
"""Try planted bugs in private copies of /repo and /verif (bind-mounted in a mount namespace).

  seedtest.py [-j N] [--checks C01,C02 | --nocheck] [--notest] ID...

For each: the patch applies, builds, the stable tests pass, the demonstration fails with the patch
and passes without it, and which checks report it (default: the check of its property).
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import time

SEEDED = "/verif/seeded"
SCR = "/tmp/seedtest"


def run(id, checks, test):
    meta = json.load(open(f"{SEEDED}/{id}/meta.json"))
    d = f"{SCR}/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for s in ("repo", "verif"):
        subprocess.check_call(["cp", "-a", "--reflink=auto", "/" + s, f"{d}/{s}"])
    cs = meta["property"].split() if checks is None else checks
    sh = f"""
set +e
mount --bind {d}/repo /repo && mount --bind {d}/verif /verif || exit 9
cd /repo; git checkout -q -- . ; cp -r /verif/seeded/{id} {d}/seed
git apply --check {d}/seed/patch.diff || {{ echo 'R apply FAIL'; exit; }}
git apply {d}/seed/patch.diff
bash /opt/vp/build.sh > {d}/build.log 2>&1; echo "R build $?"
if [ {int(test)} = 1 ]; then
bash /opt/vp/test.sh {d}/out.json > {d}/test.log 2>&1
bash /opt/vp/build.sh > {d}/build.log 2>&1
bash {d}/seed/demo.sh > {d}/demo1.log 2>&1; echo "R demo_patched $?"
fi
for c in {' '.join(cs)}; do t=$(date +%s); (cd /verif && VERIF_SEED=1 VERIF_TIER=${{TIER:-quick}} timeout 900 python3 mc/check.py $c > {d}/check_$c.log 2>&1); echo "R check_$c $? $(( $(date +%s) - t ))s $(grep -c VIOLATION {d}/check_$c.log)"; done
if [ {int(test)} = 1 ]; then
git checkout -q -- .; bash /opt/vp/build.sh > {d}/build2.log 2>&1
bash {d}/seed/demo.sh > {d}/demo2.log 2>&1; echo "R demo_clean $?"
fi
"""
    r = subprocess.run(["unshare", "-m", "bash", "-c", sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    res = [l[2:] for l in r.stdout.splitlines() if l.startswith("R ")]
    bad = ""
    if test and os.path.exists(f"{d}/out.json"):
        j = json.load(open(f"{d}/out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        got = j if isinstance(j, dict) else {}
        passed = set(got.get("passed", got.get("pass", [])))
        bad = "tests " + ("ok" if not set(base) - passed else "BROKEN " + ",".join(sorted(set(base) - passed))[:200])
    for f in ("repo", "verif"):
        shutil.rmtree(f"{d}/{f}", ignore_errors=True)
    return f"{id} [{meta['property']}]: {'; '.join(res)}; {bad}"


def main():
    a = sys.argv[1:]
    j, checks, test = 1, None, True
    while a and a[0].startswith("-"):
        o = a.pop(0)
        if o == "-j":
            j = int(a.pop(0))
        elif o == "--checks":
            checks = a.pop(0).split(",")
        elif o == "--nocheck":
            checks = []
        elif o == "--notest":
            test = False
    ids = a or sorted(os.listdir(SEEDED))
    with cf.ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda i: run(i, checks, test), ids):
            print(r, flush=True)


main()
