"""What each check runs."""
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
SCHEDK = os.path.join(HERE, "schedk")
ENUMK = os.path.join(HERE, "enumk")

# Feature selections of fnntw
CONFIGS = {
    "A": ["parallel", "sqrt-dist2", "no-position", "no-index"],  # default features
    "B": ["parallel"],  # positions, squared distances
    "C": ["parallel", "no-position"],  # axis queries with indices, squared
    "D": ["parallel", "no-position", "sqrt-dist2"],
    "N": [],
    # the remaining selections of {parallel} x {sqrt-dist2} x {positions, no-position, no-index}
    "E": ["parallel", "sqrt-dist2"],
    "F": ["parallel", "no-position", "no-index"],
    "G": ["sqrt-dist2"],
    "H": ["no-position"],
    "I": ["no-position", "sqrt-dist2"],
    "J": ["no-position", "no-index"],
    "K": ["no-position", "no-index", "sqrt-dist2"],
}


# ---- engine E: exhaustive enumeration of inputs / configurations / histories
TARGET = "x86_64-unknown-linux-gnu"
SAN = {
    "asan": dict(flags="-Zsanitizer=address -Cforce-frame-pointers=yes", args=[]),
    "msan": dict(flags="-Zsanitizer=memory -Cforce-frame-pointers=yes", args=["-Zbuild-std"]),
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:print_legend=0:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=4096:malloc_context_size=4:quarantine_size_mb=8",
    "MSAN_OPTIONS": "exitcode=99:abort_on_error=0:allocator_may_return_null=1:malloc_context_size=6",
    "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
    "MSAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
}


def enum_build(ck, jobs, out):
    cfg, san = jobs[0]["cfg"], jobs[0].get("san")
    bins = sorted({j["bin"] for j in jobs})
    if san:
        res = ck.cargo_build(ENUMK, cfg, bins, out=out, toolchain="nightly", target=TARGET, tag="_" + san, features=["san"],
                             extra_args=SAN[san]["args"] + ["--config", "profile.release.debug='line-tables-only'"], extra_env={"RUSTFLAGS": SAN[san]["flags"]})
    else:
        res = ck.cargo_build(ENUMK, cfg, bins, out=out)
    return {(cfg, san, b): p for b, p in res.items()}


def enum_run(ck, j, built, d, pid):
    exe = built[(j["cfg"], j.get("san"), j["bin"])]
    cap = ck.cap(j.get("cap", {"quick": 500, "thorough": 5400}))
    cmd = [exe, "run", "--prop", j.get("prop", pid), "--tier", ck.TIER, "--dir", d, "--seed", str(ck.SEED)]
    cmd += ["--cap", str(cap), "--hang", str(j.get("hang", 90)), "--shards", str(j.get("cpus", 8))]
    cmd += j.get("args", [])
    return ck.run_report(cmd, d, cap + 150, SAN_ENV if j.get("san") else None)


def enum_replay(ck, j, built, case, rec, pid):
    exe = built[(j["cfg"], j.get("san"), j["bin"])]
    fam, _, idx = case.rpartition("#")
    cmd = [exe, "one", "--prop", j.get("prop", pid), "--tier", ck.TIER, "--fam", fam, "--idx", idx] + j.get("args", [])
    return subprocess.run(cmd, env=ck.env(SAN_ENV if j.get("san") else None)).returncode


# ---- the same cases in an interpreter that checks every access
MIRI_ENV = {
    "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance -Zmiri-preemption-rate=0",
    "RUSTUP_TOOLCHAIN": "nightly",
}


def miri_env(ck):
    return dict(MIRI_ENV, MIRI_SYSROOT=os.path.join(ck.BUILD, "miri-sysroot"))


def miri_cmd(ck, j):
    td = os.path.join(ck.BUILD, "t_miri_" + j["cfg"])
    cmd = ["cargo", "miri", "run", "--quiet", "--offline", "--target-dir", td, "--bin", j["bin"]]
    return cmd + ["--features", ",".join(CONFIGS[j["cfg"]] + ["san"]), "--"]


def miri_build(ck, jobs, out):
    with ck.Lock("miri"):
        if not os.path.exists(os.path.join(ck.BUILD, "miri-sysroot", "ok")):
            r = ck.sh(["cargo", "miri", "setup"], 1200, cwd=ENUMK, env=ck.env(miri_env(ck)))
            if r.returncode != 0:
                raise ck.Broken("miri setup failed:\n" + r.stdout[-3000:])
            open(os.path.join(ck.BUILD, "miri-sysroot", "ok"), "w").close()
        td = os.path.join(ck.BUILD, "t_miri_" + jobs[0]["cfg"])
        ck.freshen(td, [os.path.join(td, "miri", TARGET, "debug"), os.path.join(td, TARGET, "debug"), os.path.join(td, "debug")], "enumk")
        for j in jobs:
            r = ck.sh(miri_cmd(ck, j) + ["list", "--prop", j["prop"]], 900, cwd=ENUMK, env=ck.env(miri_env(ck)))
            if r.returncode != 0:
                raise ck.Broken("miri build failed:\n" + r.stdout[-3000:])
    return {}


def miri_run(ck, j, built, d, pid):
    os.makedirs(d, exist_ok=True)
    cap = ck.cap(j.get("cap", {"quick": 300, "thorough": 3600}))
    n = 8
    t0 = ck.time.time()
    ps = []
    for i in range(n):
        cmd = miri_cmd(ck, j) + ["serial", "--prop", j["prop"], "--tier", ck.TIER, "--share", f"{i}/{n}", "--cap", str(cap), "--ub", "1"]
        ps.append(subprocess.Popen(cmd, cwd=ENUMK, env=ck.env(miri_env(ck)), stdout=open(f"{d}/o{i}", "w"), stderr=open(f"{d}/e{i}", "w")))
    rep = dict(cases=0, cases_done=0, states=0, transitions=0, capped=False, violations=[], errors=[], families=[])
    fams = {}
    for i, p in enumerate(ps):
        try:
            rc = p.wait(max(5, t0 + cap + 200 - ck.time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rep["capped"] = True
            rc = 0
        o = open(f"{d}/o{i}", errors="replace").read()
        e = open(f"{d}/e{i}", errors="replace").read()
        for line in o.splitlines():
            f = line.split("\t")
            if f[0] == "F":
                x = fams.setdefault(f[1], dict(name=f[1], cases=0, transitions=0, states=0, of=int(f[5])))
                x["cases"] += int(f[2])
                x["states"] += int(f[3])
                x["transitions"] += int(f[4])
            elif f[0] == "CAP":
                rep["capped"] = True
        if rc == 0:
            continue
        case = [x[1:] for x in e.splitlines() if x.startswith("@")]
        if "Undefined Behavior" in e and case:
            msg = [x for x in e.splitlines() if x.startswith("error: Undefined Behavior") or x.lstrip().startswith("--> ") or "/repo/" in x][:3]
            fam, _, idx = case[-1].rpartition("#")
            rep["violations"].append(dict(family=fam, idx=int(idx), what=" ".join(x.strip() for x in msg)))
        elif "unsafe precondition" in e and case:
            fam, _, idx = case[-1].rpartition("#")
            rep["violations"].append(dict(family=fam, idx=int(idx), what=[x for x in e.splitlines() if "unsafe precondition" in x][0]))
        elif "overflowed its stack" in e or "thread caused non-unwinding panic" in e or "deadlock" in e or "resource exhaustion" in e:
            rep["capped"] = True
        else:
            rep["errors"].append(f"interpreter exited {rc} in {case[-1:]}: {e[-1500:]}")
    rep["families"] = list(fams.values())
    for f in rep["families"]:
        rep["cases"] += f["of"]
        for k in ("states", "transitions"):
            rep[k] += f[k]
        rep["cases_done"] += f["cases"]
    return rep


def miri_replay(ck, j, built, case, rec, pid):
    fam, _, idx = case.rpartition("#")
    cmd = miri_cmd(ck, j) + ["one", "--prop", j["prop"], "--tier", ck.TIER, "--fam", fam, "--idx", idx, "--ub", "1"]
    return subprocess.run(cmd, cwd=ENUMK, env=ck.env(miri_env(ck))).returncode


# ---- engine S: exhaustive exploration of schedules
def sched_build(ck, jobs, out):
    cfg, race = jobs[0]["cfg"], jobs[0].get("race", False)
    wrap = {"RUSTC_WRAPPER": os.path.join(SCHEDK, "wrap.sh")}
    if race:
        res = ck.cargo_build(SCHEDK, cfg, ["schedk"], out=out, toolchain="nightly", target=TARGET, tag="_race", features=["race"], extra_args=["-Zbuild-std"], extra_env=dict(wrap, MC_RACE="1"))
    else:
        res = ck.cargo_build(SCHEDK, cfg, ["schedk"], out=out, toolchain="nightly", extra_env=wrap)
    return {("schedk", cfg, race): p for p in res.values()}


def sched_run(ck, j, built, d, pid):
    cap = ck.cap(j.get("cap", {"quick": 400, "thorough": 5400}))
    cmd = [built[("schedk", j["cfg"], j.get("race", False))], "run", "--prop", j.get("prop", pid), "--tier", ck.TIER, "--dir", d, "--cap", str(cap)]
    return ck.run_report(cmd, d, cap + 150)


def sched_replay(ck, j, built, case, rec, pid):
    scen, _, _ = case.rpartition("#")
    cmd = [built[("schedk", j["cfg"], j.get("race", False))], "one", "--prop", j.get("prop", pid), "--scen", scen, "--log", "1"] + rec["schedule"].split()
    return subprocess.run(cmd, env=ck.env()).returncode


# ---- engine P: exhaustive enumeration of calls of the Python extension
PYK = os.path.join(HERE, "pyk", "pyk.py")
PY = "/opt/vp/venv/bin/python"


def py_build(ck, jobs, out):
    return {"py": ck.cargo_lib(os.path.join(ck.REPO, "pyfnntw", "Cargo.toml"), "libpyfnntw.so", dict(PYO3_PYTHON=PY), out)}


def py_env():
    return dict(MALLOC_PERTURB_="165", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


def py_run(ck, j, built, d, pid):
    cap = ck.cap(j.get("cap", {"quick": 400, "thorough": 5400}))
    cmd = [PY, PYK, "run", "--prop", j.get("prop", pid), "--tier", ck.TIER, "--dir", d, "--lib", built["py"], "--cap", str(cap)]
    return ck.run_report(cmd, d, cap + 150, py_env())


def py_replay(ck, j, built, case, rec, pid):
    fam, _, idx = case.rpartition("#")
    cmd = [PY, PYK, "one", "--prop", j.get("prop", pid), "--tier", ck.TIER, "--lib", built["py"], "--fam", fam, "--idx", idx]
    return subprocess.run(cmd, env=ck.env(py_env())).returncode


ENGINES = {
    "py": dict(group=lambda j: "py", build=py_build, run=py_run, replay=py_replay),
    "sched": dict(group=lambda j: ("sched", j["cfg"], j.get("race", False)), build=sched_build, run=sched_run, replay=sched_replay),
    "miri": dict(group=lambda j: ("miri", j["cfg"]), build=miri_build, run=miri_run, replay=miri_replay),
    "enum": dict(group=lambda j: ("enum", j["cfg"], j.get("san")), build=enum_build, run=enum_run, replay=enum_replay),
}


def e(bin, cfg, **kw):
    return dict(engine="enum", bin=bin, cfg=cfg, name=f"{bin}-{cfg}" + kw.pop("tag", ""), **kw)


def s(cfg, **kw):
    return dict(engine="sched", cfg=cfg, name=f"sched-{cfg}" + kw.pop("tag", ""), **kw)


SC = "schedules interleave sequentially consistently at every access of the crate; std, rayon and crossbeam are not preempted inside their own non-generic code, only where they block, wake, yield or start threads; a woken waiter is the longest waiting one"

EXACT = "The reference is brute force in exact 64-bit integer arithmetic on lattice coordinates; distances may differ from it by rounding only."

CHECKS = {
    "C01": dict(
        jobs=[e("c01", "A"), e("c01", "B", prop="C01-light"), e("c01", "N", prop="C01-light")],
        rule="every data set of each universe x every tree configuration x every lattice query is built and queried on the real crate and compared with exact brute force",
        bounds="1-D sequences of length <=6 over 4 values; all subsets of 3x3, 4x4, 2x2x2, 3x2x2; sequences <=5 over 2x2, <=4 over 3x3, <=3 over 2^3; subsets <=6 of 2^4, <=3 of 2^5, <=2 of 2^6; every n<=64 in 12 patterns, larger up to 4097; 10 scalings; leafsizes 0..n+1 for the smallest, edge values otherwise",
        assumptions=[EXACT],
    ),
}
for _p in ("C02", "C03", "C04"):
    CHECKS[_p] = dict(CHECKS["C01"], jobs=[e(_p.lower(), "A"), e(_p.lower(), "B", prop=_p + "-light")])
CHECKS["C02"]["bounds"] += "; every k in 0..=n+1 for the smallest, edge values otherwise"
CHECKS["C03"]["bounds"] += "; data shifted to be non-negative; per axis tight, odd and loose box lengths; queries on and between lattice points, on both faces and around the middle"
CHECKS["C04"]["bounds"] = CHECKS["C03"]["bounds"] + "; every k in 0..=n+1 for the smallest, edge values otherwise"
CHECKS["C05"] = dict(
    jobs=[e("c05", "A"), e("c05", "C", prop="C05-light")],
    rule="every data set of each universe x tree configuration x k: one batch of every lattice query, every row judged on its own by exact brute force; batches of every listed size in real pools",
    bounds=CHECKS["C01"]["bounds"] + "; box families as in C03; batch sizes 0..=40 and edges up to 16385, pools of 1, 2, 3, 8 workers",
    assumptions=[EXACT],
)
CHECKS["C06"] = dict(
    CHECKS["C05"],
    jobs=[e("c05", "A", tag="-axis"), e("c05", "C", tag="-axis", prop="C06-light"), e("c05", "D", tag="-axis", prop="C06-light")],
    rule="as C05, for every axis; each entry must be the split of a distinct neighbour (or image); axes that do not exist must be refused; with and without indices and square roots",
)
CHECKS["C08"] = dict(
    jobs=[e("c08", "A"), e("c08", "B"), e("c08", "N")],
    rule="every tuple over an alphabet with every kind of invalid number as data and as queries, and each kind at every position of larger inputs, for every build mode and query method: refused iff invalid, the error naming an invalid point of the input",
    bounds="n <= 5 in 1-D, <= 3 in 2-D, <= 2 in 3-D over 5 values, 9-value extreme alphabets; one invalid component at every position for n up to 1025; batches up to 5000 rows",
    assumptions=[],
)
CHECKS["C09"] = dict(
    jobs=[e("c08", "A", tag="-box")],
    rule="every combination over the axes of data extremes x box lengths: accepted iff the documented conditions hold, the error naming a violated one; accepted boxes are then queried and compared with exact wrap-around",
    bounds="11 ranges x 12 lengths per axis (1-D and 2-D complete, 3-D over 5 ranges); the extreme component at every position for n up to 300",
    assumptions=[],
)
CHECKS["C10"] = dict(
    jobs=[e("c10", "A"), e("c10", "N", prop="C10-light")],
    rule="every 3-valued arrangement of blocks / window / cycle around the approximate-median threshold is split (permutation and order checked element by element) and built into trees whose every node is checked and whose queries are compared with exact brute force",
    bounds="100,000 to 200,003 points; 3^6 block arrangements and 3^6 windows of 6 positions x 45 places, cycles of period <= 6; chunk sizes 0..n; trees in 1-3 dimensions of named, blocked and cyclic arrangements, serial and parallel builds, leafsizes 0..n",
    assumptions=[EXACT],
)
CHECKS["C18"] = dict(
    jobs=[e("c18", "A"), e("c18", "N")],
    rule="every pair of points and every (query, box, point of the box) over a lattice, in every dimension listed, against exact integer arithmetic; extreme magnitudes against the same expression in the same precision",
    bounds="1-D to 7-D complete lattices of 2 to 9 values per axis, up to 64-D sparse, scalings and shifts, f32 and f64",
    assumptions=[EXACT],
)
CHECKS["C19"] = dict(
    jobs=[e("c19", "A"), e("c19", "N", prop="C19-light")],
    rule="every data set of each universe x every leafsize x build mode is built and every node of the tree is checked",
    bounds=CHECKS["C01"]["bounds"].replace("edge values otherwise", "edge values for larger ones") + "; patterns of every n <= 260 and 20,001 and 99,999 points",
    assumptions=[],
)
CHECKS["C11"] = dict(
    jobs=[e("c11", "A"), e("c11", "C", prop="C11-light"), e("c11", "N", prop="C11-light")],
    rule="every data set over an alphabet of extreme magnitudes x every box and query over the alphabet x every method, and every combination of extreme leafsize, par_split_level, k, batch size, dimension; judged against evaluation without overflow, whose square may overflow or underflow only where it must; small thread stacks",
    bounds="1-D sequences of <= 3 points over 17 values, 2-D <= 2 over 8^2 and <= 3 over 4^2, up to 4-D; boxes over the non-negative values; 1 to 100 dimensions (boxes up to 8, thorough 12); 60,000 to 200,003 points (thorough 1,000,000) on 512 KB stacks for k up to n; par_split_level and leafsize up to usize::MAX",
    assumptions=["periodic queries lie inside the box", "the cost of periodic queries doubles with every dimension, so boxes are limited to 8 (thorough 12) dimensions"],
)
CHECKS["C12"] = dict(
    jobs=[e("c12", "A"), e("c12", "C", prop="C12-light"), e("c12", "B", prop="C12-light"), e("c12", "N", prop="C12-light")],
    rule="every history of the listed operations (queries of every method, valid and invalid, on two trees; building, failing to build and dropping others) is run on new trees; every answer must be bit for bit the answer of a fresh tree, and the data must stay as it was",
    bounds="all histories of 3 to 4 operations (thorough 4 to 5) out of 31; one operation up to 1,025 (20,000) times followed by any other, and 66,000 (1,000,000) times followed by all; 13 trees in 1 to 4 dimensions",
    assumptions=["several invalid queries in one batch: which of them the error names may vary"],
)
CHECKS["C13"] = dict(
    jobs=[e("c13", c) for c in "ABCDEFGHIJKN"],
    rule="in each of the 12 feature selections every method that exists there is judged against the same reference on the same universes, positions bit for bit against the data, and acceptance against the same table",
    bounds="all of {parallel} x {sqrt-dist2} x {positions, no-position, no-index}; light universes of C01 and C03, signed zeros, every 2-point data set, query and box over 8 values with every kind of invalid number",
    assumptions=["the development feature timing and the allocator features are not covered"],
)

for _p, _cs in (("C05", "AC"), ("C06", "ACD"), ("C08", "AN"), ("C10", "A")):
    CHECKS[_p]["jobs"] += [s(c, prop=_p if c == "A" else _p + "-light") for c in _cs]
    CHECKS[_p]["assumptions"] = CHECKS[_p]["assumptions"] + [SC]
    CHECKS[_p]["technique"] = "model checking: bounded exhaustive enumeration of inputs and configurations on the real code against an exact reference, and stateless exploration of thread schedules under a controlled scheduler"
    CHECKS[_p]["rule"] += "; and small concurrent instances of them under every schedule with up to 1-3 deviations from two base policies"
CHECKS["C07"] = dict(
    technique="stateless model checking: exploration of thread schedules of the real code under a controlled scheduler",
    jobs=[s("A"), s("N", prop="C07-light"), s("B", prop="C07-light")],
    rule="parallel builds (alone, several at once, nested in the pool, large enough for the approximate median) run under every schedule with a bounded number of deviations from the base policies; the tree's nodes and answers are checked against the serial build and brute force; a deadlock is a state in which no thread can run",
    bounds="3 to 16 points (two concurrent builds of 200,001), par_split_level 1, 2, 3 and usize::MAX, 1 to 4 workers, with rayon and with plain threads; atomics and blocking operations: up to 3 deviations, every memory access: 1 deviation, conflicting accesses: 2 deviations (thorough: one more each)",
    assumptions=[SC, EXACT],
)
CHECKS["C17"] = dict(
    technique="stateless model checking: exploration of thread schedules of the real code under a controlled scheduler",
    jobs=[s("A"), s("N"), s("B", prop="C17-light"), s("C", prop="C17-light")],
    rule="two or three threads run every pair of operations (queries of every method on shared trees with and without box, invalid queries, building, failing to build and dropping other trees) under every schedule with a bounded number of deviations; every answer must be correct, during and afterwards",
    bounds="all pairs of 9 single-threaded and 7 pooled operations and longer combinations; pairs of threads with 1 to 15 others started (and ended or waiting) between them; atomics and blocking operations: 1-2 deviations, every memory access: 1 deviation (thorough: one more, and conflicting accesses with 2)",
    assumptions=[SC, EXACT],
)
CHECKS["C14"] = dict(
    jobs=[dict(engine="py", name="python")],
    technique="explicit enumeration of the calls of the Python extension",
    rule="the extension is built and imported; every data set of each universe x tree configuration x k x axis is queried with every lattice query in one batch; dtype, shape and every row judged by exact brute force",
    bounds="all subsets of 3x3 and 2x2x2, sequences of length <= 4 (5) over 2x2 and <= 3 over 2x2x2, six patterns up to 100 (300) points and 100,003; f32 and f64; batches of 0 to 40 and edges up to 4097 (20,000); tight and loose boxes; 10 x 10 ways to lay out C-contiguous arguments; pools of 1, 2, 3, 4, 8 workers",
    assumptions=[EXACT, "the caller does not modify the array while a tree borrows it"],
)
CHECKS["C15"] = dict(
    jobs=[dict(engine="py", name="python")],
    technique="explicit enumeration of misuse of the Python extension and of object lifetimes",
    rule="every combination of the argument alphabets with up to 2 (thorough: all) arguments away from valid ones; each kind of invalid number at every position; every history of building, dropping, provoking errors, reusing memory and asking; a crash, hang, accepted misuse, exception that is no Exception or wrong answer of any tree afterwards fails",
    bounds="about 45 data or query values, 27 sizes, 33 boxes; up to 20 (200) points; histories of 2 to 4 (5) of 11 operations; k up to 2^64-1",
    assumptions=["numpy 0.16.2 and pyo3 0.16.6 as locked, release build", "the caller does not modify the array while a tree borrows it"],
)

UB = ["--ub", "1"]


def ub(bin, cfg, san, prop, **kw):
    return e(bin, cfg, tag="-" + san, san=san, prop=prop, args=UB, **kw)


CHECKS["C16"] = dict(
    technique="bounded exhaustive enumeration of calls, histories and shapes on the real code under monitors of every memory access; stateless exploration of schedules with a happens-before monitor",
    jobs=[
        e("c16", "A", tag="-leak", prop="C16-leak"),
        e("c16", "B", tag="-leak", prop="C16-leak"),
        s("A", tag="-race", race=True, prop="C16"),
        s("N", tag="-race", race=True, prop="C16-light"),
        s("C", tag="-race", race=True, prop="C16-light"),
        dict(engine="miri", bin="c16", cfg="A", prop="C16-tiny", name="c16-A-miri"),
        dict(engine="miri", bin="c16", cfg="B", prop="C16-tiny", name="c16-B-miri"),
        ub("c16", "A", "asan", "C16"),
        ub("c16", "B", "asan", "C16-light"),
        ub("c16", "C", "asan", "C16-mini"),
        ub("c16", "A", "msan", "C16"),
        ub("c16", "B", "msan", "C16-light"),
        ub("c16", "C", "msan", "C16-mini"),
    ],
    rule="every data set of each universe x tree configuration x method x argument (valid and invalid: data, queries, boxes, k, axes), box and queries freed before the answers are used, trees dropped before or after: no monitor may report an access (AddressSanitizer, MemorySanitizer, the interpreter Miri, the preconditions of unchecked std operations), and no call repeated 8, 32, 128 and 512 times may leave memory or threads behind; every scenario of C05, C06, C07, C08, C10 and C17 on the instrumented build of crate, rayon, crossbeam and std: under every schedule with one preemption no two accesses of different threads to the same bytes, one of them a write or a release, may be unordered by happens-before (vector clocks over the compiled memory orderings)",
    bounds="light universes of C01 (1-D sequences of <= 4, subsets of 3x3 and 2x2x2, patterns of every n <= 40 and larger up to 1,025, up to 8 dimensions); k in {0, 1, 2, n/2, n, n+1, usize::MAX}; data with an invalid number at every position for n <= 6; pools of 1, 2, 3, 8 workers, nested and shared by threads; Miri: n <= 6; repetition: n <= 40 (thorough 100); schedules: one preemption at any access to an atomic (thorough: 2 at the crate's own, 1 inside of std and rayon everywhere; quick: inside of std and rayon too where threads share trees), 2 to 4 threads and workers",
    assumptions=["the data outlives the tree (guaranteed by the borrow checker)", "Point::new on short-lived data and writing to the public field nodes are outside: they are not calls of the tree", "Miri without its aliasing model"],
)
