"""The families of cases of engine P, and their reference."""
import gc
import itertools
import math

import numpy as np

BIG = 1 << 40
TOL = {"f32": 3e-6, "f64": 1e-13}
DT = {"f32": np.float32, "f64": np.float64}


class Fam:
    def __init__(self, name, n, run):
        self.name, self.n, self.run = name, n, run


def cls(mod, t):
    return mod.Treef32 if t == "f32" else mod.Treef64


# ------------------------------------------------------------------ reference
class Ref:
    """All (point, image) candidates of every query, in exact integers.
    data, qs: integer arrays; box: integers or None."""

    def __init__(self, data, qs, box):
        n, d = data.shape
        self.n, self.d, self.m = n, d, len(qs)
        diff = qs[:, None, :] - data[None, :, :]  # m n d
        if box is None:
            img = diff[:, :, None, :]  # m n 1 d
        else:
            box = np.asarray(box)
            sh = np.where(2 * qs < box, box, -box)  # m d
            ims = np.array(list(itertools.product((0, 1), repeat=d)))  # 2^d d
            img = diff[:, :, None, :] + ims[None, None] * sh[:, None, None, :]
        sq = img.astype(np.int64) ** 2
        self.tot = sq.sum(3).reshape(self.m, n * img.shape[2])  # m, n*I
        self.I = img.shape[2]
        self.sq = sq.reshape(self.m, n * img.shape[2], d)
        self.sorted = np.sort(self.tot, 1)
        self.ids = np.repeat(np.arange(n), self.I)
        self.amb = (2 * qs == box).any(1) if box is not None else np.zeros(self.m, bool)


def sub_multiset(res, cand):
    """Every value of a row of res occurs there at most as often as in cand."""
    for r, c in zip(res, cand):
        rv, rc = np.unique(r, return_counts=True)
        s = np.sort(c)
        have = np.searchsorted(s, rv, "right") - np.searchsorted(s, rv, "left")
        if (rc > have).any():
            return False
    return True


def sub_multiset_fast(res, cand):
    if res.shape[0] * res.shape[1] * (res.shape[1] + cand.shape[1]) > 4_000_000:
        return sub_multiset(res, cand)
    a = (res[:, :, None] == res[:, None, :]).sum(2)
    b = (res[:, :, None] == cand[:, None, :]).sum(2)
    return bool((a <= b).all())


def squares(x, scale, tol):
    """Squares in units of the lattice, and whether they are integers."""
    y = (x.astype(np.float64) / scale) ** 2
    r = np.rint(y)
    return r.astype(np.int64), bool((np.abs(y - r) <= tol * np.maximum(r, 1.0) * 8).all())


def judge(cx, out, ref, rows, k, axis, t, scale, what):
    """Judge one answer: rows selects the queries that were asked."""
    bad = lambda msg: cx.fail(f"{what()}: {msg}")
    if not (isinstance(out, tuple) and len(out) == 2 and all(isinstance(x, np.ndarray) for x in out)):
        return bad(f"answer is {type(out)} not a pair of arrays")
    m, n = len(rows), ref.n
    one = axis is None and (k is None or k == 1)
    ke = min(1 if k is None else k, n)
    shape = (m,) if one else (m, ke)
    want = (DT[t], np.uint64) if axis is None else (DT[t], DT[t])
    for x, w in zip(out, want):
        if x.shape != shape:
            return bad(f"shape {x.shape} instead of {shape}")
        if x.dtype != w:
            return bad(f"dtype {x.dtype} instead of {np.dtype(w)}")
    if m == 0 or ke == 0:
        return
    a, b = (x.reshape(m, ke) for x in out)
    tol = TOL[t]
    exp = ref.sorted[rows, :ke]
    if axis is None:
        d2, ok = squares(a, scale, tol)
        if not ok or (d2 != exp).any() or (a < 0).any():
            r = int(np.argmax((d2 != exp).any(1)))
            return bad(f"row {r}: squared distances {d2[r].tolist()} (exact: {exp[r].tolist()}), raw {a[r].tolist()}")
        if (b >= n).any():
            return bad(f"index {int(b.max())} with {n} points")
        key = b.astype(np.int64) * BIG + d2
        cand = ref.ids[None, :] * BIG + ref.tot[rows]
    else:
        ai, ok1 = squares(a, scale, tol)
        bi, ok2 = squares(b, scale, tol)
        if not (ok1 and ok2) or ((ai + bi) != exp).any() or (a < 0).any() or (b < 0).any():
            r = int(np.argmax(((ai + bi) != exp).any(1)))
            return bad(f"row {r}: split {a[r].tolist()} + {b[r].tolist()}, exact totals {exp[r].tolist()} (x{scale})")
        key = ai * BIG + bi
        x = ref.sq[rows, :, axis]
        cand = x * BIG + (ref.tot[rows] - x)
    if not sub_multiset_fast(key, cand):
        return bad(f"an entry is not that of a distinct neighbour: {a.tolist()} {b.tolist()}"[:1500])


def arr(x, t, scale):
    return np.ascontiguousarray(np.asarray(x, dtype=np.float64) * scale, dtype=DT[t])


def check_tree(mod, cx, t, pts, qpts, box, scale, leaf, psl, ks, axes, desc):
    """Build one tree and ask everything."""
    d = pts.shape[1]
    data = arr(pts, t, scale)
    bx = None if box is None else arr(box, t, scale)
    head = lambda: f"Tree{t}(data={(pts * 1.0 * scale).tolist() if len(pts) <= 12 else desc}, leafsize={leaf}, par_split_level={psl}, boxsize={None if box is None else bx.tolist()})"
    cx.note(head())
    cx.states += 1
    try:
        tree = cls(mod, t)(data, leaf, psl, bx)
    except BaseException as x:
        return cx.fail(f"{head()} raised {x!r}")
    ref = Ref(pts, qpts, box)
    q = arr(qpts, t, scale)
    allr = np.arange(len(qpts))
    safe = allr[~ref.amb]
    qsafe = q[safe] if len(safe) != len(allr) else q
    for axis in axes:
        for k in ks:
            one = axis is None and (k is None or k == 1)
            rows, qq = (allr, q) if one else (safe, qsafe)
            what = lambda: f"{head()}.query({qq.tolist() if len(qq) <= 30 else str(len(qq)) + ' queries'}, k={k}, axis={axis})"
            try:
                if axis is None:
                    out = tree.query(qq) if k is None else tree.query(qq, k)
                else:
                    out = tree.query(qq, k, axis)
            except BaseException as x:
                return cx.fail(f"{what()} raised {x!r}")
            judge(cx, out, ref, rows, k, axis, t, scale, what)
            if cx.fails:
                return
            cx.op((axis, k, out[0].tobytes()), lambda: f"{what()} -> {[x.tolist() for x in out]}"[:700])


def subsets(points):
    for mask in range(1, 1 << len(points)):
        yield [p for i, p in enumerate(points) if mask >> i & 1]


def queries(d, lo, hi, box):
    ax = []
    for j in range(d):
        if box is None:
            ax.append(range(lo, hi + 1))
        else:
            ax.append(sorted({x for x in range(0, min(box[j], hi) + 1)} | {box[j]}))
    return np.array(list(itertools.product(*ax)), dtype=np.int64)


def lat(name, sets, d, hi, boxes, scales, leafs, psls, kextra):
    """One case: one data set in one precision, every tree and query."""
    sets = list(sets)
    ts = ["f64", "f32"]

    def run(mod, cx, i):
        t, pts = ts[i % 2], np.array(sets[i // 2], dtype=np.int64)
        n = len(pts)
        ks = [None] + list(range(0, n + 2)) + kextra
        for (bi, box) in enumerate(boxes):
            q = queries(d, -1, hi + 1, box)
            for leaf in leafs:
                for psl in psls:
                    check_tree(mod, cx, t, pts, q, box, scales[(i // 2 + bi) % len(scales)], leaf, psl, ks, [None] + list(range(d)), name)
                    if cx.fails:
                        return

    return Fam(name, len(sets) * 2, run)


def pattern(kind, n, d):
    i = np.arange(n, dtype=np.int64)
    c = []
    for j in range(d):
        if kind == "ramp":
            c.append((i * (2 * j + 1)) % 13)
        elif kind == "rev":
            c.append((n - i) * (j + 1) % 17)
        elif kind == "same":
            c.append(i * 0 + 3)
        elif kind == "two":
            c.append((i >> j) & 1)
        elif kind == "grid":
            c.append((i // 5**j) % 5)
        elif kind == "mix":
            c.append((i * 7919 + j * 104729 + (i * i) % 31) % 11)
    return np.stack(c, 1) * 2


KINDS = ["ramp", "rev", "same", "two", "grid", "mix"]


def big(name, sizes, leafs, psls):
    cases = list(itertools.product(sizes, KINDS, (2, 3), ("f64", "f32"), (0, 1)))

    def run(mod, cx, i):
        n, kind, d, t, boxed = cases[i]
        pts = pattern(kind, n, d)
        box = [36, 35, 41][:d] if boxed else None
        r = np.arange(40, dtype=np.int64)
        q = np.stack([(r * (5 + 2 * j) + j) % 36 for j in range(d)], 1)
        ks = [None, 1, 2, n // 2, n - 1, n, n + 1, 2**40]
        for leaf in leafs:
            for psl in psls:
                check_tree(mod, cx, t, pts, q, box, 0.1 if i % 3 == 0 else 1.0, leaf, psl, [k for k in ks if k is None or k >= 0], [None] + list(range(d)), f"{kind}({n})")
                if cx.fails:
                    return

    return Fam(name, len(cases), run)


def batches(name, ms):
    """Every batch size: every row is that query's own answer."""
    cases = list(itertools.product(ms, (2, 3), ("f64", "f32"), (0, 1)))

    def run(mod, cx, i):
        m, d, t, boxed = cases[i]
        pts = pattern("mix", 60, d)
        box = [29, 23, 37][:d] if boxed else None
        r = np.arange(m, dtype=np.int64)
        q = np.stack([(r * (7 + 2 * j) + j + r * r % 5) % 22 for j in range(d)], 1).reshape(m, d)
        ks, axes = ([None, 3], [None, 0]) if m > 10000 else ([None, 1, 2, 5, 60, 61, 0], [None, 0, d - 1])
        check_tree(mod, cx, t, pts, q, box, 1.0, 4, None if m % 2 else 1, ks, axes, f"mix(60), m={m}")

    return Fam(name, len(cases), run)


def large(name, sizes):
    cases = list(itertools.product(sizes, ("mix", "two", "same", "rev"), (2, 3), ("f64", "f32"), (None, 0, 2)))

    def run(mod, cx, i):
        n, kind, d, t, psl = cases[i]
        pts = pattern(kind, n, d)
        q = queries(d, 0, 3, None)[:12] * 3
        check_tree(mod, cx, t, pts, q, None, 1.0, 32, psl, [None, 1, 3, 40], [None, 0], f"{kind}({n})")

    return Fam(name, len(cases), run)


def layouts(name):
    """C-contiguous float arrays that came about in different ways, for every
    argument, positional and by name."""

    def lay(x):
        n, d = x.shape
        wide = np.zeros((n + 4, d), x.dtype)
        wide[2 : n + 2] = x
        flat = np.zeros(n * d + 6, x.dtype)
        flat[3 : 3 + n * d] = x.ravel()
        ro = x.copy()
        ro.setflags(write=False)
        buf = bytearray(8 * 4 + x.nbytes)
        buf[32:] = x.tobytes()
        deep = np.zeros((3, n, d), x.dtype)
        deep[1] = x
        sub = type("Sub", (np.ndarray,), {})
        return {
            "copy": x.copy(),
            "rows of a larger array": wide[2 : n + 2],
            "reshaped piece": flat[3 : 3 + n * d].reshape(n, d),
            "read-only": ro,
            "frombuffer": np.frombuffer(buf, x.dtype, n * d, 32).reshape(n, d),
            "frombytes": np.frombuffer(bytes(buf), x.dtype, n * d, 32).reshape(n, d),
            "page of a cube": deep[1],
            "subclass": x.view(sub),
            "transposed transpose": np.asfortranarray(x.T).T,
            "ascontiguous of strided": np.ascontiguousarray(np.repeat(x, 2, axis=0)[::2]),
        }

    names = list(lay(np.zeros((2, 2))))
    cases = list(itertools.product(("f64", "f32"), (2, 3), (0, 1), names, names))

    def run(mod, cx, i):
        t, d, boxed, dn, qn = cases[i]
        pts = pattern("mix", 7, d)
        box = [24, 25, 26][:d] if boxed else None
        qpts = queries(d, 0, 3, None) * 5
        data, q = lay(arr(pts, t, 1.0))[dn], lay(arr(qpts, t, 1.0))[qn]
        ref = Ref(pts, qpts, box)
        rows = np.arange(len(qpts))
        bx = None if box is None else arr(box, t, 1.0)
        bxs = [None] if box is None else [bx, np.concatenate([bx, bx])[:d], np.stack([bx, bx])[1]]
        for b in bxs:
            for mk in (
                lambda: cls(mod, t)(data, 2, None, b),
                lambda: cls(mod, t)(data, 2, 1, b),
                lambda: cls(mod, t)(data=data, leafsize=2, boxsize=b),
                lambda: cls(mod, t)(data, leafsize=2, par_split_level=0, boxsize=b),
                lambda: cls(mod, t)(boxsize=b, par_split_level=2, leafsize=np.int64(2), data=data),
            ):
                cx.states += 1
                what = lambda: f"layouts {cases[i]}"
                cx.note(what())
                try:
                    tree = mk()
                    outs = [
                        (tree.query(q), None, None),
                        (tree.query(query=q), None, None),
                        (tree.query(q, None, None), None, None),
                        (tree.query(q, k=3), 3, None),
                        (tree.query(q, True), 1, None),
                        (tree.query(q, np.uint8(2)), 2, None),
                        (tree.query(q, axis=d - 1), None, d - 1),
                        (tree.query(axis=0, k=4, query=q), 4, 0),
                    ]
                except BaseException as x:
                    return cx.fail(f"{what()} raised {x!r}")
                for out, k, axis in outs:
                    one = axis is None and (k is None or k == 1)
                    if one or not ref.amb.any():
                        judge(cx, out, ref, rows, k, axis, t, 1.0, what)
                    cx.op((k, axis, out[0].tobytes()))
                    if cx.fails:
                        return

    return Fam(name, len(cases), run)


def grid(side, d):
    return list(itertools.product(range(0, 2 * side, 2), repeat=d))


def seqs(points, upto):
    for n in range(1, upto + 1):
        yield from itertools.product(points, repeat=n)


def c14(tier):
    th = tier == "thorough"
    leafs = [0, 1, 2, 4, 1000] if th else [1, 2, 1000]
    psls = [None, 0, 1, 2, 3] if th else [None, 1]
    b2 = [None, [4, 4], [5, 9]]
    b3 = [None, [2, 2, 2], [3, 5, 7]]
    g2 = grid(2, 2)
    out = [
        lat("subsets of 3x3", subsets(grid(3, 2)), 2, 4, b2, [1.0, 0.5], leafs, psls, []),
        lat("sequences over 2x2", seqs(g2, 5 if th else 4), 2, 2, [None, [2, 2], [3, 5]], [1.0, 0.1], leafs, psls, [2**63]),
        lat("subsets of 2x2x2", subsets(grid(2, 3)), 3, 2, b3, [1.0, 0.25], leafs if th else [1, 3], psls, []),
        lat("sequences over 2x2x2", seqs(grid(2, 3), 3), 3, 2, b3[:1] + b3[2:], [1.0, 3.0], leafs if th else [1], psls, []),
        big("patterns", [5, 9, 16, 33, 64, 100] + ([150, 257, 300] if th else []), [1, 4, 16] + ([0, 2, 7, 32, 1000] if th else []), [None, 1, 2] + ([0, 3, 60] if th else [])),
        batches("batch sizes", list(range(0, 41)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025, 4097, 70001] + ([20000, 65536, 65537, 131073] if th else [])),
        layouts("layouts"),
        large("large", [100_000, 100_003] + ([200_001] if th else [])),
    ]
    return out


# --------------------------------------------------------------------- misuse
class Val:
    """An argument: what it is called, how to make it, and whether it is valid.
    ok: True, False, or None where both an exception and a right answer are fine."""

    def __init__(self, name, make, ok=True, **kw):
        self.name, self.make, self.ok = name, make, ok
        self.__dict__.update(kw)


def misaligned(x):
    """The same array one byte off (contiguous, but not aligned)."""
    b = bytearray(x.nbytes + 1)
    b[1:] = x.tobytes()
    return np.frombuffer(b, x.dtype, x.size, 1).reshape(x.shape)


def strided(x):
    """Every way to lay out x that is not C-contiguous."""
    wide = np.zeros((x.shape[0], 2 * x.shape[1]), x.dtype)
    wide[:, ::2] = x
    rows = np.repeat(x, 2, axis=0)
    pad = np.zeros((x.shape[0], x.shape[1] + 1), x.dtype)
    pad[:, :-1] = x
    return {
        "every other column": wide[:, ::2],
        "every other row": rows[::2],
        "columns of a wider array": pad[:, :-1],
        "fortran": np.asfortranarray(x),
        "reversed rows": x[::-1].copy()[::-1],
        "reversed columns": x[:, ::-1].copy()[:, ::-1],
        "broadcast": np.broadcast_to(x[:1], x.shape),
    }


def arrays(t, d, n, role):
    """Everything one may pass where an (n, d) array belongs."""
    T = DT[t]
    other = np.float32 if t == "f64" else np.float64
    base = pattern("mix", n, d).astype(T)
    V = [Val("valid", lambda: base.copy(), True, pts=base)]
    for nm, bad in (("nan", np.nan), ("inf", np.inf), ("-inf", -np.inf)):
        for at in {(0, 0), (n - 1, d - 1), (n // 2, 0)}:

            def mk(bad=bad, at=at):
                x = base.copy()
                x[at] = bad
                return x

            V.append(Val(f"{nm} at {at}", mk, False))

    def snan():
        x = base.copy()
        x.view(np.uint32 if t == "f32" else np.uint64)[0, 0] = 0x7F800001 if t == "f32" else 0x7FF0000000000001
        return x

    V.append(Val("signalling nan", snan, False))
    for nm in strided(base):
        V.append(Val(nm, lambda nm=nm: strided(base)[nm], False))
    V.append(Val("misaligned", lambda: misaligned(base), False))
    V.append(Val("byte-swapped", lambda: base.astype(base.dtype.newbyteorder()), False))
    for nm, ty in (("other float", other), ("int64", np.int64), ("int32", np.int32), ("uint8", np.uint8), ("bool", bool), ("complex", np.complex128), ("half", np.float16), ("longdouble", np.longdouble), ("object", object), ("str", str)):
        V.append(Val(f"dtype {nm}", lambda ty=ty: base.astype(ty), False))
    V.append(Val("structured", lambda: np.zeros((n, d), dtype=[("a", T)]), False))
    for dd in (0, 1, 2, 3, 4, 6, 7):
        if dd != d:
            V.append(Val(f"{dd} columns", lambda dd=dd: np.zeros((n, dd), T), dd if role == "data" and dd in (2, 3) else False, pts=np.zeros((n, dd))))
    V.append(Val("no rows", lambda: np.zeros((0, d), T), False if role == "data" else True, pts=np.zeros((0, d), T)))
    V.append(Val("no rows, transposed", lambda: np.zeros((d, 0), T).T, False if role == "data" else None, pts=np.zeros((0, d), T)))
    V.append(Val("0 x 0", lambda: np.zeros((0, 0), T), False))
    V.append(Val("1-D", lambda: base.ravel().copy(), False))
    V.append(Val("1-D of d", lambda: base[0].copy(), False))
    V.append(Val("3-D", lambda: base[None].copy(), False))
    V.append(Val("0-D", lambda: np.array(1.0, T), False))
    V.append(Val("list", lambda: base.tolist(), False))
    V.append(Val("tuple", lambda: tuple(map(tuple, base.tolist())), False))
    V.append(Val("bytes", lambda: base.tobytes(), False))
    V.append(Val("memoryview", lambda: memoryview(base), False))
    for x in (None, 0, 1.5, "abc", {}, object, np.float64(1.0)):
        V.append(Val(f"{x!r}"[:20], lambda x=x: x, False))
    V.append(Val("missing", None, False))
    return V


def ints(role, top):
    """Everything one may pass where a size belongs."""
    V = [Val(str(x), lambda x=x: x, True, v=x) for x in top]
    V += [Val("True", lambda: True, True, v=1), Val("np.int64(2)", lambda: np.int64(2), True, v=2), Val("np.uint8(3)", lambda: np.uint8(3), True, v=3)]
    if role == "optional":
        V += [Val("None", lambda: None, True, v=None), Val("missing", None, True, v=None)]
    else:
        V += [Val("None", lambda: None, False), Val("missing", None, False)]
    for x in (-1, -(2**63), 2**64, 2**70, 1.0, 2.5, math.nan, "1", b"1", [1], (1,), {}, object(), np.float64(1.0)):
        V.append(Val(f"{x!r}"[:24], lambda x=x: x, False))
    return V


def boxes(t, d, tops):
    """Everything one may pass as a box; the data reaches up to tops."""
    top = max(tops)
    T = DT[t]
    other = np.float32 if t == "f64" else np.float64
    good = np.array([tops[j] + (0, 5, 11)[j] for j in range(d)], T)
    V = [Val("missing", None, True, box=None), Val("None", lambda: None, True, box=None), Val("tight", lambda: np.array(tops, T), True, box=list(tops)), Val("good", lambda: good.copy(), True, box=good.astype(np.int64).tolist())]
    for nm, bad in (("small", None), ("zero", 0), ("negative", -top), ("nan", np.nan), ("inf", np.inf), ("-inf", -np.inf)):
        for j in range(d):

            def mk(bad=bad, j=j):
                x = good.copy()
                x[j] = tops[j] - 1 if bad is None else bad
                return x

            V.append(Val(f"{nm} in axis {j}", mk, False))
    for ln in (0, 1, 2, 3, 4, 5):
        if ln != d:
            V.append(Val(f"{ln} lengths", lambda ln=ln: np.full(ln, top + 1, T), False))
    V.append(Val("strided", lambda: np.repeat(good, 2)[::2], None, box=good.astype(np.int64).tolist()))
    V.append(Val("reversed", lambda: good[::-1].copy()[::-1], None, box=good.astype(np.int64).tolist()))
    V.append(Val("broadcast", lambda: np.broadcast_to(np.array([top + 1], T), d), None, box=[top + 1] * d))
    V.append(Val("misaligned", lambda: misaligned(good), False))
    V.append(Val("byte-swapped", lambda: good.astype(good.dtype.newbyteorder()), False))
    V.append(Val("other float", lambda: good.astype(other), False))
    V.append(Val("ints", lambda: good.astype(np.int64), False))
    V.append(Val("2-D", lambda: good[None].copy(), False))
    V.append(Val("0-D", lambda: np.array(top, T), False))
    for x in (10.0, 10, "abc", good.tolist(), tuple(good.tolist())):
        V.append(Val(f"{x!r}"[:24], lambda x=x: x, False))
    return V


def call(f, args):
    """Call with the arguments that are not missing: ('ok', value) or the exception."""
    kw = {}
    for k, v in args:
        if v.make is not None:
            kw[k] = v.make()
    try:
        return "ok", f(**kw)
    except BaseException as x:
        return "raised", x


class Witness:
    """Trees that exist all along and must keep answering."""

    def __init__(self, mod):
        self.w = []
        for t, d, box in (("f64", 2, None), ("f32", 3, [24, 31, 27])):
            pts = pattern("mix", 9, d)
            q = queries(d, 1, 3, None) * 3
            tree = cls(mod, t)(arr(pts, t, 1.0), 2, None, None if box is None else arr(box, t, 1.0))
            self.w.append((t, tree, Ref(pts, q, box), arr(q, t, 1.0)))

    def ok(self, cx, after, i=0):
        for j, (t, tree, ref, q) in enumerate(self.w):
            k, axis = ((None, None), (4, None), (3, 1))[(i + j) % 3]
            try:
                out = tree.query(q, k, axis)
            except BaseException as x:
                return cx.fail(f"after {after()}: an existing tree raised {x!r}")
            judge(cx, out, ref, np.arange(len(q)), k, axis, t, 1.0, lambda: f"after {after()}: an existing tree")


def expect(cx, got, ok, what):
    """Judge success or failure; returns whether there is an answer to judge."""
    kind, v = got
    if kind == "raised":
        if not isinstance(v, Exception):
            cx.fail(f"{what()} raised {type(v).__mro__[:3]} ({v!s:.300}), which is no Exception")
        elif ok is True:
            cx.fail(f"{what()} is valid but raised {v!r:.400}")
        return False
    if ok is False:
        cx.fail(f"{what()} is invalid but was accepted")
    return True


def misuse_new(name, cut):
    """Every combination of the alphabets of the constructor's arguments that
    has at most `cut` arguments away from valid values."""
    cases = []
    for t, d in itertools.product(("f64", "f32"), (2, 3)):
        A = arrays(t, d, 6, "data")
        n = len(A)
        cases += [(t, d, i) for i in range(n)]

    def run(mod, cx, i):
        t, d, ai = cases[i]
        A = arrays(t, d, 6, "data")
        a = A[ai]
        pts = pattern("mix", 6, d)
        tops = pts.max(0).tolist()
        wit = Witness(mod)
        qp = queries(d, 0, 2, None) * 4
        for li, l in enumerate(ints("needed", [0, 1, 2, 5, 6, 7, 2**31, 2**63, 2**64 - 1])):
            for pi, p in enumerate(ints("optional", [0, 1, 2, 5, 64, 2**64 - 1])):
                for bi, b in enumerate(boxes(t, d, tops)):
                    if sum(v.ok is not True for v in (a, l, p, b)) > cut:
                        continue
                    if (a.ok is not True) + (li > 1) + (pi > 1) + (bi > 1) > cut + 1:
                        continue
                    what = lambda: f"Tree{t}(data={a.name} ({d} columns expected), leafsize={l.name}, par_split_level={p.name}, boxsize={b.name})"
                    cx.note(what())
                    oks = [a.ok, l.ok, p.ok, b.ok]
                    dd = d
                    if a.ok is not True and a.ok is not False and a.ok is not None:
                        # another dimension, valid in itself: boxes then have the wrong length
                        dd = a.ok
                        oks[0] = True
                        if b.make is not None and b.name != "None":
                            oks[3] = None if b.ok is not False or "lengths" in b.name else False
                    ok = False if False in oks else None if None in oks else True
                    got = call(cls(mod, t), [("data", a), ("leafsize", l), ("par_split_level", p), ("boxsize", b)])
                    cx.states += 1
                    if expect(cx, got, ok, what) and not cx.fails and dd == d:
                        ref = Ref(a.pts.astype(np.int64), qp, b.box)
                        rows = np.arange(len(qp))
                        rows = rows[((qp <= (b.box or 1000)).all(1)) & ~ref.amb]
                        try:
                            out = got[1].query(arr(qp, t, 1.0)[rows], 3)
                            judge(cx, out, ref, rows, 3, None, t, 1.0, what)
                        except BaseException as x:
                            cx.fail(f"{what()}.query raised {x!r}")
                    cx.op((ok, got[0], type(got[1]).__name__, str(got[1]) if got[0] == "raised" else ""), lambda: f"{what()} -> {got[1]!r}")
                    got = None
                    if not cx.fails:
                        wit.ok(cx, what, li + pi + bi)
                    if cx.fails:
                        return

    return Fam(name, len(cases), run)


def misuse_query(name, cut):
    trees = list(itertools.product(("f64", "f32"), (2, 3), (1, 6, 40), (0, 1)))
    cases = [(tr, i) for tr in trees for i in range(len(arrays(tr[0], tr[1], 5, "query")))]

    def run(mod, cx, i):
        (t, d, n, boxed), ai = cases[i]
        pts = pattern("mix", n, d)
        box = [27, 29, 31][:d] if boxed else None
        tree = cls(mod, t)(arr(pts, t, 1.0), 3, 1 if n == 40 else None, None if box is None else arr(box, t, 1.0))
        a = arrays(t, d, 5, "query")[ai]
        wit = Witness(mod)
        for ki, k in enumerate(ints("optional", [0, 1, 2, n - 1, n, n + 1, 2**31, 2**63, 2**64 - 1])):
            for xi, x in enumerate(ints("optional", list(range(0, d + 3)) + [2**63, 2**64 - 1])):
                if sum(v.ok is not True for v in (a, k, x)) > cut:
                    continue
                what = lambda: f"Tree{t}({n} points in {d}-D, box={box}).query({a.name}, k={k.name}, axis={x.name})"
                cx.note(what())
                oks = [a.ok, k.ok, x.ok]
                if x.ok is True and x.v is not None and x.v >= d:
                    oks[2] = False
                ok = False if False in oks else None if None in oks else True
                # a missing axis may go unnoticed where nothing is asked
                if ok is False and oks[0] is not False and oks[1] is True and x.ok is True and (len(a.pts) == 0 or k.v == 0):
                    ok = None
                got = call(tree.query, [("query", a), ("k", k), ("axis", x)])
                if expect(cx, got, ok, what) and not cx.fails and not (x.v is not None and x.v >= d):
                    q = a.pts.astype(np.int64).reshape(-1, d)
                    ref = Ref(pts, q, box)
                    rows = np.arange(len(q))
                    if not ref.amb.any():
                        judge(cx, got[1], ref, rows, k.v, x.v, t, 1.0, what)
                cx.op((ok, got[0], str(got[1])), lambda: f"{what()} -> {got[1]!r}")
                if not cx.fails:
                    wit.ok(cx, what, ki + xi)
                if cx.fails:
                    return

    return Fam(name, len(cases), run)


def nan_everywhere(name, sizes):
    """Each kind of invalid number at every position of data and queries."""
    cases = list(itertools.product(("f64", "f32"), (2, 3), sizes, (0, 1)))

    def run(mod, cx, i):
        t, d, n, boxed = cases[i]
        pts = pattern("mix", n, d)
        bx = arr([27, 29, 31][:d], t, 1.0) if boxed else None
        data = arr(pts, t, 1.0)
        tree = cls(mod, t)(data, 3, None, bx)
        wit = Witness(mod)
        for at in itertools.product(range(n), range(d)):
            for bad in (np.nan, np.inf, -np.inf):
                x = data.copy()
                x[at] = bad
                for psl in (None, 0, 1):
                    what = lambda: f"Tree{t}({n} points in {d}-D, {bad} at {at}, psl={psl}, box={boxed})"
                    cx.note(what())
                    got = call(lambda: cls(mod, t)(x, 3, psl, bx), [])
                    expect(cx, got, False, what)
                    cx.states += 1
                    cx.op((psl, str(got[1])), what)
                for k, axis in ((None, None), (1, None), (2, None), (n, None), (n + 1, None), (2, 0), (n, d - 1), (None, 0)):
                    what = lambda: f"Tree{t}({n} points in {d}-D, box={boxed}).query({n} queries with {bad} at {at}, k={k}, axis={axis})"
                    cx.note(what())
                    got = call(lambda: tree.query(x, k, axis), [])
                    expect(cx, got, False, what)
                    cx.op((k, axis, str(got[1])), what)
                if cx.fails:
                    return
        wit.ok(cx, lambda: "invalid numbers", n)

    return Fam(name, len(cases), run)


def unset(name, sizes):
    """k = 0, k > n, empty batches and one-point trees: every returned number is
    the right one (memory is filled with junk by the allocator)."""
    cases = list(itertools.product(("f64", "f32"), (2, 3), sizes, (0, 1)))

    def run(mod, cx, i):
        t, d, n, boxed = cases[i]
        pts = pattern("mix", n, d)
        box = [27, 29, 31][:d] if boxed else None
        for leaf in (1, 4, n, n + 1):
            for m in (0, 1, 2, 3, 7, 40):
                r = np.arange(m, dtype=np.int64)
                q = np.stack([(r * (5 + 2 * j) + j) % 26 for j in range(d)], 1).reshape(m, d)
                ks = [None, 0, 1] + [k for k in (n - 1, n, n + 1, n + 2, 2 * n, 10 * n, 2**20, 2**32, 2**61, 2**63, 2**64 - 1) if k > 1]
                check_tree(mod, cx, t, pts, q, box, 1.0, leaf, None, ks, [None] + list(range(d)), f"mix({n})")
                if cx.fails:
                    return

    return Fam(name, len(cases), run)


def lifetimes(name, depth):
    """Every history of building, dropping arrays and trees, provoking errors,
    overwriting freed memory and asking."""
    ops = ["new A", "new B", "new A from a view", "drop arrays", "drop tree 0", "query 0", "query last", "bad query", "bad new", "junk", "reinit"]
    cases = []
    for L in range(2, depth + 1):
        for h in itertools.product(range(len(ops)), repeat=L):
            if ops[h[0]].startswith(("new", "bad new", "reinit")):
                cases.append(h)
    CH = 64

    def one(mod, cx, h):
        what = lambda: "history " + "; ".join(ops[o] for o in h)
        cx.note(what())
        cx.states += 1
        arrs, trees, kept = [], [], []
        pend = None

        def ask(i, n):
            tree, t, d, pts, box = trees[i]
            q = np.array([[3, 5, 8][:d], [20, 1, 9][:d], [11, 26, 2][:d]], dtype=np.int64)
            ref = Ref(pts, q, box)
            k, axis = ((3, None), (None, None), (40, 0))[n % 3]
            out = tree.query(arr(q, t, 1.0), k, axis)
            j = lambda: judge(cx, out, ref, np.arange(3), k, axis, t, 1.0, what)
            j()
            kept.append(j)

        for n, o in enumerate(h):
            op = ops[o]
            try:
                if op.startswith("new"):
                    t, d, sz, box = ("f64", 2, 21, None) if op[4] == "A" else ("f32", 3, 17, [27, 29, 31])
                    pts = pattern("mix", sz, d)
                    a = arr(pts, t, 1.0)
                    if "view" in op:
                        w = np.empty((sz + 8, d), DT[t])
                        w[4 : 4 + sz] = a
                        a = w[4 : 4 + sz]
                        w = None
                    bx = None if box is None else arr(box, t, 1.0)
                    tr = cls(mod, t)(a, 4, None if n % 2 else 1, bx)
                    trees.append((tr, t, d, pts, box))
                    arrs += [a, bx]
                    tr = a = bx = None
                elif op == "drop arrays":
                    arrs.clear()
                elif op == "drop tree 0":
                    if trees:
                        trees.pop(0)
                elif op == "query 0":
                    if trees:
                        ask(0, n)
                elif op == "query last":
                    if trees:
                        ask(-1, n)
                elif op == "bad query":
                    if trees:
                        tree, t, d, pts, box = trees[-1]
                        got = call(lambda: tree.query(np.full((4, d), np.nan, DT[t]), (None, 2)[n % 2], (None, 1)[n // 2 % 2]), [])
                        expect(cx, got, False, what)
                        tree = got = None
                elif op == "bad new":
                    x = arr(pattern("mix", 11, 2), "f64", 1.0)
                    got = call(lambda: mod.Treef64(x, 2, None, arr([1, 1], "f64", 1.0)), [])
                    expect(cx, got, False, what)
                    x[3, 1] = np.inf
                    got = call(lambda: mod.Treef64(x, 2, 1, None), [])
                    expect(cx, got, False, what)
                    x = got = None
                elif op == "junk":
                    junk = [np.full((s, c), 7.75e7, T) for s in (17, 21, 29, 3) for c in (2, 3, 1) for T in (np.float32, np.float64)]
                    junk = None
                elif op == "reinit":
                    # an object whose constructor never ran, and calling it again
                    got = call(lambda: mod.Treef64.__new__(mod.Treef64), [])
                    expect(cx, got, False, what)
                    if trees:
                        tree, t, d, pts, box = trees[0]
                        call(lambda: tree.__init__(1, 2, 3), [])
                    tree = got = None
            except BaseException as x:
                return cx.fail(f"{what()} raised {x!r} in step {n}")
        arrs.clear()
        if len(h) % 2:
            gc.collect(0)
        junk = [np.full((s, c), -3.5e6, T) for s in (17, 21, 29, 3) for c in (2, 3) for T in (np.float32, np.float64)]
        for i in range(len(trees)):
            ask(i, i)
        trees.clear()
        for j in kept:
            j()
        cx.op((len(kept), tuple(h[:2])), what)

    def run(mod, cx, i):
        for h in cases[i * CH : (i + 1) * CH]:
            one(mod, cx, h)
            if cx.fails:
                return

    return Fam(name, (len(cases) + CH - 1) // CH, run)


def c15(tier):
    th = tier == "thorough"
    return [
        misuse_new("constructor arguments", 4 if th else 2),
        misuse_query("query arguments", 3 if th else 2),
        nan_everywhere("invalid numbers everywhere", [1, 2, 5, 20] + ([64, 200] if th else [])),
        unset("k beyond n", [1, 2, 3, 5, 17] + ([40, 100] if th else [])),
        lifetimes("lifetimes", 5 if th else 4),
    ]


PROPS = {"C14": c14, "C15": c15}
