//! C16: safe calls of every kind, for monitors of undefined behaviour
//! (sanitizers, interpreter, allocator) and for counting what is never freed.
//! Answers are not judged here, only used.
use enumk::{calls::*, data::*, engine::*, num::*, oracle::*, probe::*, uni::*};
use fnntw::Tree;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq)]
enum Tier {
    Tiny,
    Quick,
    Thorough,
}
use Tier::*;

/// Use a value, so that a monitor of uninitialised memory sees it decide.
fn eat(h: u64) -> u64 {
    if std::hint::black_box(h) == 0x1234_5678_9abc_def1 {
        eprintln!("unlikely");
    }
    h
}
fn eat_all<T: Fl>(o: &Out<T>) -> u64 {
    match o {
        Out::Rows(r) => {
            let mut h = 1;
            for b in bits(r) {
                h = eat(b) ^ (h << 1);
            }
            h
        }
        Out::Refused(s) | Out::Shape(s) => s.bytes().fold(7, |h, b| eat(b as u64) ^ (h << 1)),
    }
}
fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn calls<const D: usize>(n: usize, tier: Tier, with: bool) -> Vec<Call> {
    let mut v = vec![Call::Nn];
    let mut ks = vec![0, 1, 2, n, n + 1];
    if tier == Quick {
        ks.extend([n / 2, usize::MAX]);
    }
    if tier == Thorough {
        ks.extend([n.saturating_sub(1), n / 2, n + 7, usize::MAX]);
    }
    if tier == Tiny {
        ks = vec![2, n + 1];
    }
    ks.sort();
    ks.dedup();
    for &k in &ks {
        v.push(Call::Knn(k));
        v.push(Call::Batch(k));
        for a in 0..D {
            if D <= 2 || a.wrapping_add(k) % D == 0 || a + 1 == D {
                v.push(Call::Axis(k, a));
            }
        }
    }
    v.push(Call::Axis(2, D));
    v.push(Call::Axis(1, usize::MAX));
    if with {
        v.extend([Call::With(0), Call::With(1), Call::With(n + 1)]);
    }
    v.retain(|c| c.exists());
    v
}

/// One tree through all calls: with data, box and queries in blocks of their
/// own, the box and the queries freed before the answers are used, the tree
/// dropped before or after.
fn drive<T: Fl, const D: usize>(
    data: &[[T; D]],
    leaf: usize,
    b: Build,
    bx: Option<[T; D]>,
    sets: &[Vec<[T; D]>],
    calls: &[Call],
    drop_first: bool,
    cx: &mut Cx,
) {
    cx.states += 1;
    let made = quiet(|| {
        let t = match b {
            Build::Serial => Tree::new(data, leaf),
            Build::Par(l) => Tree::new_parallel(data, leaf, l),
        }
        .map_err(|e| format!("{e} {e:?}"))?;
        match bx {
            None => Ok(t),
            Some(l) => {
                let l = Box::new(l);
                let r = t.with_boxsize(&l).map_err(|e| format!("{e} {e:?}"));
                drop(l);
                r
            }
        }
    });
    cx.op();
    let t = match made {
        None => return,
        Some(Err(e)) => {
            cx.mix(e.bytes().fold(3, |h, b| eat(b as u64) ^ (h << 1)));
            cx.op();
            return;
        }
        Some(Ok(t)) => t,
    };
    cx.mix(eat(t.size() as u64));
    let mut kept: Vec<Out<T>> = vec![];
    for s in sets {
        for &c in calls {
            if matches!(c, Call::With(_)) && s.len() > 2 {
                continue;
            }
            let qs = s.clone().into_boxed_slice();
            let r = quiet(|| call(&t, data.len(), &qs, c));
            drop(qs);
            if let Some(o) = r {
                kept.push(o);
            }
            cx.op();
        }
    }
    #[cfg(not(feature = "no-position"))]
    if let Some(q) = sets.first().and_then(|s| s.first()) {
        // positions live as long as the tree
        let q = Box::new(*q);
        let r = quiet(|| (t.query_nearest(&q).ok(), t.query_nearest_k(&q, 2).ok()));
        drop(q);
        if let Some((Some(a), b)) = r {
            for x in a.2.iter().chain(b.iter().flat_map(|b| b.2.iter().flatten())) {
                cx.mix(eat(x.into_inner().bits()));
            }
        }
        cx.op();
    }
    for p in t.get_data() {
        for x in p {
            eat(x.bits());
        }
    }
    if drop_first {
        drop(t);
        for o in &kept {
            let h = eat_all(o);
            cx.mix(h);
        }
    } else {
        for o in kept.iter().rev() {
            let h = eat_all(o);
            cx.mix(h);
        }
        drop(kept);
        drop(t);
    }
    cx.op();
    cx.sample(|| format!("leafsize {leaf} {b:?} box {bx:?}, {} query sets, {calls:?}; {}", sets.len(), show(data)));
}

fn sets<T: Fl, const D: usize>(valid: Vec<[T; D]>, tier: Tier) -> Vec<Vec<[T; D]>> {
    let q0 = valid[0];
    let bad = |i: usize, x: f64| -> [T; D] {
        let mut q = q0;
        q[i % D] = T::of(x);
        q
    };
    let mut v = vec![valid.clone(), vec![], vec![q0, bad(D - 1, f64::NAN)]];
    if tier != Tiny {
        v.push(vec![bad(0, f64::INFINITY), q0]);
        v.push(vec![bad(D - 1, -1e30), bad(0, 1e30)]);
        v.push(vec![q0]);
    }
    v
}

#[derive(Clone, Copy)]
struct V(Tier);
impl Visit for V {
    fn go<T: Fl, const D: usize>(self, ds: &Ds<D>, c: Class, cx: &mut Cx) {
        let tier = self.0;
        let data: Box<[[T; D]]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
        let n = data.len();
        let leafs = match c {
            Class::S if tier == Tiny => vec![0, 1],
            Class::S if tier == Quick => vec![0, 1, n],
            Class::S => (0..=n + 1).collect::<Vec<_>>(),
            Class::M if tier != Thorough => vec![0, 1],
            Class::M => vec![0, 1, 2, n],
            Class::L if tier == Tiny => vec![1],
            Class::L => vec![1, 4, n],
            Class::X => vec![1, 16],
        };
        let builds: &[Build] = match c {
            Class::L if tier == Tiny => &[Build::Serial],
            Class::S if tier != Thorough => &[Build::Serial, Build::Par(1)],
            Class::S => &[Build::Serial, Build::Par(0), Build::Par(1), Build::Par(2)],
            _ => &[Build::Serial, Build::Par(1)],
        };
        let m = match (c, tier) {
            (_, Tiny) => 2,
            (Class::S | Class::M, _) => 9,
            _ => 6,
        };
        let all = calls::<D>(n, tier, false);
        let withs = calls::<D>(n, tier, tier != Tiny && matches!(c, Class::S) && n <= 3);
        let f = |p: &IPt<D>| -> [T; D] { ds.unit.pt(p) };
        let cut = if matches!(c, Class::L | Class::X) && tier == Quick { 4 } else { 9 };
        let mut open = sets(sparse_queries(ds, m).iter().map(f).collect(), tier);
        open.truncate(cut);
        let bxs = if ds.lo.iter().all(|x| *x >= 0) { boxes(ds, &[0, 3], false) } else { vec![] };
        for (i, &leaf) in leafs.iter().enumerate() {
            for &b in builds {
                let first = i == 0 && b == builds[0];
                let cs = if first { &withs } else { &all };
                drive(&data, leaf, b, None, &open[..if first { 4.min(open.len()) } else { open.len() }], cs, (i + n) % 2 == 0, cx);
                if tier == Tiny && !first {
                    continue;
                }
                for (j, l) in bxs.iter().enumerate() {
                    let cs = if j == 0 && n == 2 { cs } else { &all };
                    let mut per = sets(box_queries_sparse(ds, l, m).iter().take(m + 3).map(f).collect(), tier);
                    per.truncate(cut);
                    drive(&data, leaf, b, Some(f(l)), &per, cs, (i + n) % 2 == 1, cx);
                }
                // boxes that do not fit, or are no boxes
                if first {
                    for x in [f64::NAN, -1.0, 0.0, 1e-30, f64::INFINITY] {
                        let mut l: [T; D] = [T::of(1e6); D];
                        l[D - 1] = T::of(x);
                        drive(&data, leaf, b, Some(l), &open, &[Call::Nn, Call::Knn(2)], true, cx);
                    }
                }
            }
        }
    }
}

/// Data with one invalid component, and no data at all.
fn invalid<T: Fl, const D: usize>(maxn: usize, o: &mut Vec<Box<dyn Family>>) {
    let kinds = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN];
    let per = move |n: usize| n * D * kinds.len();
    let total: usize = 1 + (1..=maxn).map(per).sum::<usize>();
    o.push(fam(format!("{D}-D {} data with an invalid number at every position, n <= {maxn}", T::NAME), total as u64, move |i, cx| {
        let mut i = i as usize;
        let mut data: Vec<[T; D]> = vec![];
        if i > 0 {
            i -= 1;
            let mut n = 1;
            while i >= per(n) {
                i -= per(n);
                n += 1;
            }
            data = (0..n).map(|j| std::array::from_fn(|a| T::of((j * 7 % 5 + a) as f64))).collect();
            data[i / kinds.len() / D][i / kinds.len() % D] = T::of(kinds[i % kinds.len()]);
        }
        let data = data.into_boxed_slice();
        for b in [Build::Serial, Build::Par(0), Build::Par(1), Build::Par(3)] {
            for leaf in [0, 1, 3] {
                for bx in [None, Some([T::of(50.0); D])] {
                    drive(&data, leaf, b, bx, &[vec![[T::of(1.0); D]]], &[Call::Nn, Call::Knn(1), Call::Knn(9)], true, cx);
                }
            }
        }
    }));
}

fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}
/// Real pools, entered from outside, from inside each other, and by several
/// threads at once.
fn pools<T: Fl, const D: usize>(sizes: Vec<usize>, threads: Vec<usize>, batches: Vec<usize>, o: &mut Vec<Box<dyn Family>>) {
    let how = 4;
    let total = sizes.len() * threads.len() * batches.len() * how * 2;
    o.push(fam(format!("{D}-D {} pools of {threads:?} threads, n in {sizes:?}, batches of {batches:?}", T::NAME), total as u64, move |i, cx| {
        let mut i = i as usize;
        let mut dig = |m: usize| {
            let r = i % m;
            i /= m;
            r
        };
        let (h, per, n, th, m) = (dig(how), dig(2) == 1, sizes[dig(sizes.len())], threads[dig(threads.len())], batches[dig(batches.len())]);
        let data: Box<[[T; D]]> = (0..n).map(|j| std::array::from_fn(|a| T::of(((j * (7 + a)) % 11) as f64))).collect();
        let qs: Vec<[T; D]> = (0..m).map(|j| std::array::from_fn(|a| T::of(((j * (5 + 2 * a)) % 23) as f64 / 2.0))).collect();
        let cs: Vec<Call> = [Call::Batch(1), Call::Batch(3), Call::Axis(2, D - 1), Call::With(2), Call::Knn(2)].into_iter().filter(|c| c.exists()).collect();
        let bx = per.then(|| [T::of(12.0); D]);
        let go = || {
            let mut c = Cx::default();
            drive(&data, 2, Build::Par(2), bx, &[qs.clone()], &cs, false, &mut c);
            // queries of a tree made elsewhere
            c.transitions
        };
        let t = match h {
            0 => pool(th).install(go),
            1 => {
                let inner = pool(th);
                pool(2).install(|| inner.install(go))
            }
            2 => {
                // two threads of a pool, each with calls of its own
                let p = pool(th);
                let (a, b) = p.join(go, go);
                a + b
            }
            _ => {
                // a tree made in one pool and shared by threads that use others
                let t = pool(th).install(|| Tree::new_parallel(&data, 2, 2)).unwrap();
                let t = match bx {
                    None => t,
                    Some(l) => t.with_boxsize(&l).unwrap(),
                };
                std::thread::scope(|s| {
                    for p in 1..=3usize {
                        let (t, qs, cs, data) = (&t, &qs, &cs, &data);
                        s.spawn(move || {
                            let p = pool(p);
                            for &c in cs.iter().filter(|c| p.current_num_threads() < 3 || !matches!(c, Call::With(_))) {
                                if let Some(o) = quiet(|| p.install(|| call(t, data.len(), qs, c))) {
                                    eat_all(&o);
                                }
                            }
                        });
                    }
                });
                cs.len() as u64 * 3
            }
        };
        cx.states += 1;
        cx.transitions += t;
    }));
}

// ---- what is never given back
#[cfg(not(feature = "san"))]
mod leak {
    use super::*;
    use enumk::alloc::{BLOCKS, BYTES};
    use std::sync::atomic::Ordering::Relaxed;

    fn threads() -> usize {
        std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count())
    }
    /// Does memory grow with the number of calls? Growth must show in three
    /// series of calls, each four times as long as the one before.
    fn grows(f: &dyn Fn()) -> Option<String> {
        f();
        f();
        let t0 = threads();
        let mut why = vec![];
        for r in [8i64, 32, 128, 512] {
            let (b0, y0) = (BLOCKS.load(Relaxed), BYTES.load(Relaxed));
            for _ in 0..r {
                f();
            }
            let (b, y) = (BLOCKS.load(Relaxed) - b0, BYTES.load(Relaxed) - y0);
            let t = threads() as i64 - t0 as i64;
            if b < r && y < r && t < r {
                return None;
            }
            why.push(format!("{r} calls: {b} blocks, {y} bytes, {t} threads more"));
        }
        Some(why.join("; "))
    }
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Ask(Call),
        Build(Build, usize),
        BuildBad(Build),
        Rebox,
        BadBox(f64),
        Look,
    }
    pub fn fams<T: Fl, const D: usize>(thorough: bool, o: &mut Vec<Box<dyn Family>>) {
        let ns: Vec<usize> = if thorough { vec![1, 2, 3, 5, 9, 20, 40, 100] } else { vec![1, 3, 9, 40] };
        let per = 2 * 5;
        let bads = [f64::NAN, f64::INFINITY, -1.0];
        let mk = move |n: usize| -> Vec<Op> {
            let mut ops: Vec<Op> = vec![];
            let mut ks = vec![0, 1, 2, n, n + 1, usize::MAX];
            ks.dedup();
            for k in ks {
                ops.push(Op::Ask(Call::Knn(k)));
                ops.push(Op::Ask(Call::Batch(k)));
                for a in 0..=D {
                    ops.push(Op::Ask(Call::Axis(k, a)));
                }
            }
            ops.push(Op::Ask(Call::Nn));
            ops.push(Op::Ask(Call::With(2)));
            for b in [Build::Serial, Build::Par(0), Build::Par(1), Build::Par(2)] {
                for l in [0, 1, 2, n] {
                    ops.push(Op::Build(b, l));
                }
                ops.push(Op::BuildBad(b));
            }
            ops.push(Op::Rebox);
            ops.extend(bads.map(Op::BadBox));
            ops.push(Op::Look);
            ops.retain(|o| !matches!(o, Op::Ask(c) if !c.exists()));
            ops
        };
        let counts: Vec<usize> = ns.iter().map(|n| mk(*n).len() * per).collect();
        let total: usize = counts.iter().sum();
        o.push(fam(format!("{D}-D {} each call again and again, n in {ns:?}", T::NAME), total as u64, move |i, cx| {
            let mut i = i as usize;
            let mut w = 0;
            while i >= counts[w] {
                i -= counts[w];
                w += 1;
            }
            let n = ns[w];
            let op = mk(n)[i / per];
            let (boxed, q) = (i % 2 == 1, i / 2 % 5);
            if q > 0 && !matches!(op, Op::Ask(_)) {
                return;
            }
            let data: Vec<[T; D]> = (0..n).map(|j| std::array::from_fn(|a| T::of(((j * (7 + a)) % 11) as f64))).collect();
            let mut bad = data.clone();
            bad[n - 1][D - 1] = T::of(f64::NAN);
            let l = [T::of(12.0); D];
            let p = |x: f64| [T::of(x); D];
            let mut nan = p(1.0);
            nan[D - 1] = T::of(f64::NAN);
            let qs = match q {
                0 => vec![p(3.5), p(0.0), p(12.0)],
                1 => vec![],
                2 => vec![p(1.0), nan],
                3 => vec![p(f64::INFINITY)],
                _ => vec![p(11.75); 5],
            };
            let t = Tree::new(&data, 2).unwrap();
            let t = if boxed { t.with_boxsize(&l).unwrap() } else { t };
            cx.states += 1;
            let f = || {
                let _ = quiet(|| match op {
                    Op::Ask(c) => drop(call(&t, n, &qs, c)),
                    Op::Build(b, leaf) => {
                        let t = build(&data, leaf, b);
                        if boxed {
                            let _ = t.map(|t| t.with_boxsize(&l).map(|t| call(&t, n, &qs, Call::Knn(2))));
                        }
                    }
                    Op::BuildBad(b) => drop(build(&bad, 1, b)),
                    Op::Rebox => drop(Tree::new(&data, 1).map(|t| t.with_boxsize(&l).map(|t| t.with_boxsize(&l)))),
                    Op::BadBox(x) => {
                        let mut l = l;
                        l[0] = T::of(x);
                        drop(Tree::new(&data, 1).map(|t| t.with_boxsize(&l).map(|_| ())))
                    }
                    Op::Look => {
                        t.size();
                        t.get_data();
                    }
                });
            };
            cx.op();
            match grows(&f) {
                None => cx.sample(|| format!("{op:?} on {n} points, boxed {boxed}, queries {qs:?}: nothing stays behind")),
                Some(w) => cx.fail(|| format!("{op:?} on {n} points (boxed: {boxed}, queries {qs:?}) leaves memory or threads behind: {w}")),
            }
        }));
    }
    /// The same in a real pool, where answers are made by other threads.
    pub fn pooled<T: Fl, const D: usize>(o: &mut Vec<Box<dyn Family>>) {
        let cs: Vec<Call> = [Call::Batch(2), Call::Axis(2, 0), Call::With(1), Call::Batch(0), Call::Axis(2, D)].into_iter().filter(|c| c.exists()).collect();
        if cs.is_empty() {
            return;
        }
        let total = cs.len() * 3 * 2 * 2 + 6;
        o.push(fam(format!("{D}-D {} each call again and again in a pool", T::NAME), total as u64, move |i, cx| {
            let mut i = i as usize;
            let data: Vec<[T; D]> = (0..30).map(|j| std::array::from_fn(|a| T::of(((j * (7 + a)) % 11) as f64))).collect();
            let l = [T::of(12.0); D];
            let mut qs: Vec<[T; D]> = (0..40).map(|j| [T::of((j % 24) as f64 / 2.0); D]).collect();
            cx.states += 1;
            let th = [1, 2, 4][i % 3];
            i /= 3;
            let p = pool(th);
            let (boxed, what) = (i % 2 == 1, i / 2);
            let t = Tree::new(&data, 2).unwrap();
            let t = if boxed { t.with_boxsize(&l).unwrap() } else { t };
            let bad = what % 2 == 1;
            if bad {
                qs[33][0] = T::of(f64::NAN);
            }
            let name;
            let r = if what / 2 < cs.len() {
                let c = cs[what / 2];
                name = format!("{c:?}");
                grows(&|| drop(quiet(|| p.install(|| call(&t, 30, &qs, c)))))
            } else {
                name = "new_parallel".into();
                grows(&|| drop(quiet(|| p.install(|| drop(build(&data, 1, Build::Par(3)))))))
            };
            cx.op();
            match r {
                None => cx.sample(|| format!("{name} in a pool of {th}: nothing stays behind")),
                Some(w) => cx.fail(|| format!("{name} in a pool of {th} (boxed: {boxed}, invalid query: {bad}) leaves memory or threads behind: {w}")),
            }
        }));
    }
}

fn main() {
    enumk::engine::main(|p, t| {
        let mut v: Vec<Box<dyn Family>> = vec![];
        match p {
            "C16-tiny" => {
                let x = V(Tiny);
                push::<V, f64, 1>(&mut v, x, "sequences", Class::S, OFF, [2], sequences([2], 1, if t { 4 } else { 2 }));
                push::<V, f64, 2>(&mut v, x, "subsets", Class::S, OFF, [2, 2], subsets([2, 2], 1));
                if t {
                    push::<V, f64, 2>(&mut v, x, "sequences", Class::S, OFF, [2, 2], sequences([2, 2], 1, 3));
                }
                push::<V, f32, 2>(&mut v, x, "sequences", Class::S, CENTRED, [2, 1], sequences([2, 1], 1, 2));
                push::<V, f32, 3>(&mut v, x, "subsets", if t { Class::S } else { Class::L }, OFF, [2, 2, 1], subsets([2, 2, 1], 1));
                invalid::<f64, 2>(if t { 3 } else { 1 }, &mut v);
                patterns::<V, f64, 2>(&mut v, x, "shapes", Class::L, OFF, if t { vec![5, 6, 9, 17] } else { vec![5] });
                #[cfg(feature = "parallel")]
                if t {
                    pools::<f64, 2>(vec![3], vec![2], vec![2], &mut v);
                }
            }
            #[cfg(not(feature = "san"))]
            "C16-leak" => {
                leak::fams::<f64, 2>(t, &mut v);
                leak::fams::<f32, 1>(t, &mut v);
                leak::fams::<f32, 3>(t, &mut v);
                leak::pooled::<f64, 2>(&mut v);
            }
            "C16-mini" => {
                let x = V(if t { Thorough } else { Quick });
                push::<V, f64, 1>(&mut v, x, "sequences<=3", Class::S, OFF, [3], sequences([3], 1, 3));
                push::<V, f64, 2>(&mut v, x, "subsets", Class::M, OFF, [3, 2], subsets([3, 2], 1));
                push::<V, f32, 3>(&mut v, x, "subsets", Class::M, CENTRED, [2, 2, 1], subsets([2, 2, 1], 1));
                patterns::<V, f64, 2>(&mut v, x, "shapes", Class::L, OFF, (1..=if t { 40 } else { 14 }).collect());
                invalid::<f64, 2>(3, &mut v);
                #[cfg(feature = "parallel")]
                pools::<f64, 2>(vec![1, 40], vec![1, 2, 3], vec![0, 1, 9, 33], &mut v);
            }
            _ => {
                let x = V(if t { Thorough } else { Quick });
                v = universe(x, Scope { thorough: false, nonneg: true, light: !t || p != "C16" });
                if p == "C16" {
                    push::<V, f64, 2>(&mut v, x, "subsets", Class::M, CENTRED, [3, 3], subsets([3, 3], 1));
                    push::<V, f64, 2>(&mut v, x, "sequences<=3", Class::S, OFF, [2, 2], sequences([2, 2], 1, 3));
                    patterns::<V, f64, 4>(&mut v, x, "n<=20", Class::L, OFF, (1..=14).collect());
                    patterns::<V, f32, 8>(&mut v, x, "shapes", Class::X, OFF, vec![1, 2, 9, 33]);
                }
                invalid::<f64, 2>(6, &mut v);
                invalid::<f32, 3>(4, &mut v);
                #[cfg(feature = "parallel")]
                {
                    let b = if t { (0..=40).chain([255, 256, 257, 1000]).collect() } else { vec![0, 1, 2, 3, 7, 8, 9, 33] };
                    pools::<f64, 2>(vec![1, 7, 40], vec![1, 2, 3, 8], b.clone(), &mut v);
                    pools::<f32, 3>(vec![2, 33], vec![2, 4], b, &mut v);
                }
            }
        }
        v
    })
}
