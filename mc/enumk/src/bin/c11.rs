//! C11: extreme magnitudes and parameters.
use enumk::{calls::*, data::*, engine::*, extreme::*, num::*, probe::*};

fn alphabet<T: Fl>(big: bool) -> Vec<T> {
    let (max, min) = range::<T>();
    let (root, tiny) = if T::NAME == "f32" { (1.8446743e19f64, 1.2e-38f64) } else { (1.3407807929942596e154, 2.3e-308) };
    let mut v = vec![0.0, min, -min, tiny, tiny.sqrt(), 1.0, -1.0, root, -root * 0.7, max, -max];
    if big {
        v.extend([-0.0, 1.0 + T::EPS, root * 1.5, max / 2.0, min * 3.0, -tiny.sqrt() * 3.0]);
    }
    v.into_iter().map(T::of).collect()
}
fn few<T: Fl>(k: usize) -> Vec<T> {
    let a = alphabet::<T>(false);
    let order = [9, 0, 10, 1, 7, 5, 4, 8, 2, 6, 3];
    order[..k].iter().map(|&i| a[i]).collect()
}
fn pt<T: Fl, const D: usize>(a: &[T], mut c: u64) -> [T; D] {
    std::array::from_fn(|_| {
        let v = a[(c % a.len() as u64) as usize];
        c /= a.len() as u64;
        v
    })
}
fn all<T: Fl, const D: usize>(a: &[T]) -> Vec<[T; D]> {
    (0..(a.len() as u64).pow(D as u32)).map(|c| pt(a, c)).collect()
}
fn calls(n: usize, d: usize) -> Vec<Call> {
    let mut v = vec![Call::Nn, Call::Knn(1), Call::Knn(2), Call::Knn(n + 1), Call::Batch(2)];
    for a in 0..d {
        v.push(Call::Axis(2, a));
    }
    v.retain(|c| c.exists());
    v
}

fn check<T: Fl, const D: usize>(
    data: &[[T; D]],
    l: Option<&[T; D]>,
    leafs: &[usize],
    qs: &[[T; D]],
    cs: &[Call],
    cx: &mut Cx,
) {
    let side = l.map_or(0.0, |l| l.iter().fold(0.0, |a, x| x.f().max(a)));
    let images: Vec<Vec<Vec<[T; D]>>> = qs.iter().map(|q| l.map_or(vec![vec![*q]], |l| image_sets(q, l))).collect();
    let images = sets(data, images);
    for &leaf in leafs {
        for b in [Build::Serial, Build::Par(1)] {
            let t = match build(data, leaf, b) {
                Ok(t) => t,
                Err(e) => return cx.fail(|| format!("{e}: {}", show(data))),
            };
            let t = match l {
                None => t,
                Some(l) => match t.with_boxsize(l) {
                    Ok(t) => t,
                    Err(e) => return cx.fail(|| format!("box {l:?} refused: {e}; {}", show(data))),
                },
            };
            cx.states += 1;
            for &c in cs {
                let r = match call(&t, data.len(), qs, c) {
                    Out::Rows(r) => judge(&r, data, &images, c, side).map(|_| r),
                    Out::Refused(e) | Out::Shape(e) => Err(e),
                };
                match r {
                    Ok(r) => {
                        cx.sample(|| format!("{c:?} of {:?} on leafsize {leaf}, box {l:?}, {}: {:?}", qs[0], show(data), r[0]));
                        for row in &r {
                            for e in row {
                                cx.mix(e.idx.unwrap_or(9) + 1);
                                cx.mix(e.d.map_or(1, |d| d.bits()));
                            }
                            cx.op();
                        }
                    }
                    Err(e) => return cx.fail(|| format!("{c:?}: {e}; leafsize {leaf}, {b:?}, box {l:?}, {}", show(data))),
                }
            }
        }
    }
}

/// All sequences of up to `len` points over the alphabet.
fn magnitudes<T: Fl, const D: usize>(o: &mut Vec<Box<dyn Family>>, a: Vec<T>, len: u32, leafs: &'static [usize]) {
    let base = (a.len() as u64).pow(D as u32);
    let count: u64 = (1..=len).map(|m| base.pow(m)).sum();
    o.push(fam(format!("{D}-D {} magnitudes: sequences of <= {len} points over {} values", T::NAME, a.len()), count, move |mut i, cx| {
        let mut m = 1;
        while i >= base.pow(m) {
            i -= base.pow(m);
            m += 1;
        }
        let data: Vec<[T; D]> = (0..m)
            .map(|_| {
                let p = pt(&a, i % base);
                i /= base;
                p
            })
            .collect();
        check(&data, None, leafs, &all(&a), &calls(data.len(), D), cx)
    }));
}
/// The same with a box: every box over the alphabet that encloses the data,
/// every query of the alphabet inside it.
fn boxed<T: Fl, const D: usize>(o: &mut Vec<Box<dyn Family>>, a: Vec<T>, len: u32, leafs: &'static [usize]) {
    let a: Vec<T> = a.into_iter().filter(|x| x.f() >= 0.0).collect();
    let base = (a.len() as u64).pow(D as u32);
    let count: u64 = (1..=len).map(|m| base.pow(m)).sum();
    o.push(fam(format!("{D}-D {} magnitudes in boxes: sequences of <= {len} points over {} values", T::NAME, a.len()), count, move |mut i, cx| {
        let mut m = 1;
        while i >= base.pow(m) {
            i -= base.pow(m);
            m += 1;
        }
        let data: Vec<[T; D]> = (0..m)
            .map(|_| {
                let p = pt(&a, i % base);
                i /= base;
                p
            })
            .collect();
        for l in all::<T, D>(&a) {
            if data.iter().any(|p| (0..D).any(|i| p[i].f() > l[i].f())) {
                continue;
            }
            let qs: Vec<[T; D]> = all::<T, D>(&a).into_iter().filter(|q| (0..D).all(|i| q[i].f() <= l[i].f())).collect();
            check(&data, Some(&l), leafs, &qs, &calls(data.len(), D), cx);
            if cx.failed() {
                return;
            }
        }
    }));
}

const LEAFS: [usize; 11] = [0, 1, 2, 3, 16, 1000, 65_536, u32::MAX as usize, 1 << 40, isize::MAX as usize, usize::MAX];
const PSL: [usize; 8] = [0, 1, 2, 5, 64, 1000, 1 << 40, usize::MAX];
const KS: [usize; 9] = [0, 1, 2, 7, 1000, 1 << 20, 1 << 40, isize::MAX as usize, usize::MAX];

fn params<T: Fl, const D: usize>(o: &mut Vec<Box<dyn Family>>, ns: Vec<usize>) {
    let count = (ns.len() * LEAFS.len() * (PSL.len() + 1) * 2) as u64;
    o.push(fam(format!("{D}-D {} parameters: every leafsize x build x k x method", T::NAME), count, move |i, cx| {
        let i = i as usize;
        let periodic = i % 2 == 1;
        let b = match i / 2 % (PSL.len() + 1) {
            0 => Build::Serial,
            j => Build::Par(PSL[j - 1]),
        };
        let leaf = LEAFS[i / 2 / (PSL.len() + 1) % LEAFS.len()];
        let n = ns[i / 2 / (PSL.len() + 1) / LEAFS.len()];
        let ds = pattern_ds::<D>(i % PATTERNS.len(), n, &FAR);
        let data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
        let mut t = match build(&data, leaf, b) {
            Ok(t) => t,
            Err(e) => return cx.fail(|| e),
        };
        cx.states += 1;
        let l: [T; D] = std::array::from_fn(|a| T::of((ds.hi[a] + 5) as f64 * ds.unit.get()));
        if periodic {
            t = t.with_boxsize(&l).unwrap();
        }
        let qs: Vec<[T; D]> = [0.0, 0.25, 0.5, 0.96875, 1.0].iter().map(|f| std::array::from_fn(|a| T::of(l[a].f() * f))).collect();
        let images: Vec<Vec<Vec<[T; D]>>> = qs.iter().map(|q| if periodic { image_sets(q, &l) } else { vec![vec![*q]] }).collect();
        let images = sets(&data, images);
        let side = if periodic { l.iter().fold(0.0, |a, x| x.f().max(a)) } else { 0.0 };
        for k in KS {
            for c in [Call::Nn, Call::Knn(k), Call::Batch(k), Call::Axis(k, D - 1)].into_iter().filter(|c| c.exists()) {
                let r = match call(&t, n, &qs, c) {
                    Out::Rows(r) => judge(&r, &data, &images, c, side),
                    Out::Refused(e) | Out::Shape(e) => Err(e),
                };
                cx.mix(k as u64);
                cx.op();
                cx.sample(|| format!("{c:?} on n {n} leafsize {leaf} {b:?} box {periodic}: {r:?}"));
                if let Err(e) = r {
                    return cx.fail(|| format!("{c:?}: {e}; leafsize {leaf}, {b:?}, periodic {periodic}, {}", show(&data)));
                }
            }
        }
    }));
}
/// One dimension count: few points, every method.
fn dim<T: Fl, const D: usize>(o: &mut Vec<Box<dyn Family>>, boxed: bool) {
    let ns = [1usize, 2, 5, 20, 70];
    let leafs = [0usize, 1, 4, 16];
    let count = (ns.len() * leafs.len() * PATTERNS.len() * 2) as u64;
    o.push(fam(format!("{D}-D {} dimensions, boxes {boxed}", T::NAME), count, move |i, cx| {
        let i = i as usize;
        let (n, leaf, pat, b) = (ns[i / 2 % 5], leafs[i / 10 % 4], i / 40, [Build::Serial, Build::Par(2)][i % 2]);
        if boxed && D > 8 && (n > 5 || leaf > 1) {
            return;
        }
        let ds = pattern_ds::<D>(pat, n, &OFF);
        let data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
        let l: [T; D] = std::array::from_fn(|a| T::of((ds.hi[a] + 3) as f64 * ds.unit.get()));
        let mut t = build(&data, leaf, b).unwrap();
        cx.states += 1;
        if boxed {
            t = t.with_boxsize(&l).unwrap();
        }
        let qs: Vec<[T; D]> = [0.0, 0.40625, 1.0].iter().map(|f| std::array::from_fn(|a| T::of(l[a].f() * f))).collect();
        let images: Vec<Vec<Vec<[T; D]>>> = qs.iter().map(|q| if boxed { image_sets(q, &l) } else { vec![vec![*q]] }).collect();
        let images = sets(&data, images);
        let side = if boxed { l.iter().fold(0.0, |a, x| x.f().max(a)) } else { 0.0 };
        for c in [Call::Nn, Call::Knn(1), Call::Knn(3), Call::Knn(n), Call::Batch(3), Call::Axis(3, D / 2)].into_iter().filter(|c| c.exists()) {
            let r = match call(&t, n, &qs, c) {
                Out::Rows(r) => judge(&r, &data, &images, c, side),
                Out::Refused(e) | Out::Shape(e) => Err(e),
            };
            cx.mix(i as u64);
            cx.op();
            if let Err(e) = r {
                return cx.fail(|| format!("{c:?}: {e}; leafsize {leaf}, {b:?}, boxed {boxed}, {}", show(&data)));
            }
        }
    }));
}

/// Small thread stacks: depth of recursion must not grow with the answer.
const STACK: usize = 512 << 10;
/// (All of it runs in a pool of one such thread: the shard's own pool is the
/// blocked thread.)
fn small_pool() -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(STACK).build().unwrap()
}
fn stack(o: &mut Vec<Box<dyn Family>>, sizes: Vec<usize>) {
    const ARR: [&str; 5] = ["ring", "scattered", "constant", "line", "two values"];
    let leafs = [0usize, 1, 32];
    let count = (sizes.len() * ARR.len() * leafs.len() * 2) as u64;
    o.push(fam("2-D f64 small stacks: every neighbour of many points", count, move |i, cx| {
        let i = i as usize;
        let (n, arr, leaf, b) =
            (sizes[i / 30], ARR[i / 6 % 5], leafs[i / 2 % 3], if i % 2 == 0 { Build::Serial } else { Build::Par(2) });
        let data: Vec<[f64; 2]> = (0..n)
            .map(|i| match arr {
                "ring" => {
                    let t = i as f64 * 1e-4;
                    [t.cos(), t.sin()]
                }
                "scattered" => [((i * 48271) % 65537) as f64, ((i * 7919) % 65521) as f64],
                "constant" => [1.0, 2.0],
                "line" => [i as f64, 0.0],
                _ => [(i % 2) as f64, (i / 7 % 2) as f64],
            })
            .collect();
        let pool = small_pool();
        let t = match pool.install(|| build(&data, leaf, b)) {
            Ok(t) => t,
            Err(e) => return cx.fail(|| e),
        };
        cx.states += 1;
        let q = [0.0, 0.0];
        let ds: Vec<f64> = data.iter().map(|p| dist(p, &q)).collect();
        let mut sorted = ds.clone();
        sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let s = Slack::of::<f64>(2, 0.0);
        for c in [Call::Nn, Call::Knn(1), Call::Knn(n / 3), Call::Knn(n), Call::Knn(n + 1), Call::Batch(n / 2), Call::Axis(n / 2, 1)].into_iter().filter(|c| c.exists()) {
            let out = pool.install(|| call(&t, n, &[q], c));
            cx.mix(i as u64);
            cx.op();
            let r = match out {
                Out::Rows(r) => {
                    let mut seen = vec![false; n];
                    let w = c.k().map_or(1, |k| k.min(n));
                    if r[0].len() != w {
                        Err(format!("{} entries instead of {w}", r[0].len()))
                    } else {
                        r[0].iter().enumerate().try_for_each(|(j, e)| {
                            if let Some(x) = e.idx {
                                let x = x as usize;
                                if x >= n || std::mem::replace(&mut seen[x], true) || !s.same(ds[x], sorted[j]) {
                                    return Err(format!("entry {j}: {e:?} is not the neighbour at {}", sorted[j]));
                                }
                            }
                            match e.d {
                                Some(d) if !s.reported(d, sorted[j]) => Err(format!("entry {j}: {e:?} is not at {}", sorted[j])),
                                _ => Ok(()),
                            }
                        })
                    }
                }
                Out::Refused(e) | Out::Shape(e) => Err(e),
            };
            if let Err(e) = r {
                return cx.fail(|| format!("{c:?}: {e}; {n} points, {arr}, leafsize {leaf}, {b:?}"));
            }
        }
    }));
}
/// Very deep and very wide parallel builds.
fn deep(o: &mut Vec<Box<dyn Family>>, sizes: Vec<usize>) {
    let psl = [3usize, 8, 12, 17, 64, usize::MAX];
    let leafs = [0usize, 1, 50];
    let count = (sizes.len() * psl.len() * leafs.len()) as u64;
    o.push(fam("1-D f32 deep parallel builds", count, move |i, cx| {
        let i = i as usize;
        let (n, l, p) = (sizes[i / 18], leafs[i / 6 % 3], psl[i % 6]);
        let data: Vec<[f32; 1]> = (0..n).map(|i| [((i * 48271) % 65537) as f32]).collect();
        match build(&data, l, Build::Par(p)) {
            Ok(t) => {
                cx.states += 1;
                for q in [0.0f32, 70000.0, 30000.25] {
                    cx.op();
                    match nn(&t, &data, &[q]) {
                        Ok((_, i)) => {
                            let best = data.iter().map(|x| (x[0] - q).abs()).fold(f32::MAX, f32::min);
                            if (data[i as usize][0] - q).abs() != best {
                                return cx.fail(|| format!("point {i} is not nearest to {q}; n {n}, leafsize {l}, par_split_level {p}"));
                            }
                        }
                        Err(e) => return cx.fail(|| e),
                    }
                }
            }
            Err(e) => cx.fail(|| e),
        }
    }));
}
/// Batches of extreme shapes.
fn batches(o: &mut Vec<Box<dyn Family>>, ms: Vec<usize>) {
    let ks = [0usize, 1, 5, usize::MAX];
    let ns = [1usize, 2, 10];
    let count = (ms.len() * ks.len() * ns.len()) as u64 * 3;
    o.push(fam("2-D f32 batch shapes", count, move |i, cx| {
        let i = i as usize;
        let (m, k, n) = (ms[i / 36], ks[i / 9 % 4], ns[i / 3 % 3]);
        let c = [Call::Batch(k), Call::With(k), Call::Axis(k, 0)][i % 3];
        if !c.exists() {
            return;
        }
        let ds = pattern_ds::<2>(6, n, &OFF);
        let data: Vec<[f32; 2]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
        let t = build(&data, 2, Build::Serial).unwrap();
        cx.states += 1;
        let qs: Vec<[f32; 2]> = (0..m).map(|i| [(i % 7) as f32, (i % 11) as f32]).collect();
        let images: Vec<_> = qs.iter().map(|q| vec![vec![*q]]).collect();
        let images = sets(&data, images);
        let r = match call(&t, n, &qs, c) {
            Out::Rows(r) => judge(&r, &data, &images, c, 0.0),
            Out::Refused(e) | Out::Shape(e) => Err(e),
        };
        cx.mix(i as u64);
        cx.op();
        if let Err(e) = r {
            cx.fail(|| format!("{c:?} of {m} queries on {n} points: {e}"));
        }
    }));
}

fn main() {
    enumk::engine::main(|p, t| {
        let light = p != "C11";
        let mut o = vec![];
        if light {
            magnitudes::<f64, 1>(&mut o, alphabet(true), 2, &[0, 1]);
            magnitudes::<f32, 2>(&mut o, few(6), 2, &[0, 2]);
            boxed::<f64, 1>(&mut o, alphabet(false), 2, &[1]);
            params::<f64, 2>(&mut o, vec![1, 3, 40]);
            stack(&mut o, vec![60_000]);
            deep(&mut o, vec![20_000, 100_000]);
            return o;
        }
        magnitudes::<f64, 1>(&mut o, alphabet(true), 3, &[0, 1, 3]);
        magnitudes::<f32, 1>(&mut o, alphabet(true), 3, &[0, 1, 3]);
        magnitudes::<f64, 2>(&mut o, few(if t { 11 } else { 8 }), 2, &[0, 1]);
        magnitudes::<f32, 2>(&mut o, few(if t { 11 } else { 8 }), 2, &[0, 1]);
        magnitudes::<f64, 2>(&mut o, few(if t { 5 } else { 4 }), 3, &[0, 2]);
        magnitudes::<f32, 3>(&mut o, few(if t { 6 } else { 4 }), 2, &[0, 1]);
        magnitudes::<f64, 4>(&mut o, few(if t { 4 } else { 3 }), 2, &[1]);
        boxed::<f64, 1>(&mut o, alphabet(true), 3, &[0, 2]);
        boxed::<f32, 1>(&mut o, alphabet(true), 3, &[0, 2]);
        boxed::<f64, 2>(&mut o, few(if t { 11 } else { 8 }), if t { 2 } else { 1 }, &[0]);
        boxed::<f32, 2>(&mut o, few(5), 2, &[0]);
        boxed::<f64, 3>(&mut o, few(if t { 6 } else { 4 }), 1, &[0]);
        params::<f64, 2>(&mut o, if t { (1..=48).collect() } else { vec![1, 2, 3, 7, 40] });
        params::<f32, 3>(&mut o, if t { vec![1, 2, 3, 8, 33, 100] } else { vec![1, 2, 33] });
        dim::<f64, 1>(&mut o, false);
        dim::<f64, 7>(&mut o, false);
        dim::<f32, 9>(&mut o, false);
        dim::<f64, 10>(&mut o, false);
        dim::<f32, 11>(&mut o, false);
        dim::<f64, 12>(&mut o, false);
        dim::<f64, 16>(&mut o, false);
        dim::<f32, 17>(&mut o, false);
        dim::<f64, 32>(&mut o, false);
        dim::<f64, 64>(&mut o, false);
        dim::<f32, 100>(&mut o, false);
        dim::<f64, 1>(&mut o, true);
        dim::<f32, 5>(&mut o, true);
        dim::<f64, 6>(&mut o, true);
        dim::<f64, 7>(&mut o, true);
        dim::<f32, 8>(&mut o, true);
        if t {
            dim::<f64, 9>(&mut o, true);
            dim::<f32, 10>(&mut o, true);
            dim::<f64, 12>(&mut o, true);
        }
        stack(&mut o, if t { vec![20_000, 60_000, 99_999, 100_000, 300_001, 1_000_000] } else { vec![60_000, 200_003] });
        deep(&mut o, if t { vec![1, 2, 100, 20_000, 99_999, 100_000, 500_000] } else { vec![100, 100_000] });
        batches(&mut o, if t { vec![0, 1, 2, 3, 1000, 20_001, 65_535, 65_536, 65_537, 300_000] } else { vec![0, 1, 2, 3, 1000, 20_001] });
        o
    })
}
