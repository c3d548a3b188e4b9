//! C12: every history of operations, judged against fresh trees.
use enumk::{calls::*, data::*, engine::*, num::*, probe::*};
use fnntw::Tree;

/// Two trees over the same data: `a` without, `b` with a box.
struct World<'d, T: Fl, const D: usize> {
    data: &'d [[T; D]],
    a: Tree<'d, T, D>,
    b: Option<Tree<'d, T, D>>,
    /// trees of the first and the second half of the same data
    half: [Tree<'d, T, D>; 2],
    cfg: Cfg,
    size: usize,
    /// one buffer, filled again and again
    buf: Vec<[T; D]>,
}
#[derive(Clone, Copy, Debug)]
struct Cfg {
    leaf: usize,
    build: Build,
    l: i64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// (boxed tree?, queries, method)
    Ask(bool, Q, Call),
    /// build, query and drop a tree of the same data with another leafsize
    Another(usize),
    /// a tree of other data (one of two of the same size), alive during a query
    Other(usize),
    /// one query of the tree of the first or the second half of the data
    Part(usize, Call),
    /// a tree of a buffer that held other data before
    Reuse(usize),
    /// building fails
    BadData,
    /// drop the boxed tree and build it again
    Rebox,
    /// a box that is refused
    BadBox,
    /// size, get_data
    Look,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Q {
    One,
    Two,
    Swapped,
    Far,
    Nan,
    LateInf,
    None,
}
fn queries<T: Fl, const D: usize>(q: Q, l: i64) -> Vec<[T; D]> {
    let p = |f: f64| -> [T; D] { std::array::from_fn(|i| T::of((l as f64 * f * 2.0).round() / 2.0 - if i == 1 && f > 0.5 { 0.5 } else { 0.0 })) };
    match q {
        Q::One => vec![p(0.0)],
        Q::Two => vec![p(0.0), p(0.6)],
        Q::Swapped => vec![p(0.6), p(0.0)],
        Q::Far => vec![p(1.0)],
        Q::Nan => vec![std::array::from_fn(|i| T::of(if i == D - 1 { f64::NAN } else { 1.0 }))],
        Q::LateInf => vec![p(0.0), p(0.6), std::array::from_fn(|i| T::of(if i == 0 { f64::INFINITY } else { 1.0 }))],
        Q::None => vec![],
    }
}
fn make<'d, T: Fl, const D: usize>(data: &'d [[T; D]], c: Cfg) -> World<'d, T, D> {
    let a = build(data, c.leaf, c.build).unwrap();
    let b = Some(build(data, c.leaf, c.build).unwrap().with_boxsize(&[T::of(c.l as f64); D]).unwrap());
    let size = a.size();
    let h = data.len().div_ceil(2);
    let half = [&data[..h], &data[data.len() - h..]].map(|d| build(d, c.leaf, c.build).unwrap());
    World { data, a, b, half, cfg: c, size, buf: vec![[T::of(0.0); D]; data.len()] }
}
fn answer<T: Fl>(o: Out<T>, cx_shape: &mut Option<String>) -> Vec<u64> {
    match o {
        Out::Rows(r) => bits(&r),
        // which of several invalid queries is named may vary
        Out::Refused(_) => vec![u64::MAX],
        Out::Shape(s) => {
            *cx_shape = Some(s);
            vec![]
        }
    }
}
impl<'d, T: Fl, const D: usize> World<'d, T, D> {
    /// What the operation answered, as bits.
    fn run(&mut self, op: Op) -> Result<Vec<u64>, String> {
        let n = self.data.len();
        let mut shape = None;
        let v = match op {
            Op::Ask(boxed, q, c) => {
                let t = if boxed { self.b.as_ref().unwrap() } else { &self.a };
                answer(call(t, n, &queries::<T, D>(q, self.cfg.l), c), &mut shape)
            }
            Op::Another(leaf) => {
                let t = build(self.data, leaf, Build::Par(2))?;
                answer(call(&t, n, &queries::<T, D>(Q::Two, self.cfg.l), Call::Knn(3)), &mut shape)
            }
            Op::Other(s) => {
                let d: Vec<[T; D]> = (0..7).map(|i| std::array::from_fn(|a| T::of((i * (a + 2 + s) % 5) as f64))).collect();
                let t = build(&d, 1, Build::Serial)?;
                let mut v = answer(call(&t, 7, &queries::<T, D>(Q::Swapped, self.cfg.l), Call::Knn(4)), &mut shape);
                v.extend(answer(call(&self.a, n, &queries::<T, D>(Q::Two, self.cfg.l), Call::Nn), &mut shape));
                v
            }
            Op::Part(i, c) => answer(call(&self.half[i], n.div_ceil(2), &queries::<T, D>(Q::One, self.cfg.l), c), &mut shape),
            Op::Reuse(s) => {
                for (i, p) in self.buf.iter_mut().enumerate() {
                    *p = std::array::from_fn(|a| T::of((i * (a + 2 + s) % 5) as f64));
                }
                let t = build(&self.buf, self.cfg.leaf, self.cfg.build)?;
                let mut v = vec![];
                for c in [Call::Nn, Call::Knn(2)] {
                    v.extend(answer(call(&t, n, &queries::<T, D>(Q::One, self.cfg.l), c), &mut shape));
                }
                v
            }
            Op::BadData => {
                let mut d = self.data.to_vec();
                d[n / 2][D - 1] = T::of(f64::NAN);
                match Tree::new(&d, 2) {
                    Ok(_) => return Err("invalid data accepted".into()),
                    Err(_) => vec![3],
                }
            }
            Op::Rebox => {
                self.b = None;
                self.b = Some(build(self.data, self.cfg.leaf, self.cfg.build)?.with_boxsize(&[T::of(self.cfg.l as f64); D]).map_err(|e| e.to_string())?);
                vec![4]
            }
            Op::BadBox => match build(self.data, 1, Build::Serial)?.with_boxsize(&[T::of(f64::NAN); D]) {
                Ok(_) => return Err("invalid box accepted".into()),
                Err(_) => vec![5],
            },
            Op::Look => {
                let b = self.b.as_ref().unwrap();
                for t in [&self.a, b] {
                    if t.size() != self.size {
                        return Err(format!("size was {}, is {}", self.size, t.size()));
                    }
                    let d = t.get_data();
                    if d.as_ptr() != self.data.as_ptr() || d.len() != n {
                        return Err("get_data is not the input".into());
                    }
                }
                vec![6]
            }
        };
        match shape {
            Some(s) => Err(s),
            None => Ok(v),
        }
    }
}

fn ops(n: usize, d: usize, with: bool) -> Vec<Op> {
    use Call::*;
    if with {
        let mut v = vec![
            Op::Ask(false, Q::Two, With(2)),
            Op::Ask(true, Q::Swapped, With(n)),
            Op::Ask(false, Q::LateInf, With(1)),
            Op::Ask(true, Q::Two, Knn(2)),
            Op::Ask(false, Q::Two, Batch(2)),
        ];
        v.retain(|o| !matches!(o, Op::Ask(_, _, c) if !c.exists()));
        return v;
    }
    let mut v = vec![
        Op::Ask(false, Q::Two, Nn),
        Op::Ask(false, Q::Far, Nn),
        Op::Ask(true, Q::Swapped, Nn),
        Op::Ask(false, Q::Nan, Nn),
        Op::Ask(false, Q::Two, Knn(1)),
        Op::Ask(false, Q::Swapped, Knn(n)),
        Op::Ask(true, Q::Two, Knn(2)),
        Op::Ask(true, Q::Far, Knn(0)),
        Op::Ask(true, Q::Nan, Knn(3)),
        Op::Ask(false, Q::Two, Batch(2)),
        Op::Ask(true, Q::Swapped, Batch(n + 1)),
        Op::Ask(false, Q::LateInf, Batch(3)),
        Op::Ask(true, Q::None, Batch(1)),
        Op::Ask(false, Q::Two, Axis(2, d - 1)),
        Op::Ask(true, Q::Two, Axis(n, 0)),
        Op::Ask(false, Q::Two, Axis(1, d)),
        Op::Ask(true, Q::LateInf, Axis(1, 0)),
        Op::Another(0),
        Op::Other(0),
        Op::Other(1),
        Op::Part(0, Nn),
        Op::Part(1, Nn),
        Op::Part(0, Knn(2)),
        Op::Ask(false, Q::One, Nn),
        Op::Ask(false, Q::One, Knn(2)),
        Op::Reuse(0),
        Op::Reuse(1),
        Op::BadData,
        Op::Rebox,
        Op::BadBox,
        Op::Look,
    ];
    v.retain(|o| !matches!(o, Op::Ask(_, _, c) if !c.exists()));
    v
}

fn histories<T: Fl, const D: usize>(o: &mut Vec<Box<dyn Family>>, pat: usize, n: usize, c: Cfg, depth: u32, with: bool) {
    let al = ops(n, D, with);
    let base = al.len() as u64;
    // one case per history without its last operation, which runs over the alphabet
    let count = base.pow(depth - 1);
    let ds = pattern_ds::<D>(pat, n, &Tf { name: "int", half: [1; 4], shift: 0, off: 0, exp: -1 });
    let hi = ds.hi.iter().max().unwrap() / 2 + 2;
    let c = Cfg { l: hi, ..c };
    let data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
    let before: Vec<u64> = data.iter().flatten().map(|x| x.bits()).collect();
    let fresh = std::cell::OnceCell::new();
    let name = format!("{D}-D {} histories of {depth} of {base} operations on {} points ({}), {c:?}{}", T::NAME, n, PATTERNS[pat], if with { ", _with" } else { "" });
    o.push(fam(name, count, move |i, cx| {
        // answers of fresh trees
        let want: &Vec<Vec<u64>> = match fresh.get() {
            Some(w) => w,
            None => {
                let mut w = vec![];
                for &op in &al {
                    let copy = data.clone();
                    match make(&copy, c).run(op) {
                        Ok(v) => w.push(v),
                        Err(e) => return cx.fail(|| format!("{op:?} on a fresh tree: {e}")),
                    }
                }
                fresh.set(w).unwrap();
                fresh.get().unwrap()
            }
        };
        let mut x = i;
        let head: Vec<usize> = (1..depth)
            .map(|_| {
                let r = (x % base) as usize;
                x /= base;
                r
            })
            .collect();
        for last in 0..al.len() {
            let mut w = make(&data, c);
            cx.states += 1;
            let hist: Vec<usize> = head.iter().copied().chain([last]).collect();
            for (j, &h) in hist.iter().enumerate() {
                match w.run(al[h]) {
                    Ok(v) if v == want[h] => {
                        cx.mix(h as u64 + 1);
                        cx.mix(v.iter().fold(0, |a, b| a ^ b));
                        cx.op();
                    }
                    Ok(v) => {
                        return cx.fail(|| {
                            let ops: Vec<Op> = hist[..=j].iter().map(|&h| al[h]).collect();
                            format!("after {:?}, {:?} answers {v:x?} instead of {:x?}; {}", &ops[..j], ops[j], want[h], show(&data))
                        })
                    }
                    Err(e) => {
                        return cx.fail(|| {
                            let ops: Vec<Op> = hist[..=j].iter().map(|&h| al[h]).collect();
                            format!("after {:?}, {:?}: {e}; {}", &ops[..j], ops[j], show(&data))
                        })
                    }
                }
            }
            if let Err(e) = w.run(Op::Look) {
                return cx.fail(|| e);
            }
            cx.sample(|| format!("{:?} on {}", hist.iter().map(|&h| al[h]).collect::<Vec<_>>(), show(&data)));
            drop(w);
            if !data.iter().flatten().map(|x| x.bits()).eq(before.iter().copied()) {
                return cx.fail(|| "the data was modified".into());
            }
        }
    }));
}

/// Long histories: one operation many times, then another.
fn repeats<T: Fl, const D: usize>(o: &mut Vec<Box<dyn Family>>, pat: usize, n: usize, c: Cfg, reps: &'static [usize]) {
    let al = ops(n, D, false);
    let base = al.len();
    let ds = pattern_ds::<D>(pat, n, &Tf { name: "int", half: [1; 4], shift: 0, off: 0, exp: -1 });
    let c = Cfg { l: ds.hi.iter().max().unwrap() / 2 + 2, ..c };
    let data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
    let name = format!("{D}-D {} histories: one operation {reps:?} times, then another, on {n} points ({}), {c:?}", T::NAME, PATTERNS[pat]);
    o.push(fam(name, (base * base * reps.len()) as u64, move |i, cx| {
        let i = i as usize;
        let (a, b, r) = (al[i % base], al[i / base % base], reps[i / base / base]);
        let copy = data.clone();
        let wa = make(&copy, c).run(a);
        let wb = make(&copy, c).run(b);
        let mut w = make(&data, c);
        cx.states += 1;
        for j in 0..=r {
            let (op, want) = if j < r { (a, &wa) } else { (b, &wb) };
            let got = w.run(op);
            if got != *want || got.is_err() {
                return cx.fail(|| format!("after {j} times {a:?}, {op:?} answers {got:x?} instead of {want:x?}; {}", show(&data)));
            }
            cx.mix(j as u64 % 2 + i as u64);
            cx.op();
        }
    }));
}

/// One operation so often that counters of 16 bits wrap, then every other.
fn wraps<T: Fl, const D: usize>(o: &mut Vec<Box<dyn Family>>, pat: usize, n: usize, c: Cfg, r: usize) {
    let al = ops(n, D, false);
    let ds = pattern_ds::<D>(pat, n, &Tf { name: "int", half: [1; 4], shift: 0, off: 0, exp: -1 });
    let c = Cfg { l: ds.hi.iter().max().unwrap() / 2 + 2, ..c };
    let data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
    let name = format!("{D}-D {} histories: one operation {r} times, then every other, on {n} points ({}), {c:?}", T::NAME, PATTERNS[pat]);
    o.push(fam(name, al.len() as u64, move |i, cx| {
        let a = al[i as usize];
        let copy = data.clone();
        let want: Vec<_> = al.iter().map(|&b| make(&copy, c).run(b)).collect();
        let mut w = make(&data, c);
        cx.states += 1;
        for j in 0..r + al.len() {
            let k = if j < r { i as usize } else { j - r };
            let got = w.run(al[k]);
            if got != want[k] || got.is_err() {
                return cx.fail(|| format!("after {j} operations, mostly {a:?}, {:?} answers {got:x?} instead of {:x?}; {}", al[k], want[k], show(&data)));
            }
            cx.op();
        }
        cx.mix(i);
    }));
}

fn main() {
    enumk::engine::main(|p, t| {
        let light = p != "C12";
        let mut o = vec![];
        let c = |leaf, build| Cfg { leaf, build, l: 0 };
        let s = Build::Serial;
        let q = Build::Par(2);
        if light {
            histories::<f64, 2>(&mut o, 9, 9, c(2, s), 3, false);
            histories::<f32, 3>(&mut o, 6, 21, c(4, q), 3, false);
            return o;
        }
        let (d, e) = if t { (5, 4) } else { (4, 3) };
        repeats::<f64, 2>(&mut o, 9, 9, c(2, s), if t { &[1, 7, 64, 1025, 20_000] } else { &[1, 7, 64, 1025] });
        repeats::<f32, 3>(&mut o, 6, 21, c(1, q), if t { &[1, 40, 300, 5000] } else { &[40, 300] });
        wraps::<f64, 2>(&mut o, 9, 9, c(2, s), if t { 1_000_000 } else { 66_000 });
        histories::<f64, 1>(&mut o, 0, 1, c(1, s), e, false);
        histories::<f64, 2>(&mut o, 2, 4, c(1, s), e, false);
        histories::<f64, 2>(&mut o, 9, 9, c(2, s), d, false);
        histories::<f64, 2>(&mut o, 6, 40, c(4, q), e, false);
        histories::<f64, 2>(&mut o, 5, 17, c(0, s), e, false);
        histories::<f64, 3>(&mut o, 4, 33, c(16, s), e, false);
        histories::<f32, 3>(&mut o, 6, 21, c(1, q), d, false);
        histories::<f32, 1>(&mut o, 8, 12, c(3, s), e, false);
        histories::<f64, 4>(&mut o, 7, 15, c(2, s), e, false);
        histories::<f64, 2>(&mut o, 6, 300, c(16, s), 3, false);
        histories::<f64, 2>(&mut o, 9, 9, c(2, s), 3, true);
        histories::<f32, 3>(&mut o, 6, 21, c(1, q), 3, true);
        if t {
            histories::<f64, 2>(&mut o, 3, 6, c(1, s), 5, true);
            histories::<f64, 2>(&mut o, 10, 11, c(1, q), 4, false);
        }
        o
    })
}
