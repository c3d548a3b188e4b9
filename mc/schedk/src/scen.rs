//! The scenarios: small concurrent programs on the real crate.
use crate::explore::mute;
use enumk::{calls::*, data::*, extreme::*, num::*, probe::*, structure::*};
use fnntw::Tree;
use std::sync::Arc;

#[derive(Clone, Copy, Debug)]
pub struct Bound {
    /// 1: atomics, locks, yields, thread starts and ends; 2: every access; 3: 1 and the plain accesses that conflict
    pub gran: u32,
    /// base policy: switch after so many steps (0: only when blocked)
    pub quantum: u32,
    /// deviations
    pub dev: u32,
}
const fn b(gran: u32, quantum: u32, dev: u32) -> Bound {
    Bound { gran, quantum, dev }
}
pub struct Scen {
    pub name: String,
    pub quick: Vec<Bound>,
    pub thorough: Vec<Bound>,
    pub maxsteps: u64,
    pub run: Box<dyn Fn() -> Result<u64, String>>,
}

/// Data, box and queries with what is right for them.
struct Fx<T: Fl, const D: usize> {
    data: Vec<[T; D]>,
    l: Option<[T; D]>,
    qs: Vec<[T; D]>,
    sets: Vec<Vec<Set<T, D>>>,
    leaf: usize,
}
impl<T: Fl, const D: usize> Fx<T, D> {
    fn new(pat: &str, n: usize, leaf: usize, periodic: bool, m: usize) -> Self {
        let p = PATTERNS.iter().position(|x| *x == pat).unwrap();
        let ds = pattern_ds::<D>(p, n, &ISO);
        let data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
        let li: [i64; D] = std::array::from_fn(|a| ds.hi[a] + 2 + a as i64 % 2);
        let l = periodic.then(|| ds.unit.pt(&li));
        let all = if periodic { box_queries_sparse(&ds, &li, 40) } else { sparse_queries(&ds, 40) };
        let qs: Vec<[T; D]> = (0..m).map(|i| ds.unit.pt(&all[i * (all.len() - 1) / m.max(2)])).collect();
        Self::with(data, l, qs, leaf)
    }
    fn with(data: Vec<[T; D]>, l: Option<[T; D]>, qs: Vec<[T; D]>, leaf: usize) -> Self {
        let sets = sets(&data, qs.iter().map(|q| l.as_ref().map_or(vec![vec![*q]], |l| image_sets(q, l))).collect());
        Fx { data, l, qs, sets, leaf }
    }
    fn tree(&self, b: Build) -> Result<Tree<'_, T, D>, String> {
        let t = build(&self.data, self.leaf, b)?;
        match &self.l {
            Some(l) => t.with_boxsize(l).map_err(|e| e.to_string()),
            None => Ok(t),
        }
    }
    fn judge(&self, o: Out<T>, c: Call) -> Result<u64, String> {
        match o {
            Out::Rows(r) => {
                let side = self.l.map_or(0.0, |l| l.iter().fold(0.0, |a, x| x.f().max(a)));
                judge(&r, &self.data, &self.sets, c, side).map_err(|e| format!("{c:?}: {e}; {} queries {:?} box {:?}", show(&self.data), self.qs, self.l))?;
                Ok(bits(&r).iter().fold(7, |h, v| (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23)))
            }
            Out::Refused(e) => Err(format!("{c:?}: valid queries refused: {e}")),
            Out::Shape(e) => Err(format!("{c:?}: {e}")),
        }
    }
    fn ask(&self, t: &Tree<'_, T, D>, c: Call) -> Out<T> {
        call(t, self.data.len(), &self.qs, c)
    }
    fn probe(&self, t: &Tree<'_, T, D>) -> Result<u64, String> {
        let n = self.data.len();
        structure(t, &self.data, self.leaf)?;
        let mut h = 0;
        for c in [Call::Nn, Call::Knn(1), Call::Knn(2), Call::Knn(n)] {
            h ^= self.judge(self.ask(t, c), c)?;
        }
        Ok(h)
    }
}

/// The global pool, with w workers that are asleep once `settle` returns.
/// (Building uses the pool in every case: the data is validated there.)
fn global(w: usize) {
    #[cfg(feature = "parallel")]
    {
        rayon::ThreadPoolBuilder::new().num_threads(w).build_global().unwrap();
        rayon::broadcast(|_| ());
    }
    let _ = w;
}
fn settle() {
    for _ in 0..if cfg!(feature = "parallel") { 400 } else { 0 } {
        std::thread::yield_now();
    }
}
/// explore f, which runs in a worker of the pool, or (without rayon) here
fn inside<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    settle();
    mute(false);
    #[cfg(feature = "parallel")]
    let r = {
        let mut r = None;
        rayon::scope(|_| r = Some(f()));
        r.unwrap()
    };
    #[cfg(not(feature = "parallel"))]
    let r = f();
    mute(true);
    r
}
/// explore f, called from outside of the pool
fn outside<R>(f: impl FnOnce() -> R) -> R {
    settle();
    mute(false);
    let r = f();
    mute(true);
    r
}

fn scen(v: &mut Vec<Scen>, name: String, quick: &[Bound], thorough: &[Bound], run: impl Fn() -> Result<u64, String> + 'static) {
    v.push(Scen { name, quick: quick.to_vec(), thorough: thorough.to_vec(), maxsteps: 3_000_000, run: Box::new(run) });
}
const SMALL: &[Bound] = &[b(1, 0, 3), b(1, 1, 2), b(2, 0, 1), b(3, 0, 2)];
const SMALL_T: &[Bound] = &[b(1, 0, 4), b(1, 1, 3), b(1, 3, 2), b(2, 0, 2), b(2, 5, 1), b(3, 0, 3)];
const ONE: &[Bound] = &[b(1, 0, 1), b(1, 2, 1), b(2, 0, 1), b(2, 9, 1)];
const MID: &[Bound] = &[b(1, 0, 2), b(1, 2, 1), b(2, 0, 1), b(2, 9, 1)];
const MID_T: &[Bound] = &[b(1, 0, 3), b(1, 2, 2), b(2, 0, 1), b(2, 7, 1), b(3, 0, 2), b(3, 3, 1)];
const BIG: &[Bound] = &[b(1, 0, 2), b(1, 2, 1)];
const BIG_T: &[Bound] = &[b(1, 0, 3), b(1, 2, 2), b(1, 5, 1), b(2, 0, 1)];

/// One batch in a pool.
fn batch<T: Fl, const D: usize>(v: &mut Vec<Scen>, pat: &'static str, n: usize, leaf: usize, per: bool, m: usize, w: usize, c: Call, q: &[Bound], t: &[Bound]) {
    if !c.exists() {
        return;
    }
    let fx = Fx::<T, D>::new(pat, n, leaf, per, m);
    scen(v, format!("{c:?} of {m} queries, {n} {pat} {D}-D {} points, leafsize {leaf}, box {per}, {w} workers", T::NAME), q, t, move || {
        global(w);
        let tree = fx.tree(Build::Serial)?;
        let r = if m % 2 == 0 { outside(|| fx.ask(&tree, c)) } else { inside(|| fx.ask(&tree, c)) };
        fx.judge(r, c)
    });
}

/// A batch with invalid rows: the error names one of them.
fn invalid<T: Fl, const D: usize>(v: &mut Vec<Scen>, m: usize, bad: &'static [usize], w: usize, c: Call, q: &[Bound], t: &[Bound]) {
    if !c.exists() {
        return;
    }
    let mut fx = Fx::<T, D>::new("low-discrepancy", 5, 1, false, m);
    let mut named = vec![];
    for (j, &i) in bad.iter().enumerate() {
        fx.qs[i][(i + j) % D] = T::of([f64::NAN, f64::INFINITY, f64::NEG_INFINITY][j % 3]);
        fx.qs[i][(i + j + 1) % D] = T::of(1000.0 + i as f64);
        named.push(format!("{:?}", 1000.0 + i as f64));
    }
    scen(v, format!("{c:?} of {m} queries of which {bad:?} are invalid, {w} workers"), q, t, move || {
        global(w);
        let tree = fx.tree(Build::Serial)?;
        match inside(|| fx.ask(&tree, c)) {
            Out::Refused(e) => match named.iter().position(|x| e.contains(x.as_str())) {
                Some(i) => Ok(i as u64 + 1),
                None => Err(format!("{c:?}: the error names no invalid query: {e}")),
            },
            _ => Err(format!("{c:?}: invalid queries {bad:?} accepted")),
        }
    });
}

/// new_parallel in a pool; several builds at once with `twice`.
fn par_build<T: Fl, const D: usize>(v: &mut Vec<Scen>, pat: &'static str, n: usize, leaf: usize, psl: usize, w: usize, twice: bool, q: &[Bound], t: &[Bound]) {
    let fx = Fx::<T, D>::new(pat, n, leaf, false, 4);
    scen(v, format!("new_parallel{} of {n} {pat} {D}-D {} points, leafsize {leaf}, par_split_level {psl}, {w} workers", if twice { " twice at once" } else { "" }, T::NAME), q, t, move || {
        global(w);
        let size = fx.tree(Build::Serial)?.size();
        let mk = || fx.tree(Build::Par(psl));
        let ts = if twice {
            #[cfg(feature = "parallel")]
            let (a, b) = inside(|| rayon::join(mk, mk));
            #[cfg(not(feature = "parallel"))]
            let (a, b) = inside(|| {
                std::thread::scope(|s| {
                    let h = s.spawn(mk);
                    (mk(), h.join().unwrap())
                })
            });
            vec![a?, b?]
        } else {
            vec![inside(mk)?]
        };
        let mut h = 0;
        for t in &ts {
            if t.size() != size {
                return Err(format!("size {} instead of {size} of the serial build; {}", t.size(), show(&fx.data)));
            }
            h ^= fx.probe(t)?;
        }
        Ok(h)
    });
}
/// new_parallel of invalid data.
fn bad_build<T: Fl, const D: usize>(v: &mut Vec<Scen>, n: usize, bad: &'static [usize], w: usize, q: &[Bound], t: &[Bound]) {
    let mut fx = Fx::<T, D>::new("low-discrepancy", n, 1, false, 1);
    let mut named = vec![];
    for (j, &i) in bad.iter().enumerate() {
        fx.data[i][(i + j) % D] = T::of([f64::NAN, f64::INFINITY][j % 2]);
        fx.data[i][(i + j + 1) % D] = T::of(3000.0 + i as f64);
        named.push(format!("{:?}", 3000.0 + i as f64));
    }
    scen(v, format!("new_parallel of {n} points of which {bad:?} are invalid, {w} workers"), q, t, move || {
        global(w);
        match inside(|| Tree::new_parallel(&fx.data, 1, 2).map(|t| t.size()).map_err(|e| e.to_string())) {
            Ok(_) => Err(format!("invalid data {bad:?} accepted")),
            Err(e) => match named.iter().position(|x| e.contains(x.as_str())) {
                Some(i) => Ok(i as u64 + 1),
                None => Err(format!("the error names no invalid point: {e}")),
            },
        }
    });
}

/// What a thread does with the shared tree.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Ask(Call),
    /// the same on the tree with a box
    Boxed(Call),
    Invalid(Call),
    /// build (with this many parallel levels, usize::MAX: serially), ask and drop another tree of the same data
    Build(usize),
    /// a tree of another type and dimension
    Foreign,
    /// drop a tree of the same data
    Drop,
    /// building from invalid data fails
    BadBuild,
}
struct Shared<T: Fl, const D: usize> {
    open: Fx<T, D>,
    boxed: Fx<T, D>,
}
impl<T: Fl, const D: usize> Shared<T, D> {
    fn act<'a>(&'a self, a: &Tree<'a, T, D>, p: &Tree<'a, T, D>, other: &mut Option<Tree<'a, T, D>>, op: Op) -> Result<Option<(bool, Out<T>, Call)>, String> {
        Ok(match op {
            Op::Ask(c) => Some((false, self.open.ask(a, c), c)),
            Op::Boxed(c) => Some((true, self.boxed.ask(p, c), c)),
            Op::Invalid(c) => {
                let mut q = self.open.qs.clone();
                let m = q.len() - 1;
                q[m][D - 1] = T::of(f64::NAN);
                match call(a, self.open.data.len(), &q, c) {
                    Out::Refused(_) => None,
                    _ => return Err(format!("{c:?}: invalid query accepted")),
                }
            }
            Op::Build(l) => {
                let t = self.open.tree(if l == usize::MAX { Build::Serial } else { Build::Par(l) })?;
                let c = Call::Knn(2);
                Some((false, self.open.ask(&t, c), c))
            }
            Op::Foreign => {
                let d: Vec<[f32; 3]> = (0..4).map(|i| [i as f32, 1.0, (i * i) as f32]).collect();
                let t = build(&d, 1, Build::Serial)?;
                let r = t.query_nearest(&[2.0, 1.0, 4.0]).map_err(|e| e.to_string())?;
                if r.1 != 2 || r.0 != 0.0 {
                    return Err(format!("other tree: {} at {}", r.1, r.0));
                }
                None
            }
            Op::Drop => {
                *other = None;
                None
            }
            Op::BadBuild => {
                let mut d = self.open.data.clone();
                d[1][0] = T::of(f64::NAN);
                if Tree::new(&d, 1).is_ok() {
                    return Err("invalid data accepted".into());
                }
                None
            }
        })
    }
}
/// Threads that share two trees; thread i runs ops[i].
fn share<T: Fl, const D: usize>(v: &mut Vec<Scen>, sh: &Arc<Shared<T, D>>, ops: &[&[Op]], tree: Build, w: usize, q: &[Bound], t: &[Bound]) {
    let sh = sh.clone();
    let ops: Vec<Vec<Op>> = ops.iter().map(|o| o.to_vec()).collect();
    scen(v, format!("threads {ops:?} share trees of {} {D}-D {} points ({tree:?}), {w} workers", sh.open.data.len(), T::NAME), q, t, move || {
        global(w);
        let a = sh.open.tree(tree)?;
        let p = sh.boxed.tree(tree)?;
        let mut others: Vec<Option<Tree<T, D>>> = ops.iter().map(|_| sh.open.tree(Build::Serial).ok()).collect();
        let rs: Vec<Vec<Result<_, String>>> = outside(|| std::thread::scope(|s| {
            let (a, p, sh) = (&a, &p, &*sh);
            let hs: Vec<_> = ops
                .iter()
                .zip(others.iter_mut())
                .map(|(o, other)| s.spawn(move || o.iter().map(|&op| sh.act(a, p, other, op)).collect::<Vec<_>>()))
                .collect();
            hs.into_iter().map(|h| h.join().map_err(|_| "a thread panicked".to_string())).map(|r| r.unwrap_or_else(|e| vec![Err(e)])).collect()
        }));
        let mut h = 0u64;
        for (i, r) in rs.into_iter().flatten().enumerate() {
            if let Some((boxed, o, c)) = r? {
                h = h.rotate_left(i as u32) ^ if boxed { sh.boxed.judge(o, c)? } else { sh.open.judge(o, c)? };
            }
        }
        // and afterwards the trees still answer
        h ^= sh.open.probe(&a)? ^ sh.boxed.probe(&p)?;
        Ok(h)
    });
}

/// Two threads of which the second starts after `k` others have asked (and, unless `alive`, ended).
fn far<T: Fl, const D: usize>(v: &mut Vec<Scen>, sh: &Arc<Shared<T, D>>, x: Op, y: Op, k: usize, alive: bool, q: &[Bound], t: &[Bound]) {
    let sh = sh.clone();
    scen(v, format!("{x:?} and {y:?} on trees of {} {D}-D {} points, in threads with {k} {} between them", sh.open.data.len(), T::NAME, if alive { "waiting" } else { "ended" }), q, t, move || {
        global(1);
        let a = sh.open.tree(Build::Serial)?;
        let p = sh.boxed.tree(Build::Serial)?;
        let (gate, end) = (std::sync::Barrier::new(3), std::sync::Barrier::new(k + 1));
        settle();
        let rs: Vec<Result<_, String>> = std::thread::scope(|s| {
            let (a, p, sh, gate, end) = (&a, &p, &*sh, &gate, &end);
            let first = move || {
                sh.open.ask(a, Call::Nn);
                sh.open.ask(a, Call::Knn(2));
            };
            let go = |op: Op| {
                s.spawn(move || {
                    first();
                    gate.wait();
                    sh.act(a, p, &mut None, op)
                })
            };
            let hx = go(x);
            for _ in 0..k {
                let h = s.spawn(move || {
                    first();
                    if alive {
                        end.wait();
                    }
                });
                if !alive {
                    let _ = h.join();
                }
            }
            let hy = go(y);
            // let them all reach the gate
            for _ in 0..3 * k + 40 {
                std::thread::yield_now();
            }
            mute(false);
            gate.wait();
            let r = [hx, hy].map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into())));
            mute(true);
            if alive {
                end.wait();
            }
            r.into()
        });
        let mut h = 0u64;
        for (i, r) in rs.into_iter().enumerate() {
            if let Some((boxed, o, c)) = r? {
                h = h.rotate_left(i as u32) ^ if boxed { sh.boxed.judge(o, c)? } else { sh.open.judge(o, c)? };
            }
        }
        Ok(h ^ sh.open.probe(&a)? ^ sh.boxed.probe(&p)?)
    });
}

#[cfg(feature = "parallel")]
fn moms(v: &mut Vec<Scen>, kind: usize, w: usize, chunk: usize, q: &[Bound], t: &[Bound]) {
    use fnntw::{moms::moms_seq, point::Point, NotNan};
    let n = 100_000;
    let data: Vec<[f64; 1]> = (0..n).map(|i| [match kind {
        0 => (i * 48271 % 65537) as f64,
        1 => (i % 3) as f64,
        _ => (n - i) as f64,
    }]).collect();
    scen(v, format!("moms_seq of {n} points (kind {kind}), chunks of {chunk}, {w} workers"), q, t, move || {
        global(w);
        let nn: &[[NotNan<f64>; 1]] = unsafe { std::mem::transmute(&data[..]) };
        let mut pts: Vec<Point<f64, 1>> = nn.iter().map(Point::new).collect();
        let ptr = |p: &Point<f64, 1>| unsafe { *p.get_unchecked(0) };
        let (ll, m, rl) = inside(|| {
            let (l, m, r) = moms_seq(&mut pts, Some(chunk), 0);
            (l.len(), ptr(m).into_inner(), r.len())
        });
        if ll + 1 + rl != n {
            return Err(format!("{ll} + 1 + {rl} of {n}"));
        }
        let mut seen = vec![false; n];
        for (i, p) in pts.iter().enumerate() {
            let x = ptr(p).into_inner();
            if (i < ll && x > m) || (i > ll && x < m) || (i == ll && x != m) {
                return Err(format!("element {i} of {ll}|1|{rl} is {x}, split point {m}"));
            }
            let k = index_of(p, &data)?;
            if std::mem::replace(&mut seen[k], true) {
                return Err(format!("point {k} twice"));
            }
        }
        Ok(ll as u64)
    });
}

pub fn scenarios(prop: &str) -> Vec<Scen> {
    let mut v = vec![];
    let p = prop.split('-').next().unwrap();
    let light = prop.ends_with("light");
    match p {
        "C05" | "C06" => {
            let cs: Vec<Call> = if p == "C05" { vec![Call::Batch(2)] } else { vec![Call::Axis(2, 0), Call::Axis(3, 1)] };
            for &c in &cs {
                batch::<f64, 2>(&mut v, "low-discrepancy", 4, 1, false, 2, 2, c, SMALL, SMALL_T);
                batch::<f64, 2>(&mut v, "low-discrepancy", 5, 2, false, 3, 2, c, MID, MID_T);
                if light {
                    continue;
                }
                batch::<f64, 2>(&mut v, "low-discrepancy", 4, 1, true, 2, 2, c, MID, MID_T);
                batch::<f32, 3>(&mut v, "two-values", 5, 1, false, 4, 3, c, BIG, BIG_T);
                batch::<f64, 2>(&mut v, "grid", 6, 1, true, 4, 3, c, BIG, BIG_T);
                batch::<f64, 2>(&mut v, "grid", 6, 2, false, 8, 4, c, BIG, BIG_T);
            }
            if p == "C05" {
                batch::<f64, 2>(&mut v, "low-discrepancy", 4, 1, false, 2, 2, Call::With(2), &[b(1, 0, 1)], BIG_T);
                if !light {
                    batch::<f64, 2>(&mut v, "grid", 6, 1, true, 5, 3, Call::With(3), &[b(1, 0, 1)], BIG_T);
                    batch::<f64, 2>(&mut v, "low-discrepancy", 5, 1, false, 4, 2, Call::Batch(99), BIG, BIG_T);
                }
            }
        }
        "C07" => {
            for psl in [1, 2, 3] {
                par_build::<f64, 2>(&mut v, "low-discrepancy", 4, 1, psl, 2, false, if psl == 1 && !light { SMALL } else { MID }, if psl == 1 { SMALL_T } else { MID_T });
                if !light {
                    par_build::<f64, 2>(&mut v, "low-discrepancy", 8, 1, psl, 3, false, if psl == 2 { MID } else { ONE }, MID_T);
                }
            }
            if light {
                return v;
            }
            par_build::<f64, 2>(&mut v, "low-discrepancy", 3, 1, 1, 2, false, MID, SMALL_T);
            par_build::<f64, 1>(&mut v, "constant", 7, 1, 2, 2, false, MID, MID_T);
            par_build::<f32, 3>(&mut v, "two-values", 7, 2, 3, 3, false, ONE, MID_T);
            par_build::<f64, 2>(&mut v, "grid", 9, 0, 2, 4, false, ONE, MID_T);
            par_build::<f64, 2>(&mut v, "low-discrepancy", 4, 1, 1, 2, true, BIG, BIG_T);
            par_build::<f64, 2>(&mut v, "low-discrepancy", 5, 1, 2, 3, true, BIG, BIG_T);
            par_build::<f64, 2>(&mut v, "low-discrepancy", 16, 1, usize::MAX, 4, false, &[b(1, 0, 1), b(1, 2, 1)], BIG_T);
            // builds large enough for the approximate median, which uses the pool inside the parallel builders
            // (hundreds of thousands of steps, so base policies only)
            par_build::<f64, 1>(&mut v, "low-discrepancy", 200_001, 20_000, 2, 1, false, &[b(1, 0, 0)], &[b(1, 0, 0), b(1, 2, 0)]);
            par_build::<f64, 1>(&mut v, "low-discrepancy", 200_001, 20_000, 2, 2, true, &[b(1, 0, 0), b(1, 1, 0)], &[b(1, 0, 0), b(1, 1, 0), b(1, 2, 0), b(1, 7, 0), b(1, 100, 0), b(1, 1000, 0)]);
        }
        "C08" => {
            for c in [Call::Batch(2), Call::Axis(1, 0), Call::With(1)] {
                let q = if matches!(c, Call::With(_)) { &[b(1, 0, 1)] } else { SMALL };
                invalid::<f64, 2>(&mut v, 2, &[0], 2, c, q, BIG_T);
                invalid::<f64, 2>(&mut v, 3, &[2], 2, c, q, BIG_T);
                if !light {
                    invalid::<f64, 2>(&mut v, 4, &[0, 3], 2, c, if q.len() == 1 { q } else { BIG }, BIG_T);
                    invalid::<f64, 2>(&mut v, 4, &[1, 2], 3, c, if q.len() == 1 { q } else { BIG }, BIG_T);
                }
            }
            bad_build::<f64, 2>(&mut v, 3, &[0], 2, MID, MID_T);
            bad_build::<f64, 2>(&mut v, 4, &[3], 2, MID, MID_T);
            bad_build::<f64, 2>(&mut v, 5, &[0, 4], 3, MID, MID_T);
        }
        #[cfg(feature = "parallel")]
        "C10" => {
            moms(&mut v, 0, 2, 25_000, &[b(1, 0, 2), b(1, 1, 1)], &[b(1, 0, 3), b(1, 1, 2)]);
            moms(&mut v, 1, 3, 20_000, &[b(1, 0, 2), b(1, 1, 1)], &[b(1, 0, 3), b(1, 1, 2)]);
            moms(&mut v, 2, 2, 99_999, &[b(1, 0, 2), b(1, 1, 1)], &[b(1, 0, 3), b(1, 1, 2)]);
        }
        "C17" => {
            let sh = Arc::new(Shared {
                open: Fx::<f64, 2>::new("low-discrepancy", 4, 1, false, 2),
                boxed: Fx::<f64, 2>::new("low-discrepancy", 4, 1, true, 2),
            });
            use Call::*;
            // pairs of operations that need no pool
            let single = [
                Op::Ask(Nn),
                Op::Ask(Knn(3)),
                Op::Boxed(Nn),
                Op::Boxed(Knn(2)),
                Op::Invalid(Knn(2)),
                Op::Build(usize::MAX),
                Op::Foreign,
                Op::Drop,
                Op::BadBuild,
            ];
            for (i, &x) in single.iter().enumerate() {
                for &y in &single[i..] {
                    if light && !matches!((x, y), (Op::Ask(_) | Op::Boxed(_), Op::Ask(_) | Op::Boxed(_) | Op::Build(_))) {
                        continue;
                    }
                    share(&mut v, &sh, &[&[x], &[y]], Build::Serial, 2, &[b(1, 0, 2), b(2, 0, 1)], &[b(1, 0, 3), b(2, 0, 1), b(2, 3, 1), b(3, 0, 2)]);
                }
            }
            // threads far apart
            let ks: &[usize] = if light { &[1, 3] } else { &[1, 2, 3, 6, 7, 14, 15] };
            for &k in ks {
                for alive in [false, true] {
                    far(&mut v, &sh, Op::Ask(Nn), Op::Ask(Nn), k, alive, &[b(1, 0, 1), b(2, 0, 1)], &[b(1, 0, 2), b(2, 0, 1), b(2, 3, 1)]);
                    far(&mut v, &sh, Op::Boxed(Knn(2)), Op::Ask(Knn(3)), k, alive, &[b(1, 0, 1), b(2, 0, 1)], &[b(1, 0, 2), b(2, 0, 1), b(2, 3, 1)]);
                }
            }
            // longer sequences, more threads
            share(&mut v, &sh, &[&[Op::Ask(Nn), Op::Boxed(Knn(2))], &[Op::Boxed(Knn(3)), Op::Ask(Knn(1))]], Build::Par(1), 2, MID, MID_T);
            share(&mut v, &sh, &[&[Op::Ask(Knn(2))], &[Op::Boxed(Nn)], &[Op::Build(usize::MAX), Op::Drop]], Build::Serial, 2, MID, MID_T);
            // operations that use the pool
            let pooled = [Op::Ask(Batch(2)), Op::Boxed(Batch(1)), Op::Ask(Axis(2, 0)), Op::Boxed(Axis(2, 1)), Op::Invalid(Batch(1)), Op::Build(1), Op::Build(2)];
            let pooled: Vec<Op> = pooled.into_iter().filter(|o| !matches!(o, Op::Ask(c) | Op::Boxed(c) | Op::Invalid(c) if !c.exists())).collect();
            for (i, &x) in pooled.iter().enumerate() {
                if light && matches!(x, Op::Build(_) | Op::Invalid(_)) {
                    continue;
                }
                for &y in &pooled[i..] {
                    if light && x != y {
                        continue;
                    }
                    share(&mut v, &sh, &[&[x], &[y]], Build::Serial, 2, &[b(1, 0, 1), b(2, 0, 1)], &[b(1, 0, 2), b(1, 2, 1), b(2, 0, 1)]);
                }
                share(&mut v, &sh, &[&[x], &[Op::Ask(Knn(2))]], Build::Serial, 2, BIG, BIG_T);
            }
            if Call::With(1).exists() {
                share(&mut v, &sh, &[&[Op::Ask(With(2))], &[Op::Ask(With(1))]], Build::Serial, 2, &[b(1, 0, 1)], BIG);
                share(&mut v, &sh, &[&[Op::Ask(With(2))], &[Op::Boxed(Batch(1))]], Build::Serial, 2, &[b(1, 0, 1)], BIG);
            }
        }
        // every scenario under the happens-before monitor
        "C16" => {
            for q in ["C05", "C06", "C07", "C08", "C10", "C17"] {
                v.extend(scenarios(&if light { format!("{q}-light") } else { q.to_string() }));
            }
            for s in &mut v {
                // more deviations where they are cheap, and preemption inside of std and rayon
                let few = !s.name.contains("With(") && (s.quick.iter().any(|b| b.gran == 1 && b.dev >= 2) || s.name.contains("threads ["));
                (s.quick, s.thorough) = if s.name.contains(" of 200001 ") {
                    (vec![], vec![b(1, 0, 0), b(1, 3, 0)])
                } else if s.name.contains(" of 100000 ") {
                    (vec![b(1, 0, 1), b(4, 0, 0)], vec![b(1, 0, 2), b(4, 0, 1)])
                } else if few {
                    (vec![b(1, 0, 1), b(4, 0, 1)], vec![b(1, 0, 2), b(1, 2, 1), b(4, 0, 1), b(4, 7, 1)])
                } else {
                    (vec![b(1, 0, 1), b(4, 0, 0)], vec![b(1, 0, 2), b(1, 2, 1), b(4, 0, 1)])
                };
            }
            v.retain(|s| !s.quick.is_empty() || !s.thorough.is_empty());
        }
        _ => {}
    }
    v
}
