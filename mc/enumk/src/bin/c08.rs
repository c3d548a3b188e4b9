//! C08: invalid data and queries are refused. C09: box validation.
use enumk::{data::*, engine::*, num::*, oracle::*, probe::*, uni::*};
use fnntw::utils::FnntwError;
use fnntw::Tree;

fn same_pt<T: Fl>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.bits() == y.bits() || (x.is_nan() && y.is_nan()))
}
fn bad<T: Fl, const D: usize>(p: &[T; D]) -> bool {
    p.iter().any(|c| !c.f().is_finite())
}

/// Judge the result of building from `data`.
fn judge_build<T: Fl, const D: usize>(data: &[[T; D]], leaf: usize, b: Build, cx: &mut Cx) {
    let r = match b {
        Build::Serial => Tree::new(data, leaf),
        Build::Par(l) => Tree::new_parallel(data, leaf, l),
    };
    cx.op();
    let invalid = data.iter().any(bad);
    let m = match r {
        _ if data.is_empty() => match r {
            Err(FnntwError::ZeroLengthInputData) => return,
            Err(e) => format!("wrong error {e:?} for empty data"),
            Ok(_) => "empty data accepted".into(),
        },
        Ok(t) => {
            if !invalid {
                cx.states += 1;
                cx.mix(t.size() as u64);
                return;
            }
            "invalid data accepted".to_string()
        }
        Err(FnntwError::InvalidInputData { data_point }) if invalid => {
            if data.iter().any(|p| bad(p) && same_pt(p, &data_point)) {
                cx.mix(data_point[0].bits());
                return;
            }
            format!("error names {data_point:?}, which is not an invalid point of the input")
        }
        Err(e) => format!("{e:?} for {} data", if invalid { "invalid" } else { "valid" }),
    };
    cx.fail(|| format!("{m}; leafsize {leaf}, {b:?}, {}", show(data)));
}
fn all_builds<T: Fl, const D: usize>(data: &[[T; D]], cx: &mut Cx) {
    let n = data.len();
    for leaf in [1, 0, 2, n, n + 3] {
        for b in [Build::Serial, Build::Par(0), Build::Par(1)] {
            judge_build(data, leaf, b, cx);
        }
    }
    cx.sample(|| format!("new / new_parallel over {}", show(data)));
}

/// Every tuple over an alphabet as a data set of n points.
fn products<T: Fl, const D: usize>(what: &'static str, alpha: Vec<f64>, n: u32) -> Box<dyn Family> {
    let a = alpha.len() as u64;
    fam(format!("build {D}-D {} n={n} {what}", T::NAME), a.pow(n * D as u32), move |mut i, cx| {
        let data: Vec<[T; D]> = (0..n)
            .map(|_| {
                std::array::from_fn(|_| {
                    let v = alpha[(i % a) as usize];
                    i /= a;
                    T::of(v)
                })
            })
            .collect();
        if n <= 4 {
            all_builds(&data, cx);
        } else {
            judge_build(&data, 1, Build::Serial, cx);
            judge_build(&data, 2, Build::Par(2), cx);
        }
    })
}
const KINDS: [f64; 4] = [f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY];

/// One invalid component at every position of larger data sets.
fn positions<T: Fl, const D: usize>(ns: Vec<usize>, patterns: Vec<usize>) -> Box<dyn Family> {
    let mut cases = vec![];
    for &n in &ns {
        for &p in &patterns {
            for at in 0..n {
                if n <= 70 || at % 13 == 0 || at + 1 == n || at == n / 2 {
                    cases.push((n, p, at));
                }
            }
        }
    }
    fam(format!("build {D}-D {} one invalid component at every position", T::NAME), cases.len() as u64, move |i, cx| {
        let (n, p, at) = cases[i as usize];
        let ds = pattern_ds::<D>(p, n, &ISO);
        let mut data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
        for axis in 0..D {
            for k in KINDS {
                let keep = data[at][axis];
                data[at][axis] = T::of(k);
                for leaf in [4, n] {
                    judge_build(&data, leaf, Build::Serial, cx);
                }
                if n <= 70 {
                    judge_build(&data, 3, Build::Par(2), cx);
                }
                data[at][axis] = keep;
            }
        }
        judge_build(&data, 4, Build::Serial, cx);
    })
}
/// Above the approximate-median threshold.
fn huge_data() -> Box<dyn Family> {
    fam("build 100,003 points, invalid at the ends, middle, and nowhere", 4 * 3 * 2, |i, cx| {
        let n = 100_003usize;
        let mut data: Vec<[f64; 2]> = (0..n).map(|j| [(j * 7919 % n) as f64, (j % 1000) as f64]).collect();
        let at = [0, n / 2, n - 1][(i / 4 % 3) as usize];
        if i / 12 == 0 {
            data[at][(i % 2) as usize] = KINDS[(i % 4) as usize];
        } else if i % 4 != 0 {
            data[at] = [KINDS[(i % 4) as usize]; 2];
        }
        judge_build(&data, 32, if i % 2 == 0 { Build::Serial } else { Build::Par(2) }, cx);
    })
}

fn judge_query<T: Fl, const D: usize, R>(r: Result<R, FnntwError<T>>, qs: &[[T; D]], what: impl Fn() -> String, cx: &mut Cx) {
    cx.op();
    let invalid = qs.iter().any(bad);
    let m = match r {
        Ok(_) if !invalid => return,
        Ok(_) => "invalid query accepted".to_string(),
        Err(FnntwError::InvalidInputData { data_point }) if invalid => {
            if qs.iter().any(|p| bad(p) && same_pt(p, &data_point)) {
                return;
            }
            format!("error names {data_point:?}, which is not an invalid query")
        }
        Err(e) => format!("{e:?} for {} query", if invalid { "an invalid" } else { "a valid" }),
    };
    cx.fail(|| format!("{}: {m}", what()));
}

/// Every query tuple over an alphabet, every method, several trees.
fn queries<T: Fl, const D: usize>(alpha: Vec<f64>, rows: u32) -> Box<dyn Family> {
    let a = alpha.len() as u64;
    let count = a.pow(D as u32 * rows);
    fam(format!("query {D}-D {} {rows} rows", T::NAME), count, move |mut i, cx| {
        let qs: Vec<[T; D]> = (0..rows)
            .map(|_| {
                std::array::from_fn(|_| {
                    let v = alpha[(i % a) as usize];
                    i /= a;
                    T::of(v)
                })
            })
            .collect();
        for n in [1usize, 5] {
            let data: Vec<[T; D]> = (0..n).map(|j| std::array::from_fn(|x| T::of(((j * 3 + x) % 5) as f64 * 0.25))).collect();
            for leaf in [1, 8] {
                for boxed in [false, true] {
                    let mut t = build(&data, leaf, Build::Serial).unwrap();
                    if boxed {
                        // the finite letters of the alphabet have to be inside
                        let l = alpha.iter().cloned().filter(|v| v.is_finite()).fold(2.0, f64::max);
                        if alpha.iter().any(|v| *v < 0.0 && v.is_finite()) || l > 1e100 {
                            continue;
                        }
                        t = t.with_boxsize(&[T::of(l); D]).unwrap();
                    }
                    cx.states += 1;
                    let w = |m: &str, k: usize| format!("{m} k {k} {qs:?}, n {n} leafsize {leaf} box {boxed}");
                    if rows == 1 {
                        judge_query(t.query_nearest(&qs[0]), &qs, || w("query_nearest", 1), cx);
                        for k in [0, 1, 2, n + 1] {
                            judge_query(t.query_nearest_k(&qs[0], k), &qs, || w("query_nearest_k", k), cx);
                        }
                    }
                    #[cfg(all(feature = "parallel", feature = "no-position"))]
                    for k in [0, 1, n + 1] {
                        judge_query(t.query_nearest_k_parallel(&qs, k), &qs, || w("parallel", k), cx);
                        for axis in 0..D {
                            judge_query(t.query_nearest_k_parallel_axis(&qs, k, axis), &qs, || w("axis", k), cx);
                        }
                    }
                    cx.sample(|| format!("queries {qs:?} with every method, n {n} leafsize {leaf} box {boxed}"));
                }
            }
        }
    })
}
/// The invalid row at every position of longer batches, methods in order.
#[cfg(all(feature = "parallel", feature = "no-position"))]
fn batches(t: bool) -> Box<dyn Family> {
    let mut cases = vec![];
    for m in [2usize, 3, 9, 33, 100, 1000, 5000] {
        for at in 0..m {
            if m <= 33 || at % (m / 17) == 0 || at + 1 == m {
                for kind in 0..4 {
                    cases.push((m, at, kind));
                }
            }
        }
    }
    let _ = t;
    fam("query batches, the invalid row at every position", cases.len() as u64, move |i, cx| {
        let (m, at, kind) = cases[i as usize];
        let data: Vec<[f64; 2]> = (0..9).map(|j| [(j % 3) as f64, (j / 3) as f64]).collect();
        for boxed in [false, true] {
            let mut t = build(&data, 2, Build::Serial).unwrap();
            if boxed {
                t = t.with_boxsize(&[3.0, 4.0]).unwrap();
            }
            cx.states += 1;
            let mut qs: Vec<[f64; 2]> = (0..m).map(|j| [(j % 4) as f64 * 0.5, (j % 7) as f64 * 0.5]).collect();
            let good = qs.clone();
            qs[at][kind % 2] = KINDS[kind];
            let w = || format!("batch of {m}, row {at} invalid ({}), box {boxed}", KINDS[kind]);
            judge_query(t.query_nearest_k_parallel(&qs, 2), &qs, w, cx);
            judge_query(t.query_nearest_k_parallel_axis(&qs, 2, 1), &qs, w, cx);
            judge_query(t.query_nearest_k_parallel(&good, 2), &good, w, cx);
            if m <= 9 || at % 5 == 0 && m <= 100 {
                judge_query(t.query_nearest_k_parallel_with(&qs, 2), &qs, w, cx);
                judge_query(t.query_nearest_k_parallel_with(&qs, 0), &qs, w, cx);
                judge_query(t.query_nearest_k_parallel_with(&good, 2), &good, w, cx);
            }
        }
    })
}

fn c08(t: bool) -> Vec<Box<dyn Family>> {
    let five = vec![0.0, 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let eight = |max: f64, den: f64| vec![0.0, -0.0, den, -den, max, -max, f64::NAN, f64::NEG_INFINITY, f64::INFINITY];
    let e64 = eight(f64::MAX, 5e-324);
    let e32 = eight(f32::MAX as f64, 1e-45f32 as f64);
    let mut v: Vec<Box<dyn Family>> = vec![];
    v.push(fam("build from nothing", 1, |_, cx| {
        all_builds::<f64, 1>(&[], cx);
        all_builds::<f32, 3>(&[], cx);
        all_builds::<f64, 2>(&[], cx);
    }));
    for n in 1..=if t { 6 } else { 5 } {
        v.push(products::<f64, 1>("small", five.clone(), n));
    }
    for n in 1..=if t { 4 } else { 3 } {
        v.push(products::<f64, 2>("small", five.clone(), n));
    }
    for n in 1..=2 {
        v.push(products::<f64, 3>("small", five.clone(), n));
        v.push(products::<f32, 2>("extreme", e32.clone(), n));
        v.push(products::<f64, 2>("extreme", e64.clone(), n));
    }
    v.push(products::<f64, 1>("extreme", e64.clone(), 3));
    v.push(products::<f32, 4>("small", five.clone(), 1));
    v.push(products::<f32, 5>("small", five.clone(), 1));
    v.push(products::<f64, 7>("small", vec![1.0, f64::NAN, f64::INFINITY], 1));
    let ns = vec![6, 7, 8, 15, 16, 17, 31, 32, 33, 64, 65, 300, 1025];
    v.push(positions::<f64, 1>(ns.clone(), vec![0, 2, 6]));
    v.push(positions::<f64, 2>(ns.clone(), vec![1, 5, 6]));
    v.push(positions::<f32, 3>(ns.clone(), vec![4, 6, 9]));
    v.push(positions::<f64, 8>(vec![5, 33], vec![6]));
    v.push(huge_data());
    v.push(queries::<f64, 1>(e64.clone(), 1));
    v.push(queries::<f64, 2>(vec![0.0, 0.5, 2.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY], 1));
    v.push(queries::<f64, 2>(e64.clone(), 1));
    v.push(queries::<f32, 2>(e32.clone(), 1));
    v.push(queries::<f32, 3>(vec![0.0, 0.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY], 1));
    v.push(queries::<f64, 4>(vec![0.5, f64::NAN, f64::INFINITY], 1));
    v.push(queries::<f64, 6>(vec![0.5, f64::NAN, f64::NEG_INFINITY], 1));
    #[cfg(all(feature = "parallel", feature = "no-position"))]
    {
        for rows in 0..=5 {
            v.push(queries::<f64, 1>(vec![0.0, 0.75, f64::NAN, f64::INFINITY], rows));
        }
        for rows in 2..=3 {
            v.push(queries::<f32, 2>(vec![0.25, f64::NAN, f64::NEG_INFINITY], rows));
        }
        v.push(batches(t));
    }
    v
}

// ---- C09

const MAXES: usize = 12;
fn box_len(kind: usize, max: f64, f32_: bool) -> f64 {
    let up = |x: f64| if f32_ { (x as f32).next_up() as f64 } else { x.next_up() };
    let down = |x: f64| if f32_ { (x as f32).next_down() as f64 } else { x.next_down() };
    match kind {
        0 => max,
        1 => up(max),
        2 => down(max),
        3 => 2.0 * max.min(1e30) + 1.0,
        4 => 0.0,
        5 => -0.0,
        6 => -1.0,
        7 => f64::NAN,
        8 => f64::INFINITY,
        9 => f64::NEG_INFINITY,
        10 => up(0.0),
        _ => if f32_ { f32::MAX as f64 } else { f64::MAX },
    }
}
fn ranges(f32_: bool) -> Vec<(f64, f64)> {
    let (max, den) = if f32_ { (f32::MAX as f64, 1e-45f32 as f64) } else { (f64::MAX, 5e-324) };
    vec![
        (0.0, 1.0), (0.0, 0.0), (-0.0, 0.0), (0.5, 1.0), (1.0, 1.0), (-1.0, 1.0), (-den, 1.0), (0.0, max), (den, den), (-1.0, -0.5), (-max, max),
    ]
}
fn judge_box<T: Fl, const D: usize>(data: &[[T; D]], l: &[T; D], leaf: usize, b: Build, cx: &mut Cx) {
    let t = match build(data, leaf, b) {
        Ok(t) => t,
        Err(e) => return cx.fail(|| e),
    };
    cx.states += 1;
    let neg = data.iter().any(|p| p.iter().any(|c| c.f() < 0.0));
    let mut max = [f64::NEG_INFINITY; D];
    for p in data {
        for i in 0..D {
            max[i] = max[i].max(p[i].f());
        }
    }
    let small = (0..D).any(|i| max[i] > l[i].f());
    let inv = l.iter().any(|c| !c.f().is_finite());
    let res = t.with_boxsize(l);
    cx.mix(match &res {
        Ok(_) => 1,
        Err(FnntwError::NegativeDataPeriodicQuery) => 2,
        Err(FnntwError::SmallBoxsize) => 3,
        Err(_) => 4,
    } + 8 * (neg as u64 + 2 * small as u64 + 4 * inv as u64 + 8 * data.len() as u64));
    cx.op();
    let m = match res {
        Ok(t) => {
            if t.size() == 0 || t.get_data().as_ptr() != data.as_ptr() {
                "the accepted tree lost its data".to_string()
            } else if !neg && !small && !inv {
                return;
            } else {
                "accepted".to_string()
            }
        }
        Err(e) => {
            let right = match e {
                FnntwError::NegativeDataPeriodicQuery => neg,
                FnntwError::SmallBoxsize => small,
                FnntwError::InvalidBoxsize => inv,
                _ => false,
            };
            if right {
                return;
            }
            format!("refused with {e:?}")
        }
    };
    cx.fail(|| format!("box {l:?}: {m} (negative data {neg}, too small {small}, invalid {inv}); leafsize {leaf} {b:?} {}", show(data)));
}
/// Two points that span the given range on every axis.
fn extremes<T: Fl, const D: usize>(keep: Vec<usize>) -> Box<dyn Family> {
    let f32_ = T::EPS > 1e-10;
    let rs: Vec<(f64, f64)> = ranges(f32_).into_iter().enumerate().filter(|(i, _)| keep.contains(i)).map(|x| x.1).collect();
    let per = (rs.len() * MAXES) as u64;
    fam(format!("{D}-D {} data extremes x box lengths", T::NAME), per.pow(D as u32), move |mut i, cx| {
        let mut lo = [T::of(0.0); D];
        let mut hi = lo;
        let mut l = lo;
        for a in 0..D {
            let c = (i % per) as usize;
            i /= per;
            let r = rs[c / MAXES];
            lo[a] = T::of(r.0);
            hi[a] = T::of(r.1);
            l[a] = T::of(box_len(c % MAXES, r.1, f32_));
        }
        judge_box(&[lo, hi], &l, 1, Build::Serial, cx);
        if D < 3 {
            // mixed corners, other orders and builds
            let mut x = lo;
            let mut y = hi;
            x[0] = hi[0];
            y[0] = lo[0];
            judge_box(&[y, x], &l, 1, Build::Par(1), cx);
            judge_box(&[x, y], &l, 2, Build::Serial, cx);
            judge_box(&[hi, lo, lo, hi], &l, 0, Build::Serial, cx);
            judge_box(&[x, lo, y, hi, hi], &l, 3, Build::Par(0), cx);
        }
        cx.sample(|| format!("with_boxsize({l:?}) over [{lo:?}, {hi:?}]"));
    })
}
/// The extreme component at every position of larger data sets.
fn extreme_at<T: Fl, const D: usize>() -> Box<dyn Family> {
    let mut cases = vec![];
    for n in [3usize, 4, 5, 8, 9, 17, 33, 40, 70, 300] {
        for at in 0..n {
            if n <= 70 || at % 7 == 0 {
                cases.push((n, at));
            }
        }
    }
    fam(format!("{D}-D {} extreme component at every position", T::NAME), cases.len() as u64, move |i, cx| {
        let (n, at) = cases[i as usize];
        for p in [2usize, 6] {
            let ds = pattern_ds::<D>(p, n, &OFF);
            let base: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
            for axis in 0..D {
                for v in [T::of(-0.5), T::of(4096.0), T::of(-0.0)] {
                    let mut data = base.clone();
                    data[at][axis] = v;
                    let mut l = [T::of(4095.0); D];
                    for leaf in [1, 4, n] {
                        for b in [Build::Serial, Build::Par(2)] {
                            judge_box(&data, &l, leaf, b, cx);
                            l[axis] = T::of(4096.0);
                            judge_box(&data, &l, leaf, b, cx);
                            l[axis] = T::of(4095.0);
                        }
                    }
                }
            }
        }
    })
}
/// The accepted box is the one queries wrap around; setting it again replaces it.
#[derive(Clone, Copy)]
struct Used;
impl Visit for Used {
    fn go<T: Fl, const D: usize>(self, ds: &Ds<D>, _c: Class, cx: &mut Cx) {
        let data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
        let n = data.len() as i64;
        let ls = boxes(ds, &[0, 3, 4], D <= 2);
        for (j, l) in ls.iter().enumerate() {
            let other = ls[(j + 1 + n as usize) % ls.len()];
            for twice in [false, true] {
                let t = build(&data, 1 + j % 3, if j % 2 == 0 { Build::Serial } else { Build::Par(1) });
                let t = t.and_then(|t| if twice { t.with_boxsize(&ds.unit.pt(&other)).map_err(|e| e.to_string()) } else { Ok(t) });
                let t = t.and_then(|t| t.with_boxsize(&ds.unit.pt(l)).map_err(|e| e.to_string()));
                let t = match t {
                    Ok(t) => t,
                    Err(e) => return cx.fail(|| format!("box {l:?}: {e}; {}", show(&data))),
                };
                cx.states += 1;
                for q in box_queries(ds, l, false) {
                    let dist: Vec<i64> = ds.pts.iter().map(|p| d2per(p, &q, l)).collect();
                    let qf = ds.unit.pt::<T, D>(&q);
                    let r = nn(&t, &data, &qf).and_then(|(d, i)| check_nn(d, i, &dist, ds.unit, D));
                    cx.op();
                    if let Err(e) = r {
                        return cx.fail(|| format!("box {:?}, set twice {twice}, query {qf:?}: {e}; {}", ds.unit.pt::<T, D>(l), show(&data)));
                    }
                }
            }
        }
    }
}
fn c09(t: bool) -> Vec<Box<dyn Family>> {
    let all: Vec<usize> = (0..11).collect();
    let mut v = vec![
        extremes::<f64, 1>(all.clone()),
        extremes::<f32, 1>(all.clone()),
        extremes::<f64, 2>(all.clone()),
        extremes::<f32, 2>(all.clone()),
        extremes::<f64, 3>(if t { all.clone() } else { vec![0, 2, 3, 5, 7] }),
        extreme_at::<f64, 1>(),
        extreme_at::<f64, 2>(),
        extreme_at::<f32, 3>(),
        extreme_at::<f64, 5>(),
    ];
    v.extend(universe(Used, Scope { thorough: t, nonneg: true, light: true }));
    v
}
fn main() {
    enumk::engine::main(|p, t| if p.starts_with("C08") { c08(t) } else { c09(t) })
}
