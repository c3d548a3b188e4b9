//! C13: what every feature selection must have in common.
use enumk::{calls::*, data::*, engine::*, extreme::*, num::*, probe::*, uni::*};
use fnntw::Tree;

fn positions<T: Fl, const D: usize>(rows: &Rows<T>, data: &[[T; D]]) -> Result<(), String> {
    for (q, row) in rows.iter().enumerate() {
        for (j, e) in row.iter().enumerate() {
            let named = cfg!(not(feature = "no-position"));
            if let (Some(p), Some(i)) = (&e.pos, e.idx) {
                let want: Vec<u64> = data[i as usize].iter().map(|x| x.bits()).collect();
                if *p != want {
                    return Err(format!("query {q} entry {j}: position {p:x?} is not that of point {i}: {want:x?}"));
                }
            } else if named {
                return Err(format!("query {q} entry {j}: no position"));
            }
        }
    }
    Ok(())
}

fn image_sets_of<T: Fl, const D: usize>(data: &[[T; D]], l: Option<&[T; D]>, qs: &[[T; D]]) -> Vec<Vec<Set<T, D>>> {
    sets(data, qs.iter().map(|q| l.map_or(vec![vec![*q]], |l| image_sets(q, l))).collect())
}
fn all_calls<T: Fl, const D: usize>(
    t: &Tree<T, D>,
    data: &[[T; D]],
    l: Option<&[T; D]>,
    qs: &[[T; D]],
    sets: &[Vec<Set<T, D>>],
    cs: &[Call],
    cx: &mut Cx,
) -> Result<(), String> {
    let side = l.map_or(0.0, |l| l.iter().fold(0.0, |a, x| x.f().max(a)));
    for &c in cs {
        if !c.exists() {
            continue;
        }
        let r = match call(t, data.len(), qs, c) {
            Out::Rows(r) => judge(&r, data, sets, c, side).and_then(|_| positions(&r, data)).map(|_| r),
            Out::Refused(e) | Out::Shape(e) => Err(e),
        };
        let r = r.map_err(|e| format!("{c:?}, box {l:?}: {e}"))?;
        for row in &r {
            for e in row {
                cx.mix(e.idx.unwrap_or(9) + 1);
                cx.mix(e.d.map_or(1, |d| d.bits()));
            }
            cx.op();
        }
        cx.sample(|| format!("{c:?} of {:?}, box {l:?}, {}: {:?}", qs[0], show(data), r[0]));
    }
    Ok(())
}

#[derive(Clone, Copy)]
struct V {
    periodic: bool,
}
impl Visit for V {
    fn go<T: Fl, const D: usize>(self, ds: &Ds<D>, c: Class, cx: &mut Cx) {
        let data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
        let n = data.len();
        let mut cs = vec![Call::Nn, Call::Knn(1), Call::Knn(2), Call::Knn(0), Call::Knn(n + 1), Call::Batch(1), Call::Batch(3), Call::Batch(n + 2)];
        for a in 0..D {
            cs.extend([Call::Axis(2, a), Call::Axis(n, a)]);
        }
        if c == Class::X {
            cs = vec![Call::Nn, Call::Knn(5), Call::Batch(17), Call::Axis(4, D - 1)];
        }
        if c == Class::L {
            cs = vec![Call::Nn, Call::Knn(3), Call::Batch(2), Call::Axis(2, D - 1), Call::Axis(1, 0)];
        }
        let leafs: &[usize] = match c {
            Class::X => &[16],
            Class::L => &[2],
            _ => &[0, 1, 4],
        };
        let ls = if self.periodic { boxes(ds, &[0, 3], false).into_iter().map(Some).collect() } else { vec![None] };
        for l in ls {
            let (qs, lf): (Vec<[T; D]>, Option<[T; D]>) = match &l {
                Some(l) => (box_queries_sparse(ds, l, 5).iter().map(|q| ds.unit.pt(q)).collect(), Some(ds.unit.pt(l))),
                None => (sparse_queries(ds, 6).iter().map(|q| ds.unit.pt(q)).collect(), None),
            };
            let sets = image_sets_of(&data, lf.as_ref(), &qs);
            for &leaf in leafs {
                for b in [Build::Serial, Build::Par(1)] {
                    let r = build(&data, leaf, b).and_then(|t| match &lf {
                        Some(l) => t.with_boxsize(l).map_err(|e| e.to_string()),
                        None => Ok(t),
                    });
                    cx.states += 1;
                    let r = r.and_then(|t| all_calls(&t, &data, lf.as_ref(), &qs, &sets, &cs, cx));
                    if let Err(e) = r {
                        return cx.fail(|| format!("{e}; leafsize {leaf}, {b:?}, {}", show(&data)));
                    }
                }
            }
        }
    }
}

/// Every sequence over zeros of both signs and one.
fn zeros<T: Fl, const D: usize>(len: u32) -> Box<dyn Family> {
    let a = [T::of(-0.0), T::of(0.0), T::of(1.0)];
    let base = 3u64.pow(D as u32);
    let count: u64 = (1..=len).map(|m| base.pow(m)).sum();
    fam(format!("{D}-D {} signed zeros: sequences <= {len}", T::NAME), count, move |mut i, cx| {
        let mut m = 1;
        while i >= base.pow(m) {
            i -= base.pow(m);
            m += 1;
        }
        let mut data: Vec<[T; D]> = vec![];
        for _ in 0..m {
            data.push(std::array::from_fn(|_| {
                let v = a[(i % 3) as usize];
                i /= 3;
                v
            }));
        }
        let qs: Vec<[T; D]> = (0..base)
            .map(|mut c| {
                std::array::from_fn(|_| {
                    let v = a[(c % 3) as usize];
                    c /= 3;
                    v
                })
            })
            .collect();
        let n = data.len();
        let cs = [Call::Nn, Call::Knn(1), Call::Knn(n), Call::Batch(2), Call::Axis(2, 0)];
        for l in [None, Some([T::of(1.0); D]), Some([T::of(3.0); D])] {
            let sets = image_sets_of(&data, l.as_ref(), &qs);
            for leaf in [0, 1, 4] {
                for b in [Build::Serial, Build::Par(1)] {
                    let r = build(&data, leaf, b).and_then(|t| match &l {
                        Some(l) => t.with_boxsize(l).map_err(|e| e.to_string()),
                        None => Ok(t),
                    });
                    cx.states += 1;
                    if let Err(e) = r.and_then(|t| all_calls(&t, &data, l.as_ref(), &qs, &sets, &cs, cx)) {
                        return cx.fail(|| format!("{e}; leafsize {leaf}, {b:?}, {}", show(&data)));
                    }
                }
            }
        }
    })
}

/// Which calls succeed: data, box and query alphabets, every combination.
fn table<T: Fl>() -> Box<dyn Family> {
    let v: Vec<T> = [0.0, -0.0, 1.0, 2.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY].into_iter().map(T::of).collect();
    let nv = v.len() as u64;
    fam(format!("2-D {} which calls succeed", T::NAME), nv.pow(4) + 1, move |i, cx| {
        let mut data: Vec<[T; 2]> = vec![];
        if i < nv.pow(4) {
            let at = |j: u32| v[(i / nv.pow(j) % nv) as usize];
            data = vec![[at(0), at(1)], [at(2), at(3)]];
        }
        let fin = |p: &[T; 2]| p.iter().all(|x| x.f().is_finite());
        let valid = !data.is_empty() && data.iter().all(fin);
        for leaf in [0, 1, 2] {
            for b in [Build::Serial, Build::Par(1)] {
                let t = build(&data, leaf, b);
                cx.op();
                if t.is_ok() != valid {
                    return cx.fail(|| format!("build of {data:?}: accepted {}, valid {valid}", t.is_ok()));
                }
                let Ok(t) = t else { continue };
                cx.states += 1;
                for q in v.iter().flat_map(|&x| v.iter().map(move |&y| [x, y])) {
                    for c in [Call::Nn, Call::Knn(0), Call::Knn(1), Call::Knn(5), Call::Batch(0), Call::Batch(1), Call::Axis(1, 0), Call::Axis(1, 1), Call::Axis(1, 2)] {
                        if !c.exists() {
                            continue;
                        }
                        let want = fin(&q) && c != Call::Axis(1, 2);
                        let ok = match call(&t, 2, &[q], c) {
                            Out::Rows(_) => true,
                            Out::Refused(_) => false,
                            Out::Shape(e) => return cx.fail(|| format!("{c:?} of {q:?}: {e}; {data:?}")),
                        };
                        cx.mix(ok as u64 + 1);
                        cx.op();
                        if ok != want {
                            return cx.fail(|| format!("{c:?} of {q:?} on {data:?}: accepted {ok}"));
                        }
                    }
                }
                for l in v.iter().flat_map(|&x| v.iter().map(move |&y| [x, y])) {
                    let want = data.iter().all(|p| p.iter().all(|x| x.f() >= 0.0))
                        && fin(&l)
                        && data.iter().all(|p| (0..2).all(|a| p[a].f() <= l[a].f()));
                    // boxes with a zero side are C09's business
                    if l.iter().any(|x| x.f() == 0.0) {
                        continue;
                    }
                    let t = build(&data, leaf, b).unwrap();
                    cx.op();
                    if t.with_boxsize(&l).is_ok() != want {
                        return cx.fail(|| format!("box {l:?} for {data:?}: accepted {}", !want));
                    }
                }
            }
        }
    })
}

fn main() {
    enumk::engine::main(|_, t| {
        let mut o = vec![];
        for periodic in [false, true] {
            let u = universe(V { periodic }, Scope { thorough: false, nonneg: periodic, light: !t });
            for f in u {
                let n = format!("{} {}", if periodic { "box" } else { "open" }, f.name());
                o.push(fam(n, f.count(), move |i, cx| f.run(i, cx)));
            }
        }
        o.push(zeros::<f64, 1>(if t { 6 } else { 5 }));
        o.push(zeros::<f64, 2>(if t { 3 } else { 2 }));
        o.push(zeros::<f32, 3>(if t { 2 } else { 1 }));
        o.push(table::<f64>());
        if t {
            o.push(table::<f32>());
        }
        o
    })
}
