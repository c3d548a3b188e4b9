//! C18: the public distance helpers.
use enumk::{engine::*, num::*};
use fnntw::{distance::*, point::Point, NotNan};

fn nn<T: Fl, const D: usize>(p: &[T; D]) -> [NotNan<T>; D] {
    p.map(|c| NotNan::new(c).unwrap())
}
fn decode<const D: usize>(i: &mut u64, alpha: &[i64]) -> [i64; D] {
    std::array::from_fn(|_| {
        let v = alpha[(*i % alpha.len() as u64) as usize];
        *i /= alpha.len() as u64;
        v
    })
}
fn sq<const D: usize>(a: &[i64; D], b: &[i64; D]) -> i64 {
    (0..D).map(|i| (a[i] - b[i]) * (a[i] - b[i])).sum()
}
/// got (a square in units^2) equals exact
fn ok<T: Fl>(got: T, exact: i64, u: Unit, d: usize) -> bool {
    let g = got.f() / u.get() / u.get();
    close(g, exact as f64, d, T::EPS)
}

/// Every pair of lattice points (second relative to a shift), every axis and
/// every interesting current best.
fn pairs<T: Fl, const D: usize>(alpha: &'static [i64], exp: i32, shift: i64) -> Box<dyn Family> {
    let n = (alpha.len() as u64).pow(D as u32);
    let u = Unit { exp };
    fam(format!("{D}-D {} pairs over {alpha:?} + {shift}, unit 2^{exp}", T::NAME), n, move |i, cx| {
        let a: [i64; D] = decode(&mut { i }, alpha).map(|c| c + shift);
        for mut j in 0..n {
            let b: [i64; D] = decode(&mut j, alpha).map(|c| c + shift);
            let (qa, qb) = (nn(&u.pt::<T, D>(&a)), nn(&u.pt::<T, D>(&b)));
            let e = sq(&a, &b);
            let g = squared_euclidean(&qa, &qb);
            cx.mix(g.bits());
            cx.op();
            if !ok(g, e, u, D) {
                return cx.fail(|| format!("squared_euclidean({qa:?}, {qb:?}) = {g:?}"));
            }
            for axis in 0..D {
                let (t, x, r) = squared_euclidean_axis(&qa, &qb, axis);
                let ex = (a[axis] - b[axis]).pow(2);
                cx.mix(t.bits() ^ x.bits());
                cx.op();
                if !ok(t, e, u, D) || !ok(x, ex, u, D) || !ok(r, e - ex, u, D) {
                    return cx.fail(|| format!("squared_euclidean_axis({qa:?}, {qb:?}, {axis}) = {:?}", (t, x, r)));
                }
            }
            // current best: zero, just below, equal, just above, infinite
            let un = |v: i64| T::of(v as f64 * u.get() * u.get());
            let f = un(e);
            let mut bests = vec![(un(0), e < 0), (f, false), (un(e + 1), true), (un(4 * e + 9), true), (T::of(f64::INFINITY), true)];
            if e > 0 {
                bests.push((un(e - 1), false));
            }
            let cur = [NotNan::new(T::of(77.0)).unwrap(); D];
            for (best, better) in bests {
                // new_best, the current candidate being another point or a copy of the new one
                for same in [false, true] {
                    let copy = qb;
                    let (pc, po) = (Point::new(&qb), Point::new(if same { &copy } else { &cur }));
                    let (mut d, mut c) = (best, &po);
                    new_best(&qa, &pc, &mut d, &mut c);
                    cx.mix(d.bits() + (c == &pc) as u64);
                    cx.op();
                    let good = if better { c == &pc && ok(d, e, u, D) } else { c == &po && d.bits() == best.bits() };
                    if !good {
                        return cx.fail(|| {
                            format!("new_best({qa:?}, {qb:?}, best {best:?}): best becomes {d:?}, candidate replaced: {}", c == &pc)
                        });
                    }
                    let (mut d, mut c) = (best, if same { &copy } else { &cur });
                    let r = new_best_short(&qa, &qb, &mut d, &mut c);
                    cx.op();
                    let moved = std::ptr::eq(c, &qb);
                    let good = r == better && moved == better && if better { ok(d, e, u, D) } else { d.bits() == best.bits() };
                    if !good {
                        return cx.fail(|| {
                            format!("new_best_short({qa:?}, {qb:?}, best {best:?}) = {r}: best becomes {d:?}, candidate replaced: {moved}")
                        });
                    }
                }
            }
        }
        cx.states += n;
        cx.sample(|| format!("all helpers on {a:?} and every other point over {alpha:?}"));
    })
}

/// Every box over a lattice and every query around it.
fn spaces<T: Fl, const D: usize>(side: i64, exp: i32, shift: i64, step: i64) -> Box<dyn Family> {
    // per axis: lower <= upper in 0..side
    let iv: Vec<(i64, i64)> = (0..side).flat_map(|l| (l..side).map(move |h| (l, h))).collect();
    let n = (iv.len() as u64).pow(D as u32);
    let u = Unit { exp };
    let qs: Vec<i64> = (-2..=side + 1).map(|q| q * step + shift).chain(if step > 1 { (0..side).map(|q| q * step + 1 + shift).collect() } else { vec![] }).collect();
    fam(format!("{D}-D {} boxes of side <= {side} x {step}, shift {shift}, unit 2^{exp}", T::NAME), n, move |mut i, cx| {
        let bx: [(i64, i64); D] = std::array::from_fn(|_| {
            let v = iv[(i % iv.len() as u64) as usize];
            i /= iv.len() as u64;
            (v.0 * step + shift, v.1 * step + shift)
        });
        let lo = bx.map(|b| b.0);
        let hi = bx.map(|b| b.1);
        let (fl, fh) = (nn(&u.pt::<T, D>(&lo)), nn(&u.pt::<T, D>(&hi)));
        cx.states += 1;
        let nq = (qs.len() as u64).pow(D as u32);
        for mut j in 0..nq {
            let q: [i64; D] = decode(&mut j, &qs);
            let fq = nn(&u.pt::<T, D>(&q));
            let e: i64 = (0..D).map(|a| (lo[a] - q[a]).max(q[a] - hi[a]).max(0).pow(2)).sum();
            let g = calc_dist_sq_to_space(&fq, &fl, &fh);
            cx.mix(g.bits());
            cx.op();
            if !ok(g, e, u, D) {
                return cx.fail(|| format!("calc_dist_sq_to_space({fq:?}, {fl:?}, {fh:?}) = {g:?}"));
            }
            // never beyond a point of the box: its corners and the point nearest to the query
            for m in 0..=1u32 << D {
                let p: [i64; D] = std::array::from_fn(|a| if m == 1 << D { q[a].clamp(lo[a], hi[a]) } else if m >> a & 1 == 1 { hi[a] } else { lo[a] });
                let d = squared_euclidean(&fq, &nn(&u.pt::<T, D>(&p)));
                cx.op();
                if g > d {
                    return cx.fail(|| format!("calc_dist_sq_to_space({fq:?}, {fl:?}, {fh:?}) = {g:?} exceeds {d:?}, the squared distance to {p:?} in the box"));
                }
            }
        }
        cx.sample(|| format!("calc_dist_sq_to_space from {nq} queries to {lo:?}..{hi:?}"));
    })
}

/// Magnitudes over the whole range: direct evaluation in the same precision.
fn extremes<T: Fl, const D: usize>(alpha: Vec<f64>) -> Box<dyn Family> {
    let n = (alpha.len() as u64).pow(D as u32);
    let near = |g: T, e: T| -> bool {
        g.bits() == e.bits() || g.f() == e.f() || (g.f().is_finite() && e.f().is_finite() && (g.f() - e.f()).abs() <= 8.0 * T::EPS * e.f().abs() + if T::EPS > 1e-10 { 1e-44 } else { 2e-323 })
            // around the overflow threshold either is right
            || (g.f().max(e.f()).is_infinite() && g.f().min(e.f()) > 0.99 * if T::EPS > 1e-10 { f32::MAX as f64 } else { f64::MAX })
    };
    fam(format!("{D}-D {} extreme magnitudes", T::NAME), n, move |mut i, cx| {
        let pt = |mut j: u64| -> [T; D] {
            std::array::from_fn(|_| {
                let v = alpha[(j % alpha.len() as u64) as usize];
                j /= alpha.len() as u64;
                T::of(v)
            })
        };
        let a = pt(i);
        i = 0;
        let _ = i;
        cx.states += n;
        for j in 0..n {
            let b = pt(j);
            let (qa, qb) = (nn(&a), nn(&b));
            let part = |k: usize| -> T {
                let d = a[k] - b[k];
                d * d
            };
            let mut e = T::of(0.0);
            for k in 0..D {
                e += part(k);
            }
            let g = squared_euclidean(&qa, &qb);
            cx.mix(g.bits());
            cx.op();
            if !near(g, e) {
                return cx.fail(|| format!("squared_euclidean({a:?}, {b:?}) = {g:?}, direct evaluation gives {e:?}"));
            }
            for axis in 0..D {
                let mut r = T::of(0.0);
                for k in 0..D {
                    if k != axis {
                        r += part(k);
                    }
                }
                let (t, x, y) = squared_euclidean_axis(&qa, &qb, axis);
                cx.op();
                if !near(t, e) || !near(x, part(axis)) || !near(y, r) {
                    return cx.fail(|| format!("squared_euclidean_axis({a:?}, {b:?}, {axis}) = {:?}", (t, x, y)));
                }
            }
            // from every point of the alphabet to the box between a and b
            let lo: [T; D] = std::array::from_fn(|k| if a[k] < b[k] { a[k] } else { b[k] });
            let hi: [T; D] = std::array::from_fn(|k| if a[k] < b[k] { b[k] } else { a[k] });
            for m in 0..n {
                let q = pt(m);
                let mut e = T::of(0.0);
                for k in 0..D {
                    let c = if q[k] < lo[k] { lo[k] } else if q[k] > hi[k] { hi[k] } else { q[k] };
                    e += (q[k] - c) * (q[k] - c);
                }
                let g = calc_dist_sq_to_space(&nn(&q), &nn(&lo), &nn(&hi));
                cx.op();
                if !near(g, e) {
                    return cx.fail(|| format!("calc_dist_sq_to_space({q:?}, {lo:?}, {hi:?}) = {g:?}, direct evaluation gives {e:?}"));
                }
                for c in [&qa, &qb] {
                    let d = squared_euclidean(&nn(&q), c);
                    if g > d && !near(g, d) {
                        return cx.fail(|| format!("calc_dist_sq_to_space({q:?}, {lo:?}, {hi:?}) = {g:?} exceeds {d:?}"));
                    }
                }
            }
            // infinitely far is not closer than infinitely far
            let cur = nn(&[T::of(1.0); D]);
            let inf = T::of(f64::INFINITY);
            let (pc, po) = (Point::new(&qb), Point::new(&cur));
            let (mut d, mut c) = (inf, &po);
            new_best(&qa, &pc, &mut d, &mut c);
            cx.op();
            let better = g < inf;
            if (c == &pc) != better || !(if better { near(d, g) } else { d == inf }) {
                return cx.fail(|| format!("new_best({a:?}, {b:?}, infinite best): best {d:?}, replaced {}", c == &pc));
            }
            let (mut d, mut c) = (inf, &cur);
            let r = new_best_short(&qa, &qb, &mut d, &mut c);
            cx.op();
            if r != better || std::ptr::eq(c, &qb) != better || !(if better { near(d, g) } else { d == inf }) {
                return cx.fail(|| format!("new_best_short({a:?}, {b:?}, infinite best) = {r}: best {d:?}"));
            }
        }
    })
}

/// Many dimensions: points that are 0 but for one or two axes, boxes likewise.
fn wide<T: Fl, const D: usize>(v: &mut Vec<Box<dyn Family>>) {
    v.push(fam(format!("{D}-D {} points on one or two axes", T::NAME), (D * D) as u64, move |i, cx| {
        let (x, y) = ((i as usize) / D, (i as usize) % D);
        let u = Unit { exp: 0 };
        for (va, vb) in [(1, 0), (-2, 3), (5, 5), (0, 7)] {
            let mut a = [1i64; D];
            a[x] += va;
            let mut b = [1i64; D];
            b[y] -= vb;
            let (qa, qb) = (nn(&u.pt::<T, D>(&a)), nn(&u.pt::<T, D>(&b)));
            let e = sq(&a, &b);
            cx.states += 1;
            cx.op();
            let g = squared_euclidean(&qa, &qb);
            if !ok(g, e, u, D) {
                return cx.fail(|| format!("squared_euclidean({qa:?}, {qb:?}) = {g:?}"));
            }
            for axis in 0..D {
                let (t, s, r) = squared_euclidean_axis(&qa, &qb, axis);
                let ex = (a[axis] - b[axis]).pow(2);
                cx.op();
                if !ok(t, e, u, D) || !ok(s, ex, u, D) || !ok(r, e - ex, u, D) {
                    return cx.fail(|| format!("squared_euclidean_axis({qa:?}, {qb:?}, {axis}) = {:?}", (t, s, r)));
                }
            }
            // the box spanned by b and the constant 2; below, inside and above it
            let lo: [i64; D] = std::array::from_fn(|k| b[k].min(2));
            let hi: [i64; D] = std::array::from_fn(|k| b[k].max(2));
            let e: i64 = (0..D).map(|k| (lo[k] - a[k]).max(a[k] - hi[k]).max(0).pow(2)).sum();
            let g = calc_dist_sq_to_space(&qa, &nn(&u.pt::<T, D>(&lo)), &nn(&u.pt::<T, D>(&hi)));
            cx.mix(g.bits());
            cx.op();
            if !ok(g, e, u, D) {
                return cx.fail(|| format!("calc_dist_sq_to_space({qa:?}, {lo:?}, {hi:?}) = {g:?}"));
            }
            let e = sq(&a, &b);
            let cur = nn(&[T::of(9.0); D]);
            for (best, better) in [(e, false), (e + 1, true)] {
                let bf = T::of(best as f64);
                let (pc, po) = (Point::new(&qb), Point::new(&cur));
                let (mut d, mut c) = (bf, &po);
                new_best(&qa, &pc, &mut d, &mut c);
                let (mut d2, mut c2) = (bf, &cur);
                let r = new_best_short(&qa, &qb, &mut d2, &mut c2);
                cx.op();
                let w = if better { e } else { best };
                if (c == &pc) != better || r != better || std::ptr::eq(c2, &qb) != better || !ok(d, w, u, D) || !ok(d2, w, u, D) {
                    return cx.fail(|| format!("new_best / new_best_short({qa:?}, {qb:?}, best {best}): {d:?} {d2:?} {r}"));
                }
            }
        }
    }));
}

fn main() {
    enumk::engine::main(|_, t| {
        const L9: &[i64] = &[-4, -3, -2, -1, 0, 1, 2, 3, 4];
        const L5: &[i64] = &[-2, -1, 0, 1, 3];
        const L3: &[i64] = &[-1, 0, 2];
        const L2: &[i64] = &[0, 3];
        const BIG: &[i64] = &[-1_000_000, -4097, -1, 0, 1, 2, 999, 65536, 1_000_003];
        const BIG32: &[i64] = &[-900, -33, -1, 0, 1, 2, 31, 256, 1000];
        let mut v = vec![
            pairs::<f64, 1>(L9, 0, 0),
            pairs::<f32, 1>(L9, -3, 0),
            pairs::<f64, 1>(BIG, -7, 0),
            pairs::<f32, 1>(BIG32, 5, 0),
            pairs::<f64, 2>(L9, 0, 0),
            pairs::<f64, 2>(L5, -40, 1 << 20),
            pairs::<f32, 2>(L9, 2, 1000),
            pairs::<f64, 2>(BIG, 0, 0),
            pairs::<f32, 2>(BIG32, 0, 0),
            pairs::<f64, 3>(L5, 0, 0),
            pairs::<f64, 3>(L9, -2, 0),
            pairs::<f32, 3>(L5, 20, 0),
            pairs::<f64, 4>(L5, 0, 0),
            pairs::<f64, 5>(L3, 0, 0),
            pairs::<f32, 6>(L3, 0, 0),
            pairs::<f64, 8>(L2, 0, 0),
            pairs::<f64, 9>(L2, 0, 0),
            pairs::<f32, 10>(L2, 0, 0),
            spaces::<f64, 1>(6, 0, -2, 2),
            spaces::<f32, 1>(6, -5, 100, 3),
            spaces::<f64, 2>(4, 0, -3, 2),
            spaces::<f32, 2>(4, 3, 0, 1),
            spaces::<f64, 3>(3, -1, -2, 1),
            spaces::<f32, 3>(3, -1, 0, 2),
            spaces::<f64, 4>(2, 0, 0, 1),
            spaces::<f64, 5>(2, 0, -1, 1),
        ];
        v.push(pairs::<f64, 4>(&[-4, -3, -1, 0, 1, 2, 4], 0, 0));
        v.push(pairs::<f64, 7>(L3, 1, 0));
        v.push(spaces::<f64, 3>(4, 0, -2, 2));
        v.push(spaces::<f64, 4>(3, 0, 0, 1));
        v.push(spaces::<f32, 6>(2, 0, 0, 1));
        wide::<f64, 3>(&mut v);
        wide::<f32, 5>(&mut v);
        wide::<f64, 7>(&mut v);
        wide::<f64, 8>(&mut v);
        wide::<f64, 9>(&mut v);
        wide::<f64, 16>(&mut v);
        wide::<f32, 17>(&mut v);
        wide::<f64, 33>(&mut v);
        wide::<f64, 64>(&mut v);
        if t {
            v.push(pairs::<f64, 4>(L9, 0, 0));
            v.push(pairs::<f64, 5>(L5, 0, 0));
            v.push(pairs::<f32, 8>(L3, 0, 0));
            v.push(pairs::<f64, 12>(L2, 0, 0));
            v.push(spaces::<f64, 3>(6, 0, -2, 2));
            v.push(spaces::<f64, 4>(4, 0, 0, 1));
            v.push(spaces::<f64, 5>(3, 0, 0, 1));
        }
        let e64 = vec![0.0, -0.0, 5e-324, -5e-324, 1e-160, 1.0, -3.0, 1e154, -1e154, 1.2e154, 1e300, f64::MAX, -f64::MAX];
        let e32 = vec![0.0, -0.0, 1e-45, -1e-45, 1e-22, 1.0, -3.0, 1.8e19, -1.8e19, 3e38, f32::MAX as f64, -f32::MAX as f64];
        v.push(extremes::<f64, 1>(e64.clone()));
        v.push(extremes::<f32, 1>(e32.clone()));
        v.push(extremes::<f64, 2>(e64));
        v.push(extremes::<f32, 2>(e32));
        v.push(extremes::<f64, 3>(vec![0.0, 1.0, -1e154, f64::MAX]));
        v
    })
}
