//! Judging answers at extreme magnitudes: the reference is evaluated without
//! overflow or underflow; squared distances may overflow to infinity or
//! underflow, as direct evaluation in the same precision does.
use crate::calls::*;
use crate::num::*;

/// Largest and least positive float of the type.
pub fn range<T: Fl>() -> (f64, f64) {
    if T::NAME == "f32" {
        (f32::MAX as f64, f32::from_bits(1) as f64)
    } else {
        (f64::MAX, f64::from_bits(1))
    }
}
/// Euclidean length without intermediate overflow or underflow.
pub fn len(v: impl Iterator<Item = f64>) -> f64 {
    v.fold(0.0f64, |a, x| a.hypot(x))
}
pub fn dist<T: Fl, const D: usize>(a: &[T; D], b: &[T; D]) -> f64 {
    len((0..D).map(|i| a[i].f() - b[i].f()))
}
/// What rounding may do to a distance in `d` dimensions.
#[derive(Clone, Copy)]
pub struct Slack {
    pub rel: f64,
    pub abs: f64,
    pub inf: f64,
}
impl Slack {
    /// `side`: the longest box side, whose rounding the images carry.
    pub fn of<T: Fl>(d: usize, side: f64) -> Slack {
        let (max, min) = range::<T>();
        Slack {
            rel: 4.0 * (d as f64 + 2.0) * T::EPS,
            abs: 4.0 * (d as f64).sqrt() * (min.sqrt() + T::EPS * side),
            inf: max.sqrt() * (1.0 - 1e-5),
        }
    }
    pub fn same(&self, a: f64, b: f64) -> bool {
        (a >= self.inf - self.abs && b >= self.inf - self.abs) || (a.is_finite() && b.is_finite() && (a - b).abs() <= self.rel * a.max(b) + self.abs)
    }
    /// Is the reported value right for the distance `e`?
    pub fn reported<T: Fl>(&self, g: T, e: f64) -> bool {
        let g = g.f();
        if !(g >= 0.0) {
            return false;
        }
        self.same(if SQRT { g } else { g.sqrt() }, e)
    }
}

/// One acceptable image set of a query, with every distance.
pub struct Set<T, const D: usize> {
    im: Vec<[T; D]>,
    /// [point][image]
    all: Vec<f64>,
    sorted: Vec<f64>,
}
/// `images[q]` are the acceptable image sets of query q; for a tree without a
/// box the query itself.
pub fn sets<T: Fl, const D: usize>(data: &[[T; D]], images: Vec<Vec<Vec<[T; D]>>>) -> Vec<Vec<Set<T, D>>> {
    images
        .into_iter()
        .map(|v| {
            v.into_iter()
                .map(|im| {
                    let mut all = Vec::with_capacity(data.len() * im.len());
                    for p in data {
                        for m in &im {
                            all.push(dist(p, m));
                        }
                    }
                    let mut sorted = all.clone();
                    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    Set { im, all, sorted }
                })
                .collect()
        })
        .collect()
}
pub fn judge<T: Fl, const D: usize>(rows: &Rows<T>, data: &[[T; D]], sets: &[Vec<Set<T, D>>], c: Call, side: f64) -> Result<(), String> {
    let s = Slack::of::<T>(D, side);
    if rows.len() != sets.len() {
        return Err(format!("{} rows for {} queries", rows.len(), sets.len()));
    }
    for (q, row) in rows.iter().enumerate() {
        let mut first = None;
        let ok = sets[q].iter().any(|set| match judge_row::<T, D>(row, data, set, c, s) {
            Ok(()) => true,
            Err(e) => {
                first.get_or_insert(e);
                false
            }
        });
        if !ok {
            return Err(format!("query {q} {:?}: {}", sets[q][0].im[0], first.unwrap()));
        }
    }
    Ok(())
}
fn judge_row<T: Fl, const D: usize>(row: &[Ent<T>], data: &[[T; D]], set: &Set<T, D>, c: Call, s: Slack) -> Result<(), String> {
    let Set { im, all, sorted } = set;
    let (per, n) = (im.len(), data.len());
    let want = c.k().map_or(1, |k| k.min(n));
    if row.len() != want {
        return Err(format!("{} entries instead of {want}", row.len()));
    }
    let mut used = vec![false; all.len()];
    for (j, e) in row.iter().enumerate() {
        let cand = match e.idx {
            Some(i) if i as usize >= n => return Err(format!("entry {j}: index {i} outside the data")),
            Some(i) => i as usize * per..(i as usize + 1) * per,
            None => 0..all.len(),
        };
        let fits = |x: usize| {
            if used[x] || !s.same(all[x], sorted[j]) {
                return false;
            }
            if let Some(g) = e.d {
                if !s.reported(g, all[x]) {
                    return false;
                }
            }
            if let (Some((a, b)), Call::Axis(_, axis)) = (e.ax, c) {
                let (p, m) = (&data[x / per], &im[x % per]);
                let along = (p[axis].f() - m[axis].f()).abs();
                let rest = len((0..D).filter(|&i| i != axis).map(|i| p[i].f() - m[i].f()));
                if !s.reported(a, along) || !s.reported(b, rest) {
                    return false;
                }
            }
            true
        };
        // the best fitting unused image of the point
        let Some(x) = cand
            .filter(|&x| fits(x))
            .min_by(|&a, &b| (all[a] - sorted[j]).abs().partial_cmp(&(all[b] - sorted[j]).abs()).unwrap_or(std::cmp::Ordering::Equal))
        else {
            return Err(format!("entry {j}: {e:?} is not an unused neighbour at distance {:e}", sorted[j]));
        };
        used[x] = true;
        if j > 0 {
            if let (Some(a), Some(b)) = (row[j - 1].d, e.d) {
                if a > b {
                    return Err(format!("entry {j}: distances not sorted"));
                }
            }
        }
    }
    Ok(())
}

/// The image sets of a query, in the precision of the crate; a query (nearly)
/// in the middle of an axis may be shifted either way.
pub fn image_sets<T: Fl, const D: usize>(q: &[T; D], l: &[T; D]) -> Vec<Vec<[T; D]>> {
    let mid: Vec<usize> = (0..D)
        .filter(|&i| {
            let (a, b) = (q[i].f(), l[i].f() - q[i].f());
            (a - b).abs() <= 8.0 * T::EPS * l[i].f() + 4.0 * range::<T>().1
        })
        .collect();
    (0..1usize << mid.len())
        .map(|dirs| {
            (0..1usize << D)
                .map(|m| {
                    let mut p = *q;
                    for i in 0..D {
                        if m >> i & 1 == 1 {
                            let up = match mid.iter().position(|&a| a == i) {
                                Some(j) => dirs >> j & 1 == 1,
                                None => q[i].f() < l[i].f() / 2.0,
                            };
                            p[i] = if up { T::of(q[i].f() + l[i].f()) } else { T::of(q[i].f() - l[i].f()) };
                        }
                    }
                    p
                })
                .collect()
        })
        .collect()
}
