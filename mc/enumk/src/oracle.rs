//! Brute-force reference, in exact integer arithmetic, and validators that
//! accept every answer the properties allow.
use crate::num::*;

pub type IPt<const D: usize> = [i64; D];

pub fn d2<const D: usize>(a: &IPt<D>, b: &IPt<D>) -> i64 {
    let mut s = 0i64;
    for i in 0..D {
        let d = (a[i] - b[i]) as i64;
        s += d * d;
    }
    s
}

/// Squared distance split into (axis, rest).
pub fn d2ax<const D: usize>(a: &IPt<D>, b: &IPt<D>, axis: usize) -> (i64, i64) {
    let d = (a[axis] - b[axis]) as i64;
    (d * d, d2(a, b) - d * d)
}

/// Squared distance under wrap-around.
pub fn d2per<const D: usize>(a: &IPt<D>, b: &IPt<D>, l: &IPt<D>) -> i64 {
    let mut s = 0i64;
    for i in 0..D {
        let d = (a[i] - b[i]).abs();
        let d = d.min(l[i] - d) as i64;
        s += d * d;
    }
    s
}

/// The query images of a periodic query: per axis unshifted or shifted by one
/// box length away from the nearer face. A query in the middle of an axis is
/// equally near to both, so there is one image set per choice of direction.
pub fn image_sets<const D: usize>(q: &IPt<D>, l: &IPt<D>) -> Vec<Vec<IPt<D>>> {
    let amb: Vec<usize> = (0..D).filter(|&i| 2 * q[i] == l[i]).collect();
    let mut sets = Vec::with_capacity(1 << amb.len());
    for dirs in 0..1usize << amb.len() {
        let mut set = Vec::with_capacity(1 << D);
        for m in 0..1usize << D {
            let mut p = *q;
            for i in 0..D {
                if m >> i & 1 == 1 {
                    let up = match amb.iter().position(|&a| a == i) {
                        Some(j) => dirs >> j & 1 == 1,
                        None => 2 * q[i] < l[i],
                    };
                    p[i] += if up { l[i] } else { -l[i] };
                }
            }
            set.push(p);
        }
        sets.push(set);
    }
    sets
}

/// Check one nearest-neighbour answer against exact squared distances.
pub fn check_nn<T: Fl>(got: T, idx: u64, dist: &[i64], u: Unit, d: usize) -> Result<(), String> {
    let m = *dist.iter().min().unwrap();
    let Some(&at) = dist.get(idx as usize) else {
        return Err(format!("index {idx} outside the data (n = {})", dist.len()));
    };
    if !same::<T>(at, m, d) {
        return Err(format!(
            "point {idx} at squared distance {at} is not nearest (nearest is {m})"
        ));
    }
    if !dist_ok(got, m, u, d) {
        return Err(format!(
            "distance {got:?} does not match exact squared distance {m} x (2^{})^2",
            u.exp
        ));
    }
    Ok(())
}

/// Check a k-nearest row (non periodic). `sorted` holds the sorted distances.
pub fn check_knn<T: Fl>(
    gd: &[T],
    gi: &[u64],
    dist: &[i64],
    sorted: &[i64],
    k: usize,
    u: Unit,
    d: usize,
    seen: &mut Vec<bool>,
) -> Result<(), String> {
    let n = dist.len();
    let want = k.min(n);
    if gd.len() != want || gi.len() != want {
        return Err(format!(
            "{} distances and {} indices instead of min(k = {k}, n = {n})",
            gd.len(),
            gi.len()
        ));
    }
    seen.clear();
    seen.resize(n, false);
    for j in 0..want {
        let i = gi[j] as usize;
        if i >= n {
            return Err(format!("entry {j}: index {} outside the data (n = {n})", gi[j]));
        }
        if seen[i] {
            return Err(format!("entry {j}: index {i} reported twice"));
        }
        seen[i] = true;
        if !same::<T>(dist[i], sorted[j], d) {
            return Err(format!(
                "entry {j}: point {i} has squared distance {}, the exact entry is {}",
                dist[i], sorted[j]
            ));
        }
        if !dist_ok(gd[j], sorted[j], u, d) {
            return Err(format!(
                "entry {j}: distance {:?} does not match exact squared distance {}",
                gd[j], sorted[j]
            ));
        }
        if j > 0 && gd[j - 1] > gd[j] {
            return Err(format!("entry {j}: distances not sorted"));
        }
    }
    Ok(())
}

/// Exact distances of every (point, image) pair: [point][image].
pub struct Pairs {
    pub n: usize,
    pub per: usize,
    pub d2: Vec<i64>,
    pub sorted: Vec<i64>,
}
pub fn pairs<const D: usize>(data: &[IPt<D>], images: &[IPt<D>]) -> Pairs {
    let mut v = Vec::with_capacity(data.len() * images.len());
    for p in data {
        for im in images {
            v.push(d2(p, im));
        }
    }
    let mut sorted = v.clone();
    sorted.sort_unstable();
    Pairs {
        n: data.len(),
        per: images.len(),
        d2: v,
        sorted,
    }
}

/// Check a periodic k-nearest row against one image set.
pub fn check_knn_pairs<T: Fl>(
    gd: &[T],
    gi: &[u64],
    p: &Pairs,
    k: usize,
    u: Unit,
    d: usize,
    used: &mut Vec<bool>,
) -> Result<(), String> {
    let want = k.min(p.n);
    if gd.len() != want || gi.len() != want {
        return Err(format!(
            "{} distances and {} indices instead of min(k = {k}, n = {})",
            gd.len(),
            gi.len(),
            p.n
        ));
    }
    used.clear();
    used.resize(p.d2.len(), false);
    for j in 0..want {
        let i = gi[j] as usize;
        if i >= p.n {
            return Err(format!("entry {j}: index {} outside the data (n = {})", gi[j], p.n));
        }
        if !dist_ok(gd[j], p.sorted[j], u, d) {
            return Err(format!(
                "entry {j}: distance {:?} does not match exact squared distance {}",
                gd[j], p.sorted[j]
            ));
        }
        if j > 0 && gd[j - 1] > gd[j] {
            return Err(format!("entry {j}: distances not sorted"));
        }
        let mut found = false;
        for m in i * p.per..(i + 1) * p.per {
            if !used[m] && same::<T>(p.d2[m], p.sorted[j], d) {
                used[m] = true;
                found = true;
                break;
            }
        }
        if !found {
            return Err(format!(
                "entry {j}: point {i} has no (unused) image at squared distance {}",
                p.sorted[j]
            ));
        }
    }
    Ok(())
}

/// Check an axis row. `ax2`, `non2`: exact parts per (point, image) pair.
pub struct AxPairs {
    pub n: usize,
    pub per: usize,
    pub ax: Vec<(i64, i64)>,
    pub sorted: Vec<i64>,
}
pub fn ax_pairs<const D: usize>(data: &[IPt<D>], images: &[IPt<D>], axis: usize) -> AxPairs {
    let mut ax = Vec::with_capacity(data.len() * images.len());
    for p in data {
        for im in images {
            ax.push(d2ax(p, im, axis));
        }
    }
    let mut sorted: Vec<i64> = ax.iter().map(|a| a.0 + a.1).collect();
    sorted.sort_unstable();
    AxPairs {
        n: data.len(),
        per: images.len(),
        ax,
        sorted,
    }
}
pub fn check_axis<T: Fl>(
    ga: &[T],
    gn: &[T],
    gi: Option<&[u64]>,
    p: &AxPairs,
    k: usize,
    u: Unit,
    d: usize,
    used: &mut Vec<bool>,
) -> Result<(), String> {
    let want = k.min(p.n);
    if ga.len() != want || gn.len() != want || gi.map_or(false, |g| g.len() != want) {
        return Err(format!(
            "row of {} / {} entries instead of min(k = {k}, n = {})",
            ga.len(),
            gn.len(),
            p.n
        ));
    }
    used.clear();
    used.resize(p.ax.len(), false);
    for j in 0..want {
        let range = match gi {
            Some(g) => {
                let i = g[j] as usize;
                if i >= p.n {
                    return Err(format!("entry {j}: index {i} outside the data (n = {})", p.n));
                }
                i * p.per..(i + 1) * p.per
            }
            None => 0..p.ax.len(),
        };
        let mut found = false;
        for m in range {
            let (a, b) = p.ax[m];
            if !used[m]
                && same::<T>(a + b, p.sorted[j], d)
                && dist_ok(ga[j], a, u, d)
                && dist_ok(gn[j], b, u, d)
            {
                used[m] = true;
                found = true;
                break;
            }
        }
        if !found {
            return Err(format!(
                "entry {j}: (axis, rest) = ({:?}, {:?}){} is not the split of an unused neighbour at squared distance {}",
                ga[j], gn[j], gi.map_or(String::new(), |g| format!(" at index {}", g[j])), p.sorted[j]
            ));
        }
    }
    Ok(())
}
