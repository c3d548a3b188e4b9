//! Data-set universes: every case index decodes to one data set.
use crate::num::Unit;
use crate::oracle::IPt;

#[derive(Clone, Debug)]
pub struct Ds<const D: usize> {
    /// points, in lattice units
    pub pts: Vec<IPt<D>>,
    /// extent of the underlying grid and its (half) step, per axis
    pub lo: IPt<D>,
    pub hi: IPt<D>,
    pub half: IPt<D>,
    pub unit: Unit,
}

/// How grid cells become coordinates.
#[derive(Clone, Copy, Debug)]
pub struct Tf {
    pub name: &'static str,
    /// half steps per axis (index i mod len), so that queries can sit between cells
    pub half: [i64; 4],
    /// grid cells below zero
    pub shift: i64,
    /// constant offset in half steps
    pub off: i64,
    pub exp: i32,
}
pub const ISO: Tf = Tf { name: "iso", half: [1, 1, 1, 1], shift: 0, off: 0, exp: -1 };
pub const ANISO: Tf = Tf { name: "aniso", half: [3, 4, 2, 5], shift: 0, off: 0, exp: -2 };
pub const CENTRED: Tf = Tf { name: "centred", half: [2, 3, 5, 1], shift: 1, off: 0, exp: 0 };
pub const FAR: Tf = Tf { name: "far", half: [1, 2, 1, 1], shift: 0, off: 1000, exp: -3 };
pub const FARNEG: Tf = Tf { name: "farneg", half: [2, 1, 1, 3], shift: 0, off: -700, exp: 1 };
pub const TINY: Tf = Tf { name: "tiny", half: [1, 1, 2, 1], shift: 1, off: 0, exp: -50 };
pub const HUGE: Tf = Tf { name: "huge", half: [1, 2, 3, 1], shift: 0, off: 0, exp: 50 };

pub const OFF: Tf = Tf { name: "off", half: [2, 1, 1, 3], shift: 0, off: 6, exp: 1 };
pub const TINYPOS: Tf = Tf { name: "tinypos", half: [1, 1, 2, 1], shift: 0, off: 0, exp: -50 };
pub const VFAR64: Tf = Tf { name: "vfar", half: [1, 2, 1, 1], shift: 0, off: 1 << 30, exp: -4 };
pub const VFARPOS: Tf = Tf { name: "vfar", half: [1, 2, 1, 1], shift: 0, off: 1 << 28, exp: -4 };
pub const VFAR32: Tf = Tf { name: "vfar", half: [1, 2, 1, 1], shift: 0, off: 1 << 21, exp: -4 };

/// near the ends of the range in which squares are exact
pub const MIN64: Tf = Tf { name: "min", half: [1, 2, 1, 1], shift: 0, off: 2, exp: -500 };
pub const MAX64: Tf = Tf { name: "max", half: [2, 1, 1, 1], shift: 0, off: 2, exp: 500 };
pub const MIN32: Tf = Tf { name: "min", half: [1, 2, 1, 1], shift: 0, off: 2, exp: -60 };
pub const MAX32: Tf = Tf { name: "max", half: [2, 1, 1, 1], shift: 0, off: 2, exp: 52 };

impl Tf {
    pub fn pos(&self, axis: usize, cell: i64) -> i64 {
        (2 * (cell - self.shift) + self.off) * self.half[axis % 4]
    }
    pub fn ds<const D: usize>(&self, g: &[i64; D], cells: Vec<[i64; D]>) -> Ds<D> {
        let pts = cells
            .into_iter()
            .map(|c| std::array::from_fn(|i| self.pos(i, c[i])))
            .collect();
        Ds {
            pts,
            lo: std::array::from_fn(|i| self.pos(i, 0)),
            hi: std::array::from_fn(|i| self.pos(i, g[i] - 1)),
            half: std::array::from_fn(|i| self.half[i % 4]),
            unit: Unit { exp: self.exp },
        }
    }
}

pub fn cell<const D: usize>(g: &[i64; D], mut c: u64) -> [i64; D] {
    std::array::from_fn(|i| {
        let r = (c % g[i] as u64) as i64;
        c /= g[i] as u64;
        r
    })
}
pub fn ncells<const D: usize>(g: &[i64; D]) -> u64 {
    g.iter().map(|&x| x as u64).product()
}

/// Orders in which a canonical list of points is presented to the build.
pub fn reorder<P: Copy>(v: Vec<P>, order: u64) -> Vec<P> {
    let n = v.len();
    match order {
        0 => v,
        1 => v.into_iter().rev().collect(),
        // interleave front and back
        _ => (0..n).map(|i| if i % 2 == 0 { v[i / 2] } else { v[n - 1 - i / 2] }).collect(),
    }
}

/// All non-empty subsets of a grid, in `orders` orders.
pub fn subsets<const D: usize>(g: [i64; D], orders: u64) -> (u64, impl Fn(u64) -> Vec<[i64; D]>) {
    let c = ncells(&g);
    let count = ((1u64 << c) - 1) * orders;
    (count, move |idx| {
        let mask = idx / orders + 1;
        let v: Vec<[i64; D]> = (0..c).filter(|b| mask >> b & 1 == 1).map(|b| cell(&g, b)).collect();
        reorder(v, idx % orders)
    })
}

/// All subsets of size 1..=max of a grid (by combinadic rank).
pub fn small_subsets<const D: usize>(g: [i64; D], max: u64) -> (u64, impl Fn(u64) -> Vec<[i64; D]>) {
    let c = ncells(&g);
    let count: u64 = (1..=max).map(|m| binom(c, m)).sum();
    (count, move |mut idx| {
        let mut m = 1;
        while idx >= binom(c, m) {
            idx -= binom(c, m);
            m += 1;
        }
        // unrank
        let mut v = vec![];
        let mut k = m;
        let mut top = c;
        while k > 0 {
            let mut x = top - 1;
            while binom(x, k) > idx {
                x -= 1;
            }
            idx -= binom(x, k);
            v.push(cell(&g, x));
            top = x;
            k -= 1;
        }
        v
    })
}
pub fn binom(n: u64, k: u64) -> u64 {
    if k > n {
        return 0;
    }
    let mut r = 1u64;
    for i in 0..k {
        r = r * (n - i) / (i + 1);
    }
    r
}

/// All sequences (any order, any repetition) of lengths lo..=hi over a grid.
pub fn sequences<const D: usize>(g: [i64; D], lo: u32, hi: u32) -> (u64, impl Fn(u64) -> Vec<[i64; D]>) {
    let c = ncells(&g);
    let count: u64 = (lo..=hi).map(|n| c.pow(n)).sum();
    (count, move |mut idx| {
        let mut n = lo;
        while idx >= c.pow(n) {
            idx -= c.pow(n);
            n += 1;
        }
        (0..n)
            .map(|_| {
                let x = idx % c;
                idx /= c;
                cell(&g, x)
            })
            .collect()
    })
}

/// Named deterministic arrangements of n points (cells in a grid of side G).
pub const G: i64 = 64;
pub const PATTERNS: &[&str] = &[
    "sorted-line", "reversed-line", "constant", "two-values", "diagonal", "grid", "low-discrepancy",
    "clusters", "organ-pipe", "few-values", "outlier", "axis-last",
];
pub fn pattern<const D: usize>(p: usize, n: usize) -> Vec<[i64; D]> {
    let side = (1i64..).find(|s| s.checked_pow(D as u32).is_none_or(|p| p >= n as i64)).unwrap();
    (0..n)
        .map(|i| {
            let ii = i as i64;
            std::array::from_fn(|a| {
                let aa = a as i64;
                match PATTERNS[p] {
                    "sorted-line" => if a == 0 { ii } else { 0 },
                    "reversed-line" => if a == 0 { n as i64 - ii } else { aa },
                    "constant" => 7 + aa,
                    "two-values" => if (ii >> (a % 3)) & 1 == 0 { 1 } else { 5 + aa },
                    "diagonal" => if a % 2 == 0 { ii } else { n as i64 - ii },
                    "grid" => (ii / side.max(1).saturating_pow(a as u32)) % side.max(1),
                    "low-discrepancy" => {
                        // multiplicative lattice, distinct odd multipliers per axis
                        let m = [40503u64, 30011, 52361, 22807, 61333, 47251, 35969, 59447, 28657, 45557][a % 10];
                        ((i as u64 + 1).wrapping_mul(m) % 1009) as i64
                    }
                    "clusters" => {
                        let c = ii % 3;
                        c * 100 * (1 + aa % 2) + (ii / 3 * (3 + aa)) % 7
                    }
                    "organ-pipe" => ii.min(n as i64 - 1 - ii) * (1 + aa % 3),
                    "few-values" => (ii * (aa + 1)) % 3,
                    "outlier" => if i == n / 2 { 900 - aa } else { (ii * 5 + aa) % 11 },
                    _ => if a == D - 1 { ii } else { (ii / 2) % 2 }, // axis-last
                }
            })
        })
        .collect()
}
pub fn pattern_ds<const D: usize>(p: usize, n: usize, tf: &Tf) -> Ds<D> {
    let cells = pattern::<D>(p, n);
    let mut d = tf.ds(&[1; D], cells);
    for i in 0..D {
        d.lo[i] = d.pts.iter().map(|q| q[i]).min().unwrap();
        d.hi[i] = d.pts.iter().map(|q| q[i]).max().unwrap();
    }
    d
}

/// Query points.
pub fn lattice_queries<const D: usize>(d: &Ds<D>, fine: bool) -> Vec<IPt<D>> {
    let axes: Vec<Vec<i64>> = (0..D)
        .map(|i| {
            let h = d.half[i];
            if fine {
                // one step outside on both sides, every half step
                let mut v = vec![];
                let mut x = d.lo[i] - 2 * h;
                while x <= d.hi[i] + 2 * h {
                    v.push(x);
                    x += h;
                }
                v
            } else {
                let mut v = vec![d.lo[i] - h, d.lo[i], d.lo[i] + h, d.hi[i], d.hi[i] + 3 * h];
                v.sort();
                v.dedup();
                v
            }
        })
        .collect();
    product(&axes)
}
pub fn product<const D: usize>(axes: &[Vec<i64>]) -> Vec<IPt<D>> {
    let n: usize = axes.iter().map(|a| a.len()).product();
    (0..n)
        .map(|mut k| {
            std::array::from_fn(|i| {
                let a = &axes[i];
                let v = a[k % a.len()];
                k /= a.len();
                v
            })
        })
        .collect()
}
/// A bounded number of telling queries for a large data set.
pub fn sparse_queries<const D: usize>(d: &Ds<D>, max: usize) -> Vec<IPt<D>> {
    let n = d.pts.len();
    let mut v: Vec<IPt<D>> = vec![];
    let step = (n / (max / 2).max(1)).max(1);
    let mut i = 0;
    while i < n {
        let p = d.pts[i];
        v.push(p); // on a point
        let q = d.pts[(i * 7 + 3) % n];
        v.push(std::array::from_fn(|a| (p[a] + q[a]).div_euclid(2))); // between two
        v.push(std::array::from_fn(|a| p[a] + if a % 2 == 0 { 1 } else { -1 })); // beside one
        i += step;
    }
    v.push(std::array::from_fn(|a| d.lo[a] - 17 * d.half[a])); // outside corners
    v.push(std::array::from_fn(|a| d.hi[a] + 23 * d.half[a]));
    v.push(std::array::from_fn(|a| if a % 2 == 0 { d.lo[a] - 5 } else { d.hi[a] + 9 }));
    v.push(std::array::from_fn(|a| (d.lo[a] + d.hi[a]).div_euclid(2)));
    for a in 0..D {
        // outside along one axis only
        let mut m: IPt<D> = std::array::from_fn(|b| (d.lo[b] + d.hi[b]).div_euclid(2));
        m[a] = d.hi[a] + 40;
        v.push(m);
        m[a] = d.lo[a] - 40;
        v.push(m);
    }
    v
}
