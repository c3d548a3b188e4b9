//! Structure of a tree, read from its public nodes (C19, C10).
use crate::num::*;
use fnntw::{point::Point, Node, Tree};

/// Which data point does this refer to?
pub fn index_of<T: Fl, const D: usize>(p: &Point<T, D>, data: &[[T; D]]) -> Result<usize, String> {
    // the address of the first component gives the index
    let a = unsafe { p.get_unchecked(0) } as *const _ as usize;
    let base = data.as_ptr() as usize;
    let sz = std::mem::size_of::<[T; D]>();
    if a < base || (a - base) % sz != 0 || (a - base) / sz >= data.len() {
        return Err("a node refers to a point outside the data".into());
    }
    Ok((a - base) / sz)
}
struct Sub<const D: usize> {
    n: usize,
    lo: [f64; D],
    hi: [f64; D],
    depth: usize,
}
impl<const D: usize> Sub<D> {
    fn add<T: Fl>(&mut self, p: &[T; D]) {
        self.n += 1;
        for i in 0..D {
            self.lo[i] = self.lo[i].min(p[i].f());
            self.hi[i] = self.hi[i].max(p[i].f());
        }
    }
    fn join(&mut self, o: &Sub<D>) {
        self.n += o.n;
        self.depth = self.depth.max(o.depth + 1);
        for i in 0..D {
            self.lo[i] = self.lo[i].min(o.lo[i]);
            self.hi[i] = self.hi[i].max(o.hi[i]);
        }
    }
}
fn walk<T: Fl, const D: usize>(
    t: &Tree<T, D>,
    at: usize,
    data: &[[T; D]],
    leaf: usize,
    seen: &mut [bool],
    visits: &mut usize,
) -> Result<Sub<D>, String> {
    *visits += 1;
    if *visits > t.nodes.len() {
        return Err("the nodes do not form a tree".into());
    }
    let mut mark = |p: &Point<T, D>, s: &mut Sub<D>| -> Result<usize, String> {
        let i = index_of(p, data)?;
        if seen[i] {
            return Err(format!("point {i} is stored twice"));
        }
        seen[i] = true;
        s.add(&data[i]);
        Ok(i)
    };
    let mut s = Sub { n: 0, lo: [f64::INFINITY; D], hi: [f64::NEG_INFINITY; D], depth: 0 };
    let Some(node) = t.nodes.get(at) else { return Err(format!("child index {at} outside the nodes")) };
    let (lower, upper) = match node {
        Node::Leaf { points, lower, upper } => {
            if points.len() > leaf {
                return Err(format!("a leaf holds {} points", points.len()));
            }
            for p in points {
                mark(p, &mut s)?;
            }
            (lower, upper)
        }
        Node::Stem { split_dim, point, left, right, lower, upper } => {
            let i = mark(point, &mut s)?;
            drop(mark);
            let l = walk(t, *left, data, leaf, seen, visits)?;
            let r = walk(t, *right, data, leaf, seen, visits)?;
            if *split_dim >= D {
                return Err(format!("split dimension {split_dim}"));
            }
            let v = data[i][*split_dim].f();
            if l.n > 0 && l.hi[*split_dim] > v || r.n > 0 && r.lo[*split_dim] < v {
                return Err(format!("subtrees of node {at} do not lie on opposite sides of {v} in dimension {split_dim}"));
            }
            if balanced(data.len()) && l.n.abs_diff(r.n) > 1 {
                return Err(format!("node {at} splits into {} and {}", l.n, r.n));
            }
            s.join(&l);
            s.join(&r);
            (lower, upper)
        }
    };
    for a in 0..D {
        if s.n > 0 && (lower[a].into_inner().f() > s.lo[a] || upper[a].into_inner().f() < s.hi[a]) {
            return Err(format!(
                "bounds {lower:?} {upper:?} of node {at} do not contain its points, {:?} to {:?}",
                s.lo, s.hi
            ));
        }
    }
    Ok(s)
}
/// Check the structure; the depth below the root is returned.
pub fn structure<T: Fl, const D: usize>(t: &Tree<T, D>, data: &[[T; D]], leaf: usize) -> Result<usize, String> {
    let n = data.len();
    if t.size() != t.nodes.len() + 1 {
        return Err(format!("size() = {} with {} nodes below the root", t.size(), t.nodes.len()));
    }
    if t.nodes.is_empty() {
        // the root is a leaf
        return if n <= leaf { Ok(0) } else { Err(format!("a single leaf for {n} points")) };
    }
    let mut referenced = vec![0usize; t.nodes.len()];
    for node in &t.nodes {
        if let Node::Stem { left, right, .. } = node {
            for c in [*left, *right] {
                match referenced.get_mut(c) {
                    Some(r) => *r += 1,
                    None => return Err(format!("child index {c} outside the nodes")),
                }
            }
        }
    }
    if referenced.iter().any(|r| *r > 1) {
        return Err("a node has two parents".into());
    }
    let top: Vec<usize> = (0..referenced.len()).filter(|i| referenced[*i] == 0).collect();
    if top.len() != 2 {
        return Err(format!("{} nodes without a parent below the root", top.len()));
    }
    let mut seen = vec![false; n];
    let mut visits = 0;
    let a = walk(t, top[0], data, leaf, &mut seen, &mut visits)?;
    let b = walk(t, top[1], data, leaf, &mut seen, &mut visits)?;
    if visits != t.nodes.len() {
        return Err("nodes outside the tree".into());
    }
    let missing: Vec<usize> = (0..n).filter(|i| !seen[*i]).collect();
    if missing.len() != 1 {
        return Err(format!("{} points are missing (the root holds one): {:?}", missing.len(), &missing[..missing.len().min(5)]));
    }
    let root = &data[missing[0]];
    let side = |l: &Sub<D>, r: &Sub<D>, i: usize| (l.n == 0 || l.hi[i] <= root[i].f()) && (r.n == 0 || r.lo[i] >= root[i].f());
    if !(0..D).any(|i| side(&a, &b, i) || side(&b, &a, i)) {
        return Err("subtrees of the root do not lie on opposite sides of its point".into());
    }
    if balanced(n) && a.n.abs_diff(b.n) > 1 {
        return Err(format!("the root splits into {} and {}", a.n, b.n));
    }
    let depth = 1 + a.depth.max(b.depth);
    // the approximate median leaves at least about a quarter on either side
    let log = (n as f64).log2();
    let most = if balanced(n) { log as usize + 2 } else { (2.5 * log) as usize + 10 };
    if depth > most {
        return Err(format!("depth {depth} for {n} points"));
    }
    Ok(depth)
}
/// Below the threshold of the approximate median splits are exact.
fn balanced(n: usize) -> bool {
    n < 100_000
}
