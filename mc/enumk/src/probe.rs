//! Probes: build trees over a data set in every listed configuration, run
//! operations of the real crate and judge every answer.
use crate::data::*;
use crate::engine::*;
use crate::num::*;
use crate::oracle::*;
use fnntw::Tree;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Build {
    Serial,
    Par(usize),
}

pub fn build<'a, T: Fl, const D: usize>(data: &'a [[T; D]], leaf: usize, b: Build) -> Result<Tree<'a, T, D>, String> {
    match b {
        Build::Serial => Tree::new(data, leaf),
        Build::Par(l) => Tree::new_parallel(data, leaf, l),
    }
    .map_err(|e| format!("valid data refused: {e}"))
}

/// query_nearest, with the position (if any) checked against the data.
pub fn nn<'a, T: Fl, const D: usize>(t: &Tree<'a, T, D>, data: &[[T; D]], q: &[T; D]) -> Result<(T, u64), String> {
    let _ = data;
    let r = t.query_nearest(q).map_err(|e| format!("valid query refused: {e}"))?;
    #[cfg(not(feature = "no-position"))]
    position(data, r.1, r.2)?;
    Ok((r.0, r.1))
}
#[cfg(not(feature = "no-position"))]
fn position<T: Fl, const D: usize>(data: &[[T; D]], idx: u64, pos: &[fnntw::NotNan<T>; D]) -> Result<(), String> {
    let Some(p) = data.get(idx as usize) else {
        return Err(format!("index {idx} outside the data (n = {})", data.len()));
    };
    for i in 0..D {
        if p[i].bits() != pos[i].into_inner().bits() {
            return Err(format!("position {pos:?} is not that of point {idx}: {p:?}"));
        }
    }
    Ok(())
}
/// query_nearest_k, with the positions (if any) checked against the data.
pub fn knn<'a, T: Fl, const D: usize>(
    t: &Tree<'a, T, D>,
    data: &[[T; D]],
    q: &[T; D],
    k: usize,
) -> Result<(Vec<T>, Vec<u64>), String> {
    let _ = data;
    let r = t.query_nearest_k(q, k).map_err(|e| format!("valid query refused: {e}"))?;
    #[cfg(not(feature = "no-position"))]
    {
        if r.2.len() != r.1.len() {
            return Err(format!("{} positions for {} indices", r.2.len(), r.1.len()));
        }
        for (i, p) in r.1.iter().zip(&r.2) {
            position(data, *i, p)?;
        }
    }
    Ok((r.0, r.1))
}

pub fn show<T: Fl, const D: usize>(data: &[[T; D]]) -> String {
    if data.len() <= 40 {
        format!("data {:?}", data)
    } else {
        format!("n = {} data {:?}...", data.len(), &data[..8])
    }
}

#[derive(Clone)]
pub enum Leafs {
    /// 0, 1, 2, n-1, n
    Edges,
    /// 0..=n+1
    All,
    List(&'static [usize]),
}
impl Leafs {
    pub fn of(&self, n: usize) -> Vec<usize> {
        let mut v = match self {
            Leafs::Edges => vec![1, 2, 0, n.saturating_sub(1), n],
            Leafs::All => (0..=n + 1).collect(),
            Leafs::List(l) => l.to_vec(),
        };
        let mut s = std::collections::BTreeSet::new();
        v.retain(|x| s.insert(*x));
        v
    }
}
#[derive(Clone)]
pub enum Ks {
    /// 0..=n+1
    All,
    /// 1, 2, n/2, n-1, n, n+3
    Edges,
    List(&'static [usize]),
}
impl Ks {
    pub fn of(&self, n: usize) -> Vec<usize> {
        let mut v = match self {
            Ks::All => (0..=n + 1).collect(),
            Ks::Edges => vec![1, 2, n / 2, n.saturating_sub(1), n, n + 3],
            Ks::List(l) => l.to_vec(),
        };
        let mut s = std::collections::BTreeSet::new();
        v.retain(|x| s.insert(*x));
        v
    }
}
#[derive(Clone)]
pub enum Qs {
    Fine,
    Coarse,
    Sparse(usize),
    /// Fine when that is a few hundred queries, otherwise sparse
    Fine2,
}
impl Qs {
    pub fn of<const D: usize>(&self, d: &Ds<D>) -> Vec<IPt<D>> {
        match self {
            Qs::Fine => lattice_queries(d, true),
            Qs::Coarse => lattice_queries(d, false),
            Qs::Sparse(m) => sparse_queries(d, *m),
            Qs::Fine2 => {
                let n: i64 = (0..D).map(|i| (d.hi[i] - d.lo[i]) / d.half[i] + 5).product();
                if n <= 400 { lattice_queries(d, true) } else { sparse_queries(d, 24) }
            }
        }
    }
}
#[derive(Clone)]
pub struct Plan {
    pub leafs: Leafs,
    pub builds: &'static [Build],
    pub ks: Ks,
    pub qs: Qs,
}

struct Built<'a, T: Fl, const D: usize> {
    leaf: usize,
    build: Build,
    tree: Tree<'a, T, D>,
}
fn trees<'a, T: Fl, const D: usize>(data: &'a [[T; D]], plan: &Plan, cx: &mut Cx) -> Vec<Built<'a, T, D>> {
    let mut v = vec![];
    for leaf in plan.leafs.of(data.len()) {
        for &b in plan.builds {
            match build(data, leaf, b) {
                Ok(tree) => {
                    cx.states += 1;
                    v.push(Built { leaf, build: b, tree })
                }
                Err(e) => cx.fail(|| format!("{e}; leafsize {leaf}, {b:?}, {}", show(data))),
            }
        }
    }
    v
}

/// C01
pub fn probe_nn<T: Fl, const D: usize>(ds: &Ds<D>, plan: &Plan, cx: &mut Cx) {
    let data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
    let ts = trees(&data, plan, cx);
    let mut dist = vec![];
    for q in plan.qs.of(ds) {
        dist.clear();
        dist.extend(ds.pts.iter().map(|p| d2(p, &q)));
        let qf = ds.unit.pt::<T, D>(&q);
        for b in &ts {
            let r = nn(&b.tree, &data, &qf).and_then(|(d, i)| {
                cx.mix(d.bits());
                cx.mix(i);
                cx.sample(|| format!("leafsize {} {:?} query_nearest({qf:?}) = ({d:?}, {i}); {}", b.leaf, b.build, show(&data)));
                check_nn(d, i, &dist, ds.unit, D)
            });
            cx.op();
            if let Err(e) = r {
                cx.fail(|| format!("query_nearest({qf:?}): {e}; leafsize {}, {:?}, {}", b.leaf, b.build, show(&data)));
                return;
            }
        }
    }
}

/// C02
pub fn probe_knn<T: Fl, const D: usize>(ds: &Ds<D>, plan: &Plan, cx: &mut Cx) {
    let data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
    let ts = trees(&data, plan, cx);
    let ks = plan.ks.of(data.len());
    let (mut dist, mut sorted, mut seen) = (vec![], vec![], vec![]);
    for q in plan.qs.of(ds) {
        dist.clear();
        dist.extend(ds.pts.iter().map(|p| d2(p, &q)));
        sorted.clone_from(&dist);
        sorted.sort_unstable();
        let qf = ds.unit.pt::<T, D>(&q);
        for b in &ts {
            for &k in &ks {
                let r = knn(&b.tree, &data, &qf, k).and_then(|(d, i)| {
                    for x in &i {
                        cx.mix(*x + 1);
                    }
                    cx.sample(|| format!("leafsize {} {:?} query_nearest_k({qf:?}, {k}) = ({d:?}, {i:?}); {}", b.leaf, b.build, show(&data)));
                    check_knn(&d, &i, &dist, &sorted, k, ds.unit, D, &mut seen)
                });
                cx.op();
                if let Err(e) = r {
                    cx.fail(|| {
                        format!("query_nearest_k({qf:?}, {k}): {e}; leafsize {}, {:?}, {}", b.leaf, b.build, show(&data))
                    });
                    return;
                }
            }
        }
    }
}

/// Box lengths (lattice units) that enclose the data: per axis the extent plus
/// each of `extra`; `all` combines the axes freely, otherwise in lockstep.
pub fn boxes<const D: usize>(ds: &Ds<D>, extra: &[i64], all: bool) -> Vec<IPt<D>> {
    let axes: Vec<Vec<i64>> = (0..D).map(|i| extra.iter().map(|e| (ds.hi[i] + e * ds.half[i]).max(1)).collect()).collect();
    if all {
        product(&axes)
    } else {
        let mut v: Vec<IPt<D>> = (0..extra.len()).map(|k| std::array::from_fn(|i| axes[i][k])).collect();
        // and one where every axis differs
        v.push(std::array::from_fn(|i| axes[i][i % extra.len()]));
        v.dedup();
        v
    }
}
/// Queries inside the closed box: half steps over the data, around the faces
/// and around the middle, where the choice of image changes.
pub fn box_queries<const D: usize>(ds: &Ds<D>, l: &IPt<D>, fine: bool) -> Vec<IPt<D>> {
    let axes: Vec<Vec<i64>> = (0..D)
        .map(|i| {
            let (h, l) = (ds.half[i], l[i]);
            let mut v = vec![0, l, h, l - h, l / 2, (l + 1) / 2];
            if fine {
                v.extend([2 * h, l - 2 * h, l / 2 - 1, l / 2 + 1]);
                let mut x = ds.lo[i] - h;
                while x <= ds.hi[i] + h {
                    v.push(x);
                    x += h;
                }
            }
            v.retain(|x| (0..=l).contains(x));
            v.sort();
            v.dedup();
            v
        })
        .collect();
    product(&axes)
}
pub fn box_queries_sparse<const D: usize>(ds: &Ds<D>, l: &IPt<D>, max: usize) -> Vec<IPt<D>> {
    let mut v: Vec<IPt<D>> = sparse_queries(ds, max)
        .into_iter()
        .map(|q| std::array::from_fn(|i| q[i].clamp(0, l[i])))
        .collect();
    for m in 0..1usize << D.min(6) {
        v.push(std::array::from_fn(|i| if m >> (i % 6) & 1 == 1 { l[i] } else { 0 }));
        v.push(std::array::from_fn(|i| if m >> (i % 6) & 1 == 1 { l[i] - l[i] / 7 } else { l[i] / 9 }));
    }
    v
}
#[derive(Clone)]
pub struct PerPlan {
    pub leafs: Leafs,
    pub builds: &'static [Build],
    pub ks: Ks,
    pub extra: &'static [i64],
    pub all_boxes: bool,
    /// fine queries (otherwise faces and middle only)
    pub fine: bool,
    /// > 0: sparse queries
    pub sparse: usize,
}
impl PerPlan {
    fn plan(&self) -> Plan {
        Plan {
            leafs: self.leafs.clone(),
            builds: self.builds,
            ks: self.ks.clone(),
            qs: Qs::Coarse,
        }
    }
    fn queries<const D: usize>(&self, ds: &Ds<D>, l: &IPt<D>) -> Vec<IPt<D>> {
        if self.sparse > 0 {
            box_queries_sparse(ds, l, self.sparse)
        } else {
            box_queries(ds, l, self.fine)
        }
    }
}
fn boxed<'a, T: Fl, const D: usize>(
    data: &'a [[T; D]],
    plan: &PerPlan,
    l: &IPt<D>,
    u: Unit,
    cx: &mut Cx,
) -> Vec<Built<'a, T, D>> {
    let lf: [T; D] = u.pt(l);
    let mut v = vec![];
    for b in trees(data, &plan.plan(), cx) {
        match b.tree.with_boxsize(&lf) {
            Ok(tree) => v.push(Built { tree, ..b }),
            Err(e) => cx.fail(|| format!("box {lf:?} refused: {e}; {}", show(data))),
        }
    }
    v
}

/// C03
pub fn probe_per_nn<T: Fl, const D: usize>(ds: &Ds<D>, plan: &PerPlan, cx: &mut Cx) {
    let data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
    let mut dist = vec![];
    for l in boxes(ds, plan.extra, plan.all_boxes) {
        let ts = boxed(&data, plan, &l, ds.unit, cx);
        for q in plan.queries(ds, &l) {
            dist.clear();
            dist.extend(ds.pts.iter().map(|p| d2per(p, &q, &l)));
            let qf = ds.unit.pt::<T, D>(&q);
            for b in &ts {
                let r = nn(&b.tree, &data, &qf).and_then(|(d, i)| {
                    cx.mix(d.bits());
                    cx.mix(i);
                    cx.sample(|| format!("box {:?} leafsize {} {:?} query_nearest({qf:?}) = ({d:?}, {i}); {}", ds.unit.pt::<T, D>(&l), b.leaf, b.build, show(&data)));
                    check_nn(d, i, &dist, ds.unit, D)
                });
                cx.op();
                if let Err(e) = r {
                    cx.fail(|| {
                        format!(
                            "periodic query_nearest({qf:?}), box {:?}: {e}; leafsize {}, {:?}, {}",
                            ds.unit.pt::<T, D>(&l), b.leaf, b.build, show(&data)
                        )
                    });
                    return;
                }
            }
        }
    }
}

/// C04
pub fn probe_per_knn<T: Fl, const D: usize>(ds: &Ds<D>, plan: &PerPlan, cx: &mut Cx) {
    let data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
    let mut used = vec![];
    let ks = plan.ks.of(data.len());
    for l in boxes(ds, plan.extra, plan.all_boxes) {
        let ts = boxed(&data, plan, &l, ds.unit, cx);
        for q in plan.queries(ds, &l) {
            let ps: Vec<Pairs> = image_sets(&q, &l).iter().map(|im| pairs(&ds.pts, im)).collect();
            let qf = ds.unit.pt::<T, D>(&q);
            for b in &ts {
                for &k in &ks {
                    let r = knn(&b.tree, &data, &qf, k).and_then(|(d, i)| {
                        for x in &i {
                            cx.mix(*x + 1);
                        }
                        cx.sample(|| format!("box {:?} leafsize {} {:?} query_nearest_k({qf:?}, {k}) = ({d:?}, {i:?}); {}", ds.unit.pt::<T, D>(&l), b.leaf, b.build, show(&data)));
                        any_of(ps.iter().map(|p| check_knn_pairs(&d, &i, p, k, ds.unit, D, &mut used)))
                    });
                    cx.op();
                    if let Err(e) = r {
                        cx.fail(|| {
                            format!(
                                "periodic query_nearest_k({qf:?}, {k}), box {:?}: {e}; leafsize {}, {:?}, {}",
                                ds.unit.pt::<T, D>(&l), b.leaf, b.build, show(&data)
                            )
                        });
                        return;
                    }
                }
            }
        }
    }
}
/// Ok if one alternative is Ok, otherwise the first error.
pub fn any_of(it: impl Iterator<Item = Result<(), String>>) -> Result<(), String> {
    let mut first = None;
    for r in it {
        match r {
            Ok(()) => return Ok(()),
            Err(e) => first = first.or(Some(e)),
        }
    }
    Err(first.unwrap_or_default())
}

#[cfg(all(feature = "parallel", feature = "no-position"))]
pub use batch::*;
#[cfg(all(feature = "parallel", feature = "no-position"))]
mod batch {
    use super::*;

    /// C05: both batch calls, rows judged one by one. `boxed`: periodic.
    pub fn probe_batch<T: Fl, const D: usize>(ds: &Ds<D>, plan: &PerPlan, periodic: bool, with: bool, cx: &mut Cx) {
        let data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
        let n = data.len();
        let ks = plan.ks.of(n);
        let ls: Vec<Option<IPt<D>>> = if periodic {
            boxes(ds, plan.extra, plan.all_boxes).into_iter().map(Some).collect()
        } else {
            vec![None]
        };
        let mut used = vec![];
        for l in ls {
            let (ts, qs) = match &l {
                Some(l) => (boxed(&data, plan, l, ds.unit, cx), plan.queries(ds, l)),
                None => (
                    trees(&data, &plan.plan(), cx),
                    if plan.sparse > 0 { sparse_queries(ds, plan.sparse) } else { lattice_queries(ds, plan.fine) },
                ),
            };
            let ps: Vec<Vec<Pairs>> = qs
                .iter()
                .map(|q| match &l {
                    Some(l) => image_sets(q, l).iter().map(|im| pairs(&ds.pts, im)).collect(),
                    None => vec![pairs(&ds.pts, &[*q])],
                })
                .collect();
            let qf: Vec<[T; D]> = qs.iter().map(|q| ds.unit.pt(q)).collect();
            for b in &ts {
                for &k in &ks {
                    {
                        let r = if with {
                            b.tree.query_nearest_k_parallel_with(&qf, k)
                        } else {
                            b.tree.query_nearest_k_parallel(&qf, k)
                        };
                        let r = r.map_err(|e| format!("valid batch refused: {e}")).and_then(|(d, i)| {
                            cx.sample(|| format!(
                                "query_nearest_k_parallel{}({qf:?}, {k}), box {:?}, leafsize {}: {} rows; {}",
                                if with { "_with" } else { "" }, l.map(|l| ds.unit.pt::<T, D>(&l)), b.leaf, qf.len(), show(&data)
                            ));
                            rows(&d, &i, &ps, n, k, ds.unit, D, &mut used, cx)
                        });
                        if let Err(e) = r {
                            cx.fail(|| {
                                format!(
                                    "query_nearest_k_parallel{}({} queries, {k}), box {:?}: {e}; leafsize {}, {:?}, {}",
                                    if with { "_with" } else { "" }, qf.len(),
                                    l.map(|l| ds.unit.pt::<T, D>(&l)), b.leaf, b.build, show(&data)
                                )
                            });
                            return;
                        }
                    }
                }
            }
        }
    }
    pub fn rows<T: Fl>(
        d: &[T],
        i: &[u64],
        ps: &[Vec<Pairs>],
        n: usize,
        k: usize,
        u: Unit,
        dim: usize,
        used: &mut Vec<bool>,
        cx: &mut Cx,
    ) -> Result<(), String> {
        let w = k.min(n);
        if d.len() != w * ps.len() || i.len() != w * ps.len() {
            return Err(format!("{} distances, {} indices for {} rows of {w}", d.len(), i.len(), ps.len()));
        }
        for (r, p) in ps.iter().enumerate() {
            let (rd, ri) = (&d[r * w..(r + 1) * w], &i[r * w..(r + 1) * w]);
            for x in ri {
                cx.mix(*x + 1);
            }
            cx.op();
            any_of(p.iter().map(|p| check_knn_pairs(rd, ri, p, k, u, dim, used))).map_err(|e| format!("row {r}: {e}"))?;
        }
        Ok(())
    }

    /// C06
    pub fn probe_axis<T: Fl, const D: usize>(ds: &Ds<D>, plan: &PerPlan, periodic: bool, cx: &mut Cx) {
        let data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
        let n = data.len();
        let ks = plan.ks.of(n);
        let ls: Vec<Option<IPt<D>>> = if periodic {
            boxes(ds, plan.extra, plan.all_boxes).into_iter().map(Some).collect()
        } else {
            vec![None]
        };
        let mut used = vec![];
        for l in ls {
            let (ts, qs) = match &l {
                Some(l) => (boxed(&data, plan, l, ds.unit, cx), plan.queries(ds, l)),
                None => (
                    trees(&data, &plan.plan(), cx),
                    if plan.sparse > 0 { sparse_queries(ds, plan.sparse) } else { lattice_queries(ds, plan.fine) },
                ),
            };
            let qf: Vec<[T; D]> = qs.iter().map(|q| ds.unit.pt(q)).collect();
            for axis in 0..D {
                let ps: Vec<Vec<AxPairs>> = qs
                    .iter()
                    .map(|q| match &l {
                        Some(l) => image_sets(q, l).iter().map(|im| ax_pairs(&ds.pts, im, axis)).collect(),
                        None => vec![ax_pairs(&ds.pts, &[*q], axis)],
                    })
                    .collect();
                for b in &ts {
                    for &k in &ks {
                        let r = axis_rows(b, &qf, &ps, n, k, axis, ds.unit, &mut used, cx);
                        if let Err(e) = r {
                            cx.fail(|| {
                                format!(
                                    "query_nearest_k_parallel_axis({} queries, {k}, {axis}), box {:?}: {e}; leafsize {}, {:?}, {}",
                                    qf.len(), l.map(|l| ds.unit.pt::<T, D>(&l)), b.leaf, b.build, show(&data)
                                )
                            });
                            return;
                        }
                    }
                }
            }
            // axes that do not exist
            for b in &ts {
                for axis in [D, D + 1, D + 64, usize::MAX] {
                    for k in [0, 1, n] {
                        for q in [&qf[..], &qf[..0]] {
                            cx.op();
                            match b.tree.query_nearest_k_parallel_axis(q, k, axis) {
                                Err(fnntw::utils::FnntwError::InvalidAxis) => {}
                                Err(e) => cx.fail(|| format!("axis {axis} of {D}: wrong error {e:?}")),
                                Ok(_) => cx.fail(|| format!("axis {axis} of {D} accepted")),
                            }
                        }
                    }
                }
            }
        }
    }
    fn axis_rows<T: Fl, const D: usize>(
        b: &Built<T, D>,
        qf: &[[T; D]],
        ps: &[Vec<AxPairs>],
        n: usize,
        k: usize,
        axis: usize,
        u: Unit,
        used: &mut Vec<bool>,
        cx: &mut Cx,
    ) -> Result<(), String> {
        let r = b
            .tree
            .query_nearest_k_parallel_axis(qf, k, axis)
            .map_err(|e| format!("valid batch refused: {e}"))?;
        let w = k.min(n);
        cx.sample(|| format!("query_nearest_k_parallel_axis({qf:?}, {k}, {axis}), leafsize {} = ({:?}, {:?})", b.leaf, r.0, r.1));
        #[cfg(not(feature = "no-index"))]
        let idx = Some(&r.2[..]);
        #[cfg(feature = "no-index")]
        let idx: Option<&[u64]> = None;
        let m = ps.len();
        if r.0.len() != w * m || r.1.len() != w * m || idx.map_or(false, |i| i.len() != w * m) {
            return Err(format!("{} / {} entries for {m} rows of {w}", r.0.len(), r.1.len()));
        }
        for (j, p) in ps.iter().enumerate() {
            let s = j * w..(j + 1) * w;
            for x in &r.0[s.clone()] {
                cx.mix(x.bits());
            }
            cx.op();
            any_of(p.iter().map(|p| {
                check_axis(&r.0[s.clone()], &r.1[s.clone()], idx.map(|i| &i[s.clone()]), p, k, u, D, used)
            }))
            .map_err(|e| format!("row {j}: {e}"))?;
        }
        Ok(())
    }
}
