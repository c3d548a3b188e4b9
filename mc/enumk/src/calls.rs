//! Every query method behind one interface, for the checks that compare
//! methods, histories and feature selections.
use crate::num::*;
use fnntw::Tree;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Call {
    Nn,
    Knn(usize),
    Batch(usize),
    With(usize),
    Axis(usize, usize),
}
impl Call {
    /// Does this feature selection have the method?
    pub fn exists(self) -> bool {
        match self {
            Call::Nn | Call::Knn(_) => true,
            _ => cfg!(all(feature = "parallel", feature = "no-position")),
        }
    }
    pub fn k(self) -> Option<usize> {
        match self {
            Call::Nn => None,
            Call::Knn(k) | Call::Batch(k) | Call::With(k) | Call::Axis(k, _) => Some(k),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ent<T> {
    /// reported distance (axis queries: not reported)
    pub d: Option<T>,
    /// (along the axis, the rest)
    pub ax: Option<(T, T)>,
    pub idx: Option<u64>,
    /// bits of the reported position
    pub pos: Option<Vec<u64>>,
}
/// One row per query.
pub type Rows<T> = Vec<Vec<Ent<T>>>;

/// Bits of an answer, for bitwise comparison.
pub fn bits<T: Fl>(r: &Rows<T>) -> Vec<u64> {
    let mut v = vec![r.len() as u64];
    for row in r {
        v.push(row.len() as u64);
        for e in row {
            v.push(e.d.map_or(1, |d| d.bits()));
            if let Some((a, b)) = e.ax {
                v.extend([a.bits(), b.bits()]);
            }
            v.push(e.idx.unwrap_or(1));
            v.extend(e.pos.iter().flatten());
        }
    }
    v
}

#[derive(Clone, Debug)]
pub enum Out<T> {
    Rows(Rows<T>),
    /// the error, as displayed
    Refused(String),
    /// an answer of the wrong shape
    Shape(String),
}

fn chunk<T>(v: Vec<Ent<T>>, m: usize, w: usize) -> Result<Rows<T>, String> {
    if v.len() != m * w {
        return Err(format!("{} entries for {m} rows of {w}", v.len()));
    }
    if w == 0 {
        return Ok((0..m).map(|_| vec![]).collect());
    }
    let mut out = Vec::with_capacity(m);
    let mut it = v.into_iter();
    for _ in 0..m {
        out.push(it.by_ref().take(w).collect());
    }
    Ok(out)
}

/// Run one method over the queries (one by one for the single-query methods).
pub fn call<T: Fl, const D: usize>(t: &Tree<T, D>, n: usize, qs: &[[T; D]], c: Call) -> Out<T> {
    match c {
        Call::Nn => {
            let mut rows = vec![];
            for q in qs {
                match t.query_nearest(q) {
                    Err(e) => return Out::Refused(e.to_string()),
                    Ok(r) => {
                        #[cfg(not(feature = "no-position"))]
                        let pos = Some(r.2.iter().map(|x| x.into_inner().bits()).collect());
                        #[cfg(feature = "no-position")]
                        let pos = None;
                        rows.push(vec![Ent { d: Some(r.0), ax: None, idx: Some(r.1), pos }])
                    }
                }
            }
            Out::Rows(rows)
        }
        Call::Knn(k) => {
            let mut rows = vec![];
            for q in qs {
                match t.query_nearest_k(q, k) {
                    Err(e) => return Out::Refused(e.to_string()),
                    Ok(r) => {
                        let w = k.min(n);
                        if r.0.len() != w || r.1.len() != w {
                            return Out::Shape(format!("{} distances and {} indices instead of {w}", r.0.len(), r.1.len()));
                        }
                        #[cfg(not(feature = "no-position"))]
                        if r.2.len() != w {
                            return Out::Shape(format!("{} positions instead of {w}", r.2.len()));
                        }
                        rows.push(
                            (0..w)
                                .map(|j| Ent {
                                    d: Some(r.0[j]),
                                    ax: None,
                                    idx: Some(r.1[j]),
                                    #[cfg(not(feature = "no-position"))]
                                    pos: Some(r.2[j].iter().map(|x| x.into_inner().bits()).collect()),
                                    #[cfg(feature = "no-position")]
                                    pos: None,
                                })
                                .collect(),
                        );
                    }
                }
            }
            Out::Rows(rows)
        }
        #[cfg(all(feature = "parallel", feature = "no-position"))]
        Call::Batch(k) | Call::With(k) => {
            let r = if matches!(c, Call::Batch(_)) { t.query_nearest_k_parallel(qs, k) } else { t.query_nearest_k_parallel_with(qs, k) };
            match r {
                Err(e) => Out::Refused(e.to_string()),
                Ok(r) => {
                    if r.0.len() != r.1.len() {
                        return Out::Shape(format!("{} distances and {} indices", r.0.len(), r.1.len()));
                    }
                    let v = r.0.iter().zip(&r.1).map(|(d, i)| Ent { d: Some(*d), ax: None, idx: Some(*i), pos: None }).collect();
                    chunk(v, qs.len(), k.min(n)).map_or_else(Out::Shape, Out::Rows)
                }
            }
        }
        #[cfg(all(feature = "parallel", feature = "no-position"))]
        Call::Axis(k, axis) => match t.query_nearest_k_parallel_axis(qs, k, axis) {
            Err(e) => Out::Refused(e.to_string()),
            Ok(r) => {
                if r.0.len() != r.1.len() {
                    return Out::Shape(format!("{} and {} distances", r.0.len(), r.1.len()));
                }
                #[cfg(not(feature = "no-index"))]
                if r.0.len() != r.2.len() {
                    return Out::Shape(format!("{} distances and {} indices", r.0.len(), r.2.len()));
                }
                let v = (0..r.0.len())
                    .map(|j| Ent {
                        d: None,
                        ax: Some((r.0[j], r.1[j])),
                        #[cfg(not(feature = "no-index"))]
                        idx: Some(r.2[j]),
                        #[cfg(feature = "no-index")]
                        idx: None,
                        pos: None,
                    })
                    .collect();
                chunk(v, qs.len(), k.min(n)).map_or_else(Out::Shape, Out::Rows)
            }
        },
        #[cfg(not(all(feature = "parallel", feature = "no-position")))]
        _ => panic!("not in this feature selection"),
    }
}
