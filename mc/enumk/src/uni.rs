//! The universes of data sets shared by the checks, and the plan (tree
//! configurations, k, queries) each class of universe is visited with.
use crate::data::*;
use crate::engine::*;
use crate::num::*;

/// How much can be afforded per data set.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Class {
    /// tiny data sets: every configuration
    S,
    /// small data sets: edge configurations
    M,
    /// many or larger data sets: a few telling configurations
    L,
    /// large data sets
    X,
}

pub trait Visit: Copy + 'static {
    fn go<T: Fl, const D: usize>(self, ds: &Ds<D>, class: Class, cx: &mut Cx);
}

pub fn push<V: Visit, T: Fl, const D: usize>(
    out: &mut Vec<Box<dyn Family>>,
    v: V,
    what: &str,
    class: Class,
    tf: Tf,
    g: [i64; D],
    (count, f): (u64, impl Fn(u64) -> Vec<[i64; D]> + 'static),
) {
    let name = format!("{D}-D {} {what} {:?} {} [{class:?}]", T::NAME, g, tf.name);
    out.push(fam(name, count, move |i, cx| v.go::<T, D>(&tf.ds(&g, f(i)), class, cx)));
}

/// (number of points) x (pattern), data decoded from the index.
pub fn patterns<V: Visit, T: Fl, const D: usize>(
    out: &mut Vec<Box<dyn Family>>,
    v: V,
    what: &str,
    class: Class,
    tf: Tf,
    ns: Vec<usize>,
) {
    let np = PATTERNS.len() as u64;
    let count = ns.len() as u64 * np;
    let name = format!("{D}-D {} patterns {what} {} [{class:?}]", T::NAME, tf.name);
    out.push(fam(name, count, move |i, cx| {
        let ds = pattern_ds::<D>((i % np) as usize, ns[(i / np) as usize], &tf);
        v.go::<T, D>(&ds, class, cx)
    }));
}

#[derive(Clone, Copy, PartialEq)]
pub struct Scope {
    pub thorough: bool,
    /// data and boxes for periodic trees: no negative coordinates
    pub nonneg: bool,
    /// 0: everything; 1: light (for the additional feature selections)
    pub light: bool,
}

pub fn universe<V: Visit>(v: V, s: Scope) -> Vec<Box<dyn Family>> {
    use Class::*;
    let mut o = vec![];
    let t = s.thorough;
    let cen = if s.nonneg { FAR } else { CENTRED };
    let neg = if s.nonneg { OFF } else { FARNEG };
    let tiny = if s.nonneg { TINYPOS } else { TINY };
    if s.light {
        push::<V, f64, 1>(&mut o, v, "sequences<=4", S, cen, [4], sequences([4], 1, 4));
        push::<V, f64, 2>(&mut o, v, "subsets", M, ANISO, [3, 3], subsets([3, 3], 1));
        push::<V, f32, 2>(&mut o, v, "sequences<=3", S, ISO, [2, 2], sequences([2, 2], 1, 3));
        push::<V, f32, 3>(&mut o, v, "subsets", M, neg, [2, 2, 2], subsets([2, 2, 2], 2));
        for (a, b) in [(MIN64, MIN32), (MAX64, MAX32)] {
            push::<V, f64, 2>(&mut o, v, "subsets", M, a, [2, 2], subsets([2, 2], 1));
            push::<V, f32, 2>(&mut o, v, "subsets", M, b, [2, 2], subsets([2, 2], 1));
        }
        patterns::<V, f64, 2>(&mut o, v, "n<=40", L, ISO, (1..=40).collect());
        patterns::<V, f32, 3>(&mut o, v, "n<=40", L, ANISO, (1..=40).collect());
        patterns::<V, f64, 3>(&mut o, v, "large", X, ANISO, vec![300, 1025]);
        return o;
    }
    // one dimension: every sequence
    push::<V, f64, 1>(&mut o, v, "sequences<=6", S, ISO, [4], sequences([4], 1, if t { 7 } else { 6 }));
    push::<V, f32, 1>(&mut o, v, "sequences<=5", S, cen, [5], sequences([5], 1, 5));
    // two dimensions
    push::<V, f64, 2>(&mut o, v, "subsets", S, ANISO, [3, 3], subsets([3, 3], 3));
    push::<V, f32, 2>(&mut o, v, "subsets", S, cen, [3, 3], subsets([3, 3], 3));
    for tf in [FAR, neg, tiny, HUGE] {
        push::<V, f64, 2>(&mut o, v, "subsets", M, tf, [3, 3], subsets([3, 3], 1));
    }
    push::<V, f64, 2>(&mut o, v, "subsets", M, if s.nonneg { VFARPOS } else { VFAR64 }, [3, 3], subsets([3, 3], 1));
    push::<V, f32, 2>(&mut o, v, "subsets", M, VFAR32, [3, 3], subsets([3, 3], 1));
    for (a, b) in [(MIN64, MIN32), (MAX64, MAX32)] {
        push::<V, f64, 2>(&mut o, v, "subsets", M, a, [3, 3], subsets([3, 3], 1));
        push::<V, f32, 3>(&mut o, v, "subsets", M, b, [2, 2, 2], subsets([2, 2, 2], 1));
    }
    push::<V, f64, 2>(&mut o, v, "sequences<=5", S, ISO, [2, 2], sequences([2, 2], 1, if t { 6 } else { 5 }));
    push::<V, f64, 2>(&mut o, v, "sequences<=4", M, cen, [3, 3], sequences([3, 3], 1, if t { 5 } else { 4 }));
    push::<V, f64, 2>(&mut o, v, "subsets", if t { M } else { L }, ISO, [4, 4], subsets([4, 4], if t { 2 } else { 1 }));
    // three
    push::<V, f64, 3>(&mut o, v, "subsets", S, cen, [2, 2, 2], subsets([2, 2, 2], 3));
    push::<V, f32, 3>(&mut o, v, "subsets", M, neg, [2, 2, 2], subsets([2, 2, 2], 3));
    push::<V, f64, 3>(&mut o, v, "subsets", if t { M } else { L }, ANISO, [3, 2, 2], subsets([3, 2, 2], if t { 2 } else { 1 }));
    push::<V, f64, 3>(&mut o, v, "sequences<=3", M, ISO, [2, 2, 2], sequences([2, 2, 2], 1, if t { 4 } else { 3 }));
    if t {
        push::<V, f64, 3>(&mut o, v, "subsets", L, ISO, [3, 3, 2], subsets([3, 3, 2], 1));
        push::<V, f32, 3>(&mut o, v, "subsets<=5", L, ANISO, [3, 3, 3], small_subsets([3, 3, 3], 5));
    }
    // more
    push::<V, f64, 4>(&mut o, v, "subsets", L, cen, [2, 2, 2, 2], small_subsets([2, 2, 2, 2], if t { 16 } else { 6 }));
    push::<V, f64, 5>(&mut o, v, "subsets<=", L, ISO, [2; 5], small_subsets([2; 5], if t { 4 } else { 3 }));
    push::<V, f32, 6>(&mut o, v, "subsets<=", L, ANISO, [2; 6], small_subsets([2; 6], if t { 3 } else { 2 }));
    // shapes: every number of points up to 64 (thorough 140) in every pattern
    let shapes: Vec<usize> = (1..=if t { 140 } else { 64 }).collect();
    patterns::<V, f64, 1>(&mut o, v, "shapes", L, ISO, shapes.clone());
    patterns::<V, f64, 2>(&mut o, v, "shapes", L, cen, shapes.clone());
    patterns::<V, f32, 3>(&mut o, v, "shapes", L, ANISO, shapes.clone());
    patterns::<V, f64, 4>(&mut o, v, "shapes", L, ISO, shapes.clone());
    let n8 = if s.nonneg && !t { vec![1, 2, 3, 5, 9, 17, 33] } else { (1..=40).collect() };
    patterns::<V, f64, 8>(&mut o, v, "shapes", X, ISO, n8);
    // sizes around powers of two, and larger
    let mut big = vec![65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1024, 1025, 2047, 4097];
    if t {
        big.extend([5000, 8192, 10001, 20000]);
    }
    patterns::<V, f64, 2>(&mut o, v, "large", X, ISO, big.clone());
    patterns::<V, f64, 3>(&mut o, v, "large", X, cen, big.clone());
    patterns::<V, f32, 1>(&mut o, v, "large", X, ISO, vec![129, 1025]);
    patterns::<V, f32, 5>(&mut o, v, "large", X, ANISO, vec![100, 513]);
    o
}
