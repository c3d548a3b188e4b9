//! Floats of the crate under test, driven from integer lattices.
pub trait Fl:
    fnntw::point::Float + Copy + PartialOrd + std::fmt::Debug + Send + Sync + 'static
{
    const NAME: &'static str;
    /// relative rounding allowance of a single operation
    const EPS: f64;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn bits(self) -> u64;
}
impl Fl for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    fn of(x: f64) -> Self {
        x
    }
    fn f(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}
impl Fl for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    fn of(x: f64) -> Self {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}

/// A lattice: float = int * 2^exp, always exact.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Unit {
    pub exp: i32,
}
impl Unit {
    pub fn get(&self) -> f64 {
        // exactly, without library functions
        match self.exp {
            e @ -1022..=1023 => f64::from_bits(((e + 1023) as u64) << 52),
            e => f64::from_bits(1u64 << (e + 1074)),
        }
    }
    pub fn to<T: Fl>(&self, v: i64) -> T {
        let x = v as f64 * self.get();
        let t = T::of(x);
        debug_assert!(t.f() == x, "lattice value not representable");
        t
    }
    pub fn pt<T: Fl, const D: usize>(&self, p: &[i64; D]) -> [T; D] {
        p.map(|v| self.to(v))
    }
}

pub const SQRT: bool = cfg!(feature = "sqrt-dist2");

/// Is the reported distance `got` (as the feature set reports it) the distance
/// whose exact square is `d2` lattice units?
pub fn dist_ok<T: Fl>(got: T, d2: i64, u: Unit, d: usize) -> bool {
    let g = got.f() / u.get();
    let g = if SQRT { g } else { g / u.get() };
    let e = if SQRT { (d2 as f64).sqrt() } else { d2 as f64 };
    close(g, e, d, T::EPS)
}
pub fn close(g: f64, e: f64, d: usize, eps: f64) -> bool {
    if e == 0.0 {
        return g == 0.0;
    }
    (g - e).abs() <= 2.0 * (d as f64 + 2.0) * eps * e
}
/// Two exact squared distances that rounding may not tell apart.
pub fn same<T: Fl>(a: i64, b: i64, d: usize) -> bool {
    a == b || close(a as f64, b as f64, d, 2.0 * T::EPS)
}
