//! C02: query_nearest_k without a box.
use enumk::{data::*, engine::*, num::*, probe::*, uni::*};
#[derive(Clone, Copy)]
struct V;
/// every k up to n + 2 at one size with every pattern
#[derive(Clone, Copy)]
struct AllK;
const SER: &[Build] = &[Build::Serial];
const BOTH: &[Build] = &[Build::Serial, Build::Par(1)];
impl Visit for V {
    fn go<T: Fl, const D: usize>(self, ds: &Ds<D>, c: Class, cx: &mut Cx) {
        let p = match c {
            Class::S => Plan { leafs: Leafs::Edges, builds: BOTH, ks: Ks::All, qs: Qs::Fine2 },
            Class::M => Plan { leafs: Leafs::List(&[1, 0, 2]), builds: BOTH, ks: Ks::Edges, qs: Qs::Fine2 },
            Class::L => Plan { leafs: Leafs::List(&[1, 3]), builds: SER, ks: Ks::Edges, qs: if D <= 2 { Qs::Fine2 } else { Qs::Sparse(16) } },
            Class::X => Plan { leafs: Leafs::List(&[1, 7, 32]), builds: SER, ks: Ks::List(&[1, 2, 5, 20, 33, 100]), qs: Qs::Sparse(24) },
        };
        probe_knn::<T, D>(ds, &p, cx)
    }
}
impl Visit for AllK {
    fn go<T: Fl, const D: usize>(self, ds: &Ds<D>, _c: Class, cx: &mut Cx) {
        let p = Plan { leafs: Leafs::List(&[4]), builds: SER, ks: Ks::All, qs: Qs::Sparse(4) };
        probe_knn::<T, D>(ds, &p, cx)
    }
}
fn main() {
    enumk::engine::main(|p, t| {
        let s = Scope { thorough: t, nonneg: false, light: p != "C02" };
        let mut v = universe(V, s);
        if !s.light {
            let ns = if t { vec![65, 129, 150, 257, 300] } else { vec![65, 150] };
            patterns::<AllK, f64, 2>(&mut v, AllK, "every k", Class::X, ISO, ns);
        }
        v
    })
}
