//! C01: query_nearest without a box.
use enumk::{data::*, engine::*, num::*, probe::*, uni::*};
#[derive(Clone, Copy)]
struct V(bool);
const SER: &[Build] = &[Build::Serial];
const BOTH: &[Build] = &[Build::Serial, Build::Par(1)];
const ALL: &[Build] = &[Build::Serial, Build::Par(0), Build::Par(2)];
impl Visit for V {
    fn go<T: Fl, const D: usize>(self, ds: &Ds<D>, c: Class, cx: &mut Cx) {
        let p = match c {
            Class::S => Plan { leafs: Leafs::All, builds: BOTH, ks: Ks::All, qs: Qs::Fine },
            Class::M => Plan { leafs: Leafs::Edges, builds: BOTH, ks: Ks::All, qs: Qs::Fine },
            Class::L => Plan {
                leafs: Leafs::List(&[1, 0, 2, 3]),
                builds: SER,
                ks: Ks::All,
                qs: if D <= 3 { Qs::Fine2 } else if self.0 { Qs::Coarse } else { Qs::Sparse(40) },
            },
            Class::X => Plan { leafs: Leafs::List(&[1, 2, 7, 16, 32, 33]), builds: if D == 3 { ALL } else { SER }, ks: Ks::All, qs: Qs::Sparse(300) },
        };
        probe_nn::<T, D>(ds, &p, cx)
    }
}
fn main() {
    enumk::engine::main(|p, t| universe(V(t), Scope { thorough: t, nonneg: false, light: p != "C01" }))
}
