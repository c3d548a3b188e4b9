//! C03: query_nearest under a box.
use enumk::{data::*, engine::*, num::*, probe::*, uni::*};
#[derive(Clone, Copy)]
struct V(bool);
const SER: &[Build] = &[Build::Serial];
const BOTH: &[Build] = &[Build::Serial, Build::Par(1)];
impl Visit for V {
    fn go<T: Fl, const D: usize>(self, ds: &Ds<D>, c: Class, cx: &mut Cx) {
        let p = PerPlan { leafs: Leafs::Edges, builds: BOTH, ks: Ks::All, extra: &[0, 1, 2, 7], all_boxes: true, fine: true, sparse: 0 };
        let p = match c {
            Class::S if D <= 2 => p,
            Class::S => PerPlan { leafs: Leafs::List(&[1, 0, 3]), extra: &[0, 5], fine: self.0, ..p },
            Class::M => PerPlan { leafs: Leafs::List(&[1, 0, 4]), extra: &[0, 3], all_boxes: true, fine: D <= 2, ..p },
            Class::L => PerPlan { leafs: Leafs::List(&[1, 3]), extra: &[0, 5], all_boxes: self.0, fine: false, sparse: if D > 2 { 30 } else { 0 }, ..p },
            Class::X => PerPlan { leafs: Leafs::List(&[1, 16, 33]), extra: &[0, 1, 40], all_boxes: false, fine: false, sparse: 100, ..p },
        };
        probe_per_nn::<T, D>(ds, &p, cx)
    }
}
fn main() {
    enumk::engine::main(|p, t| universe(V(t), Scope { thorough: t, nonneg: true, light: p != "C03" }))
}
