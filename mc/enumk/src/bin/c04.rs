//! C04: query_nearest_k under a box.
use enumk::{data::*, engine::*, num::*, probe::*, uni::*};
#[derive(Clone, Copy)]
struct V(bool);
const SER: &[Build] = &[Build::Serial];
const BOTH: &[Build] = &[Build::Serial, Build::Par(1)];
impl Visit for V {
    fn go<T: Fl, const D: usize>(self, ds: &Ds<D>, c: Class, cx: &mut Cx) {
        let p = PerPlan { leafs: Leafs::List(&[1, 0, 3]), builds: BOTH, ks: Ks::All, extra: &[0, 1, 5], all_boxes: true, fine: D <= 2, sparse: 0 };
        let p = match c {
            Class::S if D <= 2 => PerPlan { fine: D == 1 || T::EPS < 1e-10, ..p },
            Class::S => PerPlan { leafs: Leafs::List(&[1, 3]), extra: &[0, 5], ks: Ks::Edges, ..p },
            Class::M => PerPlan { leafs: Leafs::List(&[1, 4]), ks: Ks::Edges, extra: &[0, 3], all_boxes: true, fine: false, sparse: if D > 2 { 12 } else { 0 }, ..p },
            Class::L => PerPlan { leafs: Leafs::List(&[1]), ks: Ks::List(&[1, 3, 99]), extra: &[0, 5], all_boxes: false, fine: false, sparse: if D > 1 { 8 } else { 0 }, ..p },
            Class::X => PerPlan { leafs: Leafs::List(&[1, 16]), ks: Ks::List(&[1, 3, 20]), extra: &[0, 1, 40], all_boxes: false, fine: false, sparse: 10, ..p },
        };
        probe_per_knn::<T, D>(ds, &p, cx)
    }
}
fn main() {
    enumk::engine::main(|p, t| universe(V(t), Scope { thorough: t, nonneg: true, light: p != "C04" }))
}
