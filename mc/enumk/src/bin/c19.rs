//! C19: structure of the tree, read from its public nodes.
use enumk::{data::*, engine::*, num::*, probe::*, structure::*, uni::*};

#[derive(Clone, Copy)]
struct V;
impl Visit for V {
    fn go<T: Fl, const D: usize>(self, ds: &Ds<D>, c: Class, cx: &mut Cx) {
        let data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
        let n = data.len();
        let leafs = match c {
            Class::S | Class::M => (0..=n + 1).collect::<Vec<_>>(),
            Class::L if n <= 64 => vec![0, 1, 2, 3, 5, 8, n / 2, n.saturating_sub(1), n],
            _ => vec![0, 1, 2, 7, 16, 32, n / 3, n / 2, n - 1, n],
        };
        let builds: &[Build] = match c {
            Class::S | Class::M => &[Build::Serial, Build::Par(0), Build::Par(1), Build::Par(2)],
            _ => &[Build::Serial, Build::Par(1)],
        };
        for leaf in leafs {
            for &b in builds {
                let r = build(&data, leaf, b).and_then(|t| structure(&t, &data, leaf));
                cx.states += 1;
                if let Ok(d) = r {
                    cx.mix(d as u64 * 10_000 + n as u64 * 100 + leaf as u64);
                }
                cx.op();
                match r {
                    Ok(d) => cx.sample(|| format!("leafsize {leaf} {b:?}: depth {d}; {}", show(&data))),
                    Err(e) => return cx.fail(|| format!("{e}; leafsize {leaf}, {b:?}, {}", show(&data))),
                }
            }
        }
    }
}
fn main() {
    enumk::engine::main(|p, t| {
        let mut v = universe(V, Scope { thorough: t, nonneg: false, light: p != "C19" });
        patterns::<V, f64, 2>(&mut v, V, "every size", Class::L, ISO, (65..=if t { 600 } else { 260 }).collect());
        patterns::<V, f64, 3>(&mut v, V, "below the threshold", Class::X, ISO, if t { vec![30000, 50001, 99998, 99999] } else { vec![20001, 99999] });
        v
    })
}
