//! C05: batch k-nearest queries, row by row. C06: axis queries.
//! (In shards the rayon pool is the shard's own thread, so rows run in a fixed
//! order; schedules are the business of engine S. The "pool" families repeat
//! batches of every size in real pools.)
#[cfg(all(feature = "parallel", feature = "no-position"))]
mod imp {
    use enumk::{data::*, engine::*, num::*, oracle::*, probe::*, uni::*};

    #[derive(Clone, Copy)]
    struct V {
        axis: bool,
        periodic: bool,
        with: bool,
    }
    const SER: &[Build] = &[Build::Serial];
    const BOTH: &[Build] = &[Build::Serial, Build::Par(1)];
    const PAR: &[Build] = &[Build::Par(1)];
    impl Visit for V {
        fn go<T: Fl, const D: usize>(self, ds: &Ds<D>, c: Class, cx: &mut Cx) {
            let p = PerPlan { leafs: Leafs::Edges, builds: BOTH, ks: Ks::All, extra: &[0, 1, 5], all_boxes: false, fine: D <= 2, sparse: 0 };
            let p = match c {
                Class::S if !self.periodic => p,
                Class::S => PerPlan { leafs: Leafs::List(&[1, 3]), extra: &[0, 3], all_boxes: D <= 2, fine: D == 1, ..p },
                Class::M => PerPlan { leafs: Leafs::List(&[1, 0, 4]), ks: Ks::Edges, fine: false, sparse: if D > 2 { 10 } else { 0 }, ..p },
                Class::L => PerPlan {
                    leafs: Leafs::List(&[1]),
                    builds: PAR,
                    ks: Ks::List(&[1, 3, 99]),
                    extra: &[0, 5],
                    fine: false,
                    sparse: if D > 2 || self.periodic { 4 } else { 0 },
                    ..p
                },
                Class::X => PerPlan { leafs: Leafs::List(&[1, 16]), ks: Ks::List(&[1, 2, 17, 40]), extra: &[1], fine: false, sparse: 8, ..p },
            };
            if self.with {
                // every call allocates for 65535 threads, so fewer configurations
                let p = PerPlan { leafs: Leafs::List(&[2]), ks: Ks::List(&[1, 2, 99]), extra: &[2], fine: false, sparse: if D > 1 { 6 } else { 0 }, ..p };
                return probe_batch::<T, D>(ds, &p, self.periodic, true, cx);
            }
            if self.axis {
                probe_axis::<T, D>(ds, &p, self.periodic, cx)
            } else {
                probe_batch::<T, D>(ds, &p, self.periodic, false, cx)
            }
        }
    }

    /// Batches of every size, in pools of several sizes, called from inside and outside.
    fn pool<T: Fl, const D: usize>(sizes: Vec<usize>, axis: bool) -> Box<dyn Family> {
        let pools = [1usize, 2, 3, 8, 17, 33, 100];
        let np = pools.len();
        let count = (sizes.len() * np * 4) as u64; // sizes x pools x periodic x with
        fam(format!("{D}-D {} batches of every size in pools, axis {axis}", T::NAME), count, move |i, cx| {
            let i = i as usize;
            let (m, np, periodic, with) = (sizes[i / 4 / np], pools[i / 4 % np], i / 2 % 2 == 1, i % 2 == 1);
            let ds = pattern_ds::<D>(6, 37, &ISO);
            let data: Vec<[T; D]> = ds.pts.iter().map(|p| ds.unit.pt(p)).collect();
            let l: IPt<D> = std::array::from_fn(|a| ds.hi[a] + 3);
            let mut tree = build(&data, 3, Build::Serial).unwrap();
            if periodic {
                tree = tree.with_boxsize(&ds.unit.pt(&l)).unwrap();
            }
            cx.states += 1;
            // a cycle of 61 different queries
            let qs: Vec<IPt<D>> = (0..61).map(|j: i64| std::array::from_fn(|a| (j * (31 + 7 * a as i64) + 5) % (l[a] + 1))).collect();
            let qf: Vec<[T; D]> = (0..m).map(|j| ds.unit.pt(&qs[j % 61])).collect();
            let k = [1, 4, 40][m % 3];
            let w = k.min(37);
            let pool = rayon::ThreadPoolBuilder::new().num_threads(np).build().unwrap();
            let mut used = vec![];
            if axis {
                let ax = m % D;
                let ps: Vec<Vec<AxPairs>> = qs
                    .iter()
                    .map(|q| {
                        if periodic {
                            image_sets(q, &l).iter().map(|s| ax_pairs(&ds.pts, s, ax)).collect()
                        } else {
                            vec![ax_pairs(&ds.pts, &[*q], ax)]
                        }
                    })
                    .collect();
                let r = pool.install(|| tree.query_nearest_k_parallel_axis(&qf, k, ax)).map_err(|e| e.to_string());
                let r = r.and_then(|r| {
                    if r.0.len() != m * w || r.1.len() != m * w {
                        return Err(format!("{} entries for {m} rows of {w}", r.0.len()));
                    }
                    #[cfg(not(feature = "no-index"))]
                    if r.2.len() != m * w {
                        return Err(format!("{} indices for {m} rows of {w}", r.2.len()));
                    }
                    for j in 0..m {
                        let s = j * w..(j + 1) * w;
                        #[cfg(not(feature = "no-index"))]
                        let gi = Some(&r.2[s.clone()]);
                        #[cfg(feature = "no-index")]
                        let gi: Option<&[u64]> = None;
                        cx.op();
                        any_of(ps[j % 61].iter().map(|p| check_axis(&r.0[s.clone()], &r.1[s.clone()], gi, p, k, ds.unit, D, &mut used)))
                            .map_err(|e| format!("row {j}: {e}"))?;
                    }
                    Ok(())
                });
                if let Err(e) = r {
                    cx.fail(|| format!("axis batch of {m}, pool of {np}, periodic {periodic}, k {k}: {e}"));
                }
                return;
            }
            let ps: Vec<Vec<Pairs>> = qs
                .iter()
                .map(|q| {
                    if periodic {
                        image_sets(q, &l).iter().map(|s| pairs(&ds.pts, s)).collect()
                    } else {
                        vec![pairs(&ds.pts, &[*q])]
                    }
                })
                .collect();
            let r = pool
                .install(|| if with { tree.query_nearest_k_parallel_with(&qf, k) } else { tree.query_nearest_k_parallel(&qf, k) })
                .map_err(|e| e.to_string());
            let r = r.and_then(|(d, i)| {
                if d.len() != m * w || i.len() != m * w {
                    return Err(format!("{} entries for {m} rows of {w}", d.len()));
                }
                for j in 0..m {
                    let s = j * w..(j + 1) * w;
                    cx.op();
                    any_of(ps[j % 61].iter().map(|p| check_knn_pairs(&d[s.clone()], &i[s.clone()], p, k, ds.unit, D, &mut used)))
                        .map_err(|e| format!("row {j}: {e}"))?;
                }
                Ok(())
            });
            if let Err(e) = r {
                cx.fail(|| format!("batch of {m}, pool of {np}, periodic {periodic}, with {with}, k {k}: {e}"));
            }
        })
    }

    pub fn main() {
        enumk::engine::main(|p, t| {
            let axis = p.starts_with("C06");
            let light = p.ends_with("light");
            let mut v = vec![];
            for periodic in [false, true] {
                let mut u = universe(V { axis, periodic, with: false }, Scope { thorough: t, nonneg: periodic, light: light || (!t && periodic) });
                if !axis {
                    let w = V { axis, periodic, with: true };
                    push::<V, f64, 1>(&mut u, w, "with: sequences<=3", Class::S, ISO, [3], sequences([3], 1, if t { 5 } else { 3 }));
                    push::<V, f64, 2>(&mut u, w, "with: subsets", Class::S, ISO, [2, 2], subsets([2, 2], 2));
                    push::<V, f32, 3>(&mut u, w, "with: subsets", Class::S, OFF, [2, 2, 2], subsets([2, 2, 2], 1));
                    patterns::<V, f64, 2>(&mut u, w, "with", Class::X, FAR, if t { (1..=40).collect() } else { vec![4, 9, 33, 200] });
                }
                for f in &mut u {
                    let n = format!("{} {}", if periodic { "box" } else { "open" }, f.name());
                    let g = std::mem::replace(f, fam("", 0, |_, _| {}));
                    *f = fam(n, g.count(), move |i, cx| g.run(i, cx));
                }
                v.extend(u);
            }
            if !light {
                let mut sizes: Vec<usize> = (0..=40).collect();
                sizes.extend([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8192, 10000, 16385, 70001]);
                if t {
                    sizes.extend([32768, 65536, 65537, 70000, 131073]);
                }
                v.push(pool::<f64, 2>(sizes.clone(), axis));
                v.push(pool::<f32, 3>(sizes, axis));
            }
            v
        })
    }
}
fn main() {
    #[cfg(all(feature = "parallel", feature = "no-position"))]
    imp::main()
}
