//! C10: data sets large enough for the approximate median.
use enumk::{engine::*, num::*, oracle::*, probe::*, structure::*};
use fnntw::{moms::moms_seq, point::Point, NotNan};

const VALS: [i64; 3] = [-1, 0, 2];

/// Arrangements of n small values.
#[derive(Clone, Copy, Debug)]
enum Arr {
    /// `b` equal blocks, digits base `base` of the code
    Blocks { b: usize, base: usize, code: usize },
    /// a window of `w` positions (digits base 3) at `at`; the rest from `rest`
    Window { at: usize, w: usize, code: usize, rest: usize },
    /// period `w`, digits base 3
    Cycle { w: usize, code: usize },
    Named(usize),
}
const NAMED: [&str; 12] = [
    "sorted", "reversed", "constant", "organ pipe", "valley", "permuted", "one low", "one high", "outliers at borders", "saw 4", "few values permuted",
    "sorted with duplicates",
];
fn digit(code: usize, base: usize, i: usize) -> usize {
    code / base.pow(i as u32) % base
}
impl Arr {
    fn at(&self, i: usize, n: usize) -> i64 {
        match *self {
            Arr::Blocks { b, base, code } => VALS[digit(code, base, (i * b / n).min(b - 1)) % 3] + (digit(code, base, (i * b / n).min(b - 1)) / 3) as i64 * 5,
            Arr::Window { at, w, code, rest } => {
                if i >= at && i < at + w {
                    return VALS[digit(code, 3, i - at)];
                }
                match rest {
                    0 => 0,
                    1 => if i < n / 2 { -1 } else { 2 },
                    2 => if i < n / 2 { 2 } else { -1 },
                    3 => if i % 2 == 0 { -1 } else { 2 },
                    _ => [-1, 0, 2][i % 3],
                }
            }
            Arr::Cycle { w, code } => VALS[digit(code, 3, i % w)],
            Arr::Named(p) => {
                let (i, n) = (i as i64, n as i64);
                match NAMED[p] {
                    "sorted" => i,
                    "reversed" => n - i,
                    "constant" => 3,
                    "organ pipe" => i.min(n - 1 - i),
                    "valley" => (n / 2 - i).abs(),
                    "permuted" => (i * 48271) % 65537,
                    "one low" => if i == n / 3 { -5 } else { 1 },
                    "one high" => if i == n - 1 { 9 } else { 1 },
                    "outliers at borders" => if i % 3125 == 0 { 100 + i % 7 } else if i % 3125 == 3124 { -100 } else { 0 },
                    "saw 4" => i % 4,
                    "few values permuted" => (i * 48271) % 65537 % 5,
                    _ => i / 1000,
                }
            }
        }
    }
}

fn direct<T: Fl, const D: usize>(arr: Arr, n: usize, chunk: Option<usize>, axis: usize, cx: &mut Cx) {
    let u = Unit { exp: -1 };
    // other axes: another order
    let data: Vec<[T; D]> = (0..n).map(|i| std::array::from_fn(|a| u.to(if a == axis { arr.at(i, n) } else { (n - i) as i64 % 1000 }))).collect();
    let nn: &[[NotNan<T>; D]] = unsafe { std::mem::transmute(&data[..]) };
    let mut pts: Vec<Point<T, D>> = nn.iter().map(Point::new).collect();
    cx.states += 1;
    let (l, m, r) = moms_seq(&mut pts, chunk, axis);
    let check = || -> Result<(usize, f64), String> {
        if l.len() + 1 + r.len() != n {
            return Err(format!("{} + 1 + {} elements of {n}", l.len(), r.len()));
        }
        let mut seen = vec![false; n];
        let mut take = |p: &Point<T, D>| -> Result<f64, String> {
            let i = index_of(p, &data)?;
            if std::mem::replace(&mut seen[i], true) {
                return Err(format!("element {i} appears twice"));
            }
            Ok(data[i][axis].f())
        };
        let v = take(m)?;
        for p in l.iter() {
            if take(p)? > v {
                return Err(format!("an element left of the split point {v} is above it"));
            }
        }
        for p in r.iter() {
            if take(p)? < v {
                return Err(format!("an element right of the split point {v} is below it"));
            }
        }
        Ok((l.len(), v))
    };
    match check() {
        Ok((k, v)) => {
            cx.mix(k as u64);
            cx.mix(v.to_bits());
            cx.op();
            cx.sample(|| format!("moms_seq over {arr:?}, n {n}, chunk {chunk:?}, axis {axis}: split after {k} at {v}"));
        }
        Err(e) => cx.fail(|| format!("moms_seq: {e}; {arr:?}, n {n}, chunk size {chunk:?}, axis {axis}, {}", T::NAME)),
    }
}

fn in_pool<R: Send>(threads: usize, f: impl FnOnce() -> R + Send) -> R {
    if threads == 0 {
        return f();
    }
    rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(f)
}

fn tree<T: Fl, const D: usize>(arrs: &[Arr], n: usize, leaf: usize, b: Build, boxed: bool, cx: &mut Cx) {
    let u = Unit { exp: 0 };
    let low = (0..n).map(|i| (0..D).map(|a| arrs[a % arrs.len()].at(i, n)).min().unwrap()).min().unwrap();
    let pts: Vec<IPt<D>> = (0..n).map(|i| std::array::from_fn(|a| arrs[a % arrs.len()].at(i, n) - low)).collect();
    let hi: IPt<D> = std::array::from_fn(|a| pts.iter().map(|p| p[a]).max().unwrap());
    let data: Vec<[T; D]> = pts.iter().map(|p| u.pt(p)).collect();
    let what = || format!("{arrs:?}, {D}-D {}, n {n}, leafsize {leaf}, {b:?}, boxed {boxed}", T::NAME);
    let t = match build(&data, leaf, b) {
        Ok(t) => t,
        Err(e) => return cx.fail(|| format!("{e}: {}", what())),
    };
    cx.states += 1;
    match structure(&t, &data, leaf) {
        Ok(d) => {
            cx.mix(d as u64);
            cx.op();
            cx.sample(|| format!("{}: depth {d}", what()));
        }
        Err(e) => return cx.fail(|| format!("{e}: {}", what())),
    }
    let l: IPt<D> = hi.map(|h| h + 3);
    let t = if boxed { t.with_boxsize(&u.pt(&l)).unwrap() } else { t };
    let mut qs: Vec<IPt<D>> = [0, 1, n / 3, n / 2, n - 1].iter().map(|i| pts[*i]).collect();
    qs.push(std::array::from_fn(|a| hi[a] / 2));
    qs.push(hi.map(|h| h + 1));
    qs.push(std::array::from_fn(|a| if a == 0 { hi[a] + 2 } else { 0 }));
    qs.push(std::array::from_fn(|a| if a == 0 { 1 } else { hi[a] }));
    let (mut used, mut seen) = (vec![], vec![]);
    for q in qs {
        let qf: [T; D] = u.pt(&q);
        let dist: Vec<i64> = if boxed { pts.iter().map(|p| d2per(p, &q, &l)).collect() } else { pts.iter().map(|p| d2(p, &q)).collect() };
        let r = nn(&t, &data, &qf).and_then(|(d, i)| {
            cx.mix(i);
            cx.op();
            check_nn(d, i, &dist, u, D)
        });
        let r = r.and_then(|()| {
            if boxed {
                let im = image_sets(&q, &l);
                let ps: Vec<Pairs> = im.iter().map(|im| pairs(&pts, im)).collect();
                for k in [2, 17] {
                    let (d, i) = knn(&t, &data, &qf, k)?;
                    cx.op();
                    any_of(ps.iter().map(|p| check_knn_pairs(&d, &i, p, k, u, D, &mut used))).map_err(|e| format!("k = {k}: {e}"))?;
                }
            } else {
                let mut sorted = dist.clone();
                sorted.sort_unstable();
                for k in [1, 5, 40] {
                    let (d, i) = knn(&t, &data, &qf, k)?;
                    cx.op();
                    check_knn(&d, &i, &dist, &sorted, k, u, D, &mut seen).map_err(|e| format!("k = {k}: {e}"))?;
                }
            }
            Ok(())
        });
        if let Err(e) = r {
            return cx.fail(|| format!("query {qf:?}: {e}; {}", what()));
        }
    }
}

fn main() {
    enumk::engine::main(|p, t| {
        let light = p != "C10";
        let mut v: Vec<Box<dyn Family>> = vec![];
        let chunks = [None, Some(1), Some(5), Some(7), Some(1000), Some(33_334), Some(50_000), Some(99_999), Some(100_000), Some(250_000)];
        // every assignment of three values to six blocks
        let ns: Vec<usize> = if t { vec![100_000, 100_001, 100_003, 131_072, 200_000] } else { vec![100_000, 100_003] };
        let b = if light { 4 } else { 6 };
        let pat = 3usize.pow(b);
        let nn = ns.clone();
        v.push(fam(format!("moms_seq: all 3-valued arrangements of {b} blocks, every chunk size"), (pat * ns.len() * chunks.len()) as u64, move |i, cx| {
            let i = i as usize;
            let (c, n, code) = (chunks[i % chunks.len()], nn[i / chunks.len() % nn.len()], i / chunks.len() / nn.len());
            direct::<f64, 1>(Arr::Blocks { b: b as usize, base: 3, code }, n, c, 0, cx);
        }));
        // every assignment of three values to a window in five surroundings
        let w = if light { 3 } else if t { 8 } else { 6 };
        let pat = 3usize.pow(w);
        let wins: Vec<(usize, Option<usize>)> = [0usize, 49_997, 99_993].iter().flat_map(|a| [Some(1), None, Some(5)].map(|c| (*a, c))).collect();
        v.push(fam(format!("moms_seq: all 3-valued windows of {w} positions"), (pat * 5 * wins.len()) as u64, move |i, cx| {
            let i = i as usize;
            let (rest, (at, c), code) = (i % 5, wins[i / 5 % wins.len()], i / 5 / wins.len());
            direct::<f32, 2>(Arr::Window { at: at.min(100_000 - w as usize), w: w as usize, code, rest }, 100_000, c, i % 2, cx);
        }));
        let cyc = if light { 27 } else { 243 };
        v.push(fam("moms_seq: all 3-valued cycles", cyc * 4, move |i, cx| {
            let c = [None, Some(1), Some(6), Some(9_999)][i as usize % 4];
            direct::<f64, 3>(Arr::Cycle { w: if cyc == 27 { 3 } else { 5 }, code: i as usize / 4 }, 100_001, c, i as usize % 3, cx);
        }));
        let sizes = if t { vec![99_999, 100_000, 100_001, 150_000, 262_144, 1_000_001] } else { vec![99_999, 100_000, 131_073] };
        let per = (NAMED.len() * chunks.len()) as u64;
        v.push(fam("moms_seq: named arrangements", per * sizes.len() as u64, move |i, cx| {
            let n = sizes[(i / per) as usize];
            let i = (i % per) as usize;
            direct::<f64, 2>(Arr::Named(i / chunks.len()), n, chunks[i % chunks.len()], i % 2, cx);
        }));
        #[cfg(feature = "parallel")]
        {
            let pools = [1usize, 2, 3, 5, 8, 16];
            v.push(fam("moms_seq: pools", (NAMED.len() * pools.len() * 3) as u64, move |i, cx| {
                let i = i as usize;
                let n = [100_000, 120_001, 333_333][i % 3];
                in_pool(pools[i / 3 % pools.len()], || direct::<f64, 1>(Arr::Named(i / 3 / pools.len()), n, None, 0, cx));
            }));
        }
        // trees
        const BUILDS: &[Build] = &[Build::Serial, Build::Par(1), Build::Par(0), Build::Par(3)];
        let tn: Vec<usize> = if t { vec![100_000, 100_001, 131_073, 200_001, 400_000, 1_000_000] } else { vec![100_000, 200_003] };
        let nl = tn.len();
        let t2 = tn.clone();
        let np = if light { 6 } else { NAMED.len() };
        v.push(fam("1-D trees: named arrangements", (np * nl * 4) as u64, move |i, cx| {
            let i = i as usize;
            tree::<f64, 1>(&[Arr::Named(i / 4 / nl)], t2[i / 4 % nl], [1, 32, 0, 1000][i % 4], BUILDS[i % 4], i % 3 == 0, cx);
        }));
        let t2 = tn.clone();
        v.push(fam("2-D trees: every pair of named arrangements", (np * np * nl) as u64, move |i, cx| {
            let i = i as usize;
            let (n, x, y) = (t2[i % nl], i / nl % np, i / nl / np);
            tree::<f64, 2>(&[Arr::Named(x), Arr::Named(y)], n, [1, 8, 100][i % 3], BUILDS[(i / 2) % 4], i % 2 == 0, cx);
        }));
        let b = if light { 3usize } else { 5 };
        let pat = 3u64.pow(b as u32);
        v.push(fam(format!("1-D trees: all 3-valued arrangements of {b} blocks"), pat * if t { 4 } else { 1 }, move |i, cx| {
            let n = [100_002, 100_000, 200_000, 300_001][(i / pat) as usize];
            tree::<f32, 1>(&[Arr::Blocks { b, base: 3, code: (i % pat) as usize }], n, [4, 50][i as usize % 2], BUILDS[(i % 4) as usize], i % 5 == 0, cx);
        }));
        if !light {
            v.push(fam("2-D trees: all 3-valued cycles on both axes", 81, move |i, cx| {
                let i = i as usize;
                tree::<f64, 2>(&[Arr::Cycle { w: 4, code: i }, Arr::Cycle { w: 4, code: 80 - i }], 120_000, 16, BUILDS[i % 4], i % 2 == 1, cx);
            }));
            v.push(fam("3-D trees: arrangements", (NAMED.len() * 4) as u64, move |i, cx| {
                let i = i as usize;
                let p = i / 4;
                let o = |k: usize| Arr::Named((p + k * (i % 4)) % NAMED.len());
                tree::<f32, 3>(&[o(0), o(1), o(2)], 150_001, 20, BUILDS[i % 4], false, cx);
            }));
        }
        v
    })
}
