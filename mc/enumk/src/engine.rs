//! Exhaustive enumeration of the cases of a list of families, in worker
//! processes that share a journal: a crash, abort or hang is attributed to the
//! case in the journal and confirmed by running that case alone.
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::*};
use std::time::{Duration, Instant};

pub const HB: usize = 1 << 20; // buckets for distinct outcomes

#[derive(Default)]
pub struct Cx {
    /// distinct instances (trees, or whatever the family builds)
    pub states: u64,
    /// operations executed and judged
    pub transitions: u64,
    pub fails: Vec<String>,
    pub counters: BTreeMap<&'static str, u64>,
    pub verbose: bool,
    outcome: u64,
    ms: f64,
    /// write out the next operation as a sample
    want: bool,
    samples: Vec<String>,
    shm: Option<&'static Shm>,
}
impl Cx {
    pub fn fail(&mut self, m: impl FnOnce() -> String) {
        if self.fails.len() < 3 {
            self.fails.push(m());
        }
    }
    pub fn failed(&self) -> bool {
        !self.fails.is_empty()
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    /// An actual operation of this run, written out (for the evidence file).
    #[inline]
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want {
            self.want = false;
            self.samples.push(f());
        }
    }
    /// Fold one observed value into the outcome of the current operation.
    #[inline]
    pub fn mix(&mut self, v: u64) {
        self.outcome = (self.outcome ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    }
    /// End of one judged operation.
    #[inline]
    pub fn op(&mut self) {
        self.transitions += 1;
        let h = (self.outcome.wrapping_mul(0xD6E8_FEB8_6659_FD93) >> 44) as usize % HB;
        self.outcome = 0;
        if let Some(s) = self.shm {
            let b = &s.bits[h / 8];
            let m = 1u8 << (h % 8);
            if b.load(Relaxed) & m == 0 {
                b.fetch_or(m, Relaxed);
            }
        }
    }
}

pub trait Family {
    fn name(&self) -> String;
    fn count(&self) -> u64;
    fn run(&self, idx: u64, cx: &mut Cx);
    fn describe(&self, _idx: u64) -> String {
        String::new()
    }
}

pub struct FnFam<F> {
    pub name: String,
    pub count: u64,
    pub f: F,
}
impl<F: Fn(u64, &mut Cx)> Family for FnFam<F> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn count(&self) -> u64 {
        self.count
    }
    fn run(&self, idx: u64, cx: &mut Cx) {
        (self.f)(idx, cx)
    }
}
pub fn fam<F: Fn(u64, &mut Cx) + 'static>(name: impl Into<String>, count: u64, f: F) -> Box<dyn Family> {
    Box::new(FnFam {
        name: name.into(),
        count,
        f,
    })
}

#[repr(C)]
pub struct Slot {
    fam: AtomicU64,
    idx: AtomicU64,
    beats: AtomicU64,
    _pad: [u64; 5],
}
#[repr(C)]
pub struct Shm {
    next: AtomicU64,
    stop: AtomicU64,
    slots: [Slot; 64],
    bits: [AtomicU8; HB / 8],
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
fn map(path: &str) -> &'static Shm {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("journal");
    unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shm>(), 3, 1, f.as_raw_fd(), 0);
        assert!(p as isize != -1);
        &*(p as *const Shm)
    }
}

fn blocks(fams: &[Box<dyn Family>], shards: u64) -> Vec<(usize, u64, u64)> {
    let mut v = vec![];
    for (i, f) in fams.iter().enumerate() {
        let n = f.count();
        let b = (n / (shards * 16)).clamp(1, 4096);
        let mut s = 0;
        while s < n {
            v.push((i, s, (s + b).min(n)));
            s += b;
        }
    }
    v
}

fn run_one(f: &dyn Family, idx: u64, cx: &mut Cx) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.run(idx, cx)));
    if ub_only() {
        cx.fails.clear();
    }
    if let Err(p) = r {
        let m = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let at = LAST_PANIC.with(|l| l.borrow().clone());
        if ["src/oracle", "src/data", "src/num", "src/engine", "src/uni"].iter().any(|f| at.starts_with(f)) {
            eprintln!("harness error: {m} ({at})");
            std::process::exit(70);
        }
        if !ub_only() {
            cx.fail(|| format!("panicked: {m} ({at})"));
        }
    }
}
thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

/// Only undefined behaviour counts (C16): wrong answers, panics, clean aborts
/// and missing termination are other properties' business.
static UB_ONLY: AtomicU8 = AtomicU8::new(0);
fn ub_only() -> bool {
    UB_ONLY.load(Relaxed) != 0
}
/// Exit code of the sanitizers.
const SAN: i32 = 99;
/// What the error output of a crashed worker says about undefined behaviour.
fn ub_line(err: &str) -> Option<String> {
    let marks = ["ERROR: AddressSanitizer", "WARNING: MemorySanitizer", "ThreadSanitizer:", "unsafe precondition", "POISON-ALLOC", "UNREACHABLE", "free():", "double free", "corrupted", "Undefined Behavior"];
    let head = err.lines().find(|l| marks.iter().any(|m| l.contains(m)))?;
    let at = err.lines().find(|l| l.contains("/repo/")).unwrap_or("").trim();
    Some(format!("{} {at}", head.trim()))
}
fn benign(err: &str) -> bool {
    ["overflowed its stack", "memory allocation of", "thread caused non-unwinding panic", "panic in a", "stack-overflow", "allocation-size-too-big", "out-of-memory", "Cannot allocate", "failed to allocate"].iter().any(|m| err.contains(m))
}

/// Entry point of every check binary.
pub fn main(fams: impl Fn(&str, bool) -> Vec<Box<dyn Family>>) {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let prop = get("--prop").expect("--prop");
    let thorough = get("--tier").as_deref() == Some("thorough");
    let mode = a.get(1).map(|s| s.as_str()).unwrap_or("");
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if m.contains("unsafe precondition") {
            eprintln!("{m} ({at})\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = at);
    }));
    UB_ONLY.store((get("--ub").as_deref() == Some("1")) as u8, Relaxed);
    match mode {
        "run" => parent(&fams(&prop, thorough), &a, &prop, &get),
        "shard" => {
            if get("--pool").as_deref() != Some("none") {
                // The shard's thread is the only member of its rayon pool.
                let _ = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build_global();
            }
            shard(&fams(&prop, thorough), &get)
        }
        "one" => {
            let _ = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build_global();
            let fs = fams(&prop, thorough);
            let name = get("--fam").expect("--fam");
            let idx: u64 = get("--idx").expect("--idx").parse().unwrap();
            let f = fs.iter().find(|f| f.name() == name).expect("no such family");
            let mut cx = Cx::default();
            println!("case {name}#{idx} {}", f.describe(idx));
            run_one(&**f, idx, &mut cx);
            println!("states {} transitions {}", cx.states, cx.transitions);
            if cx.failed() {
                for m in &cx.fails {
                    println!("FAIL {m}");
                }
                std::process::exit(1);
            }
            println!("PASS");
        }
        // every case of one share of the families, in this process and without
        // shared memory (for interpreters)
        "serial" => {
            if get("--pool").as_deref() != Some("none") {
                let _ = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build_global();
            }
            let share = get("--share").unwrap();
            let (i, m) = share.split_once('/').unwrap();
            let (i, m): (u64, u64) = (i.parse().unwrap(), m.parse().unwrap());
            let cap = Instant::now() + Duration::from_secs(get("--cap").map_or(100_000, |s| s.parse().unwrap()));
            let mut c = 0u64;
            for f in fams(&prop, thorough) {
                let mut cx = Cx::default();
                let mut done = 0;
                let mut capped = false;
                for idx in 0..f.count() {
                    c += 1;
                    if c % m != i {
                        continue;
                    }
                    if Instant::now() > cap {
                        capped = true;
                        break;
                    }
                    eprintln!("@{}#{idx}", f.name());
                    run_one(&*f, idx, &mut cx);
                    done += 1;
                    for x in cx.fails.drain(..) {
                        println!("V\t{}\t{idx}\t{}", f.name(), x.replace(['\n', '\t'], " "));
                    }
                }
                println!("F\t{}\t{done}\t{}\t{}\t{}", f.name(), cx.states, cx.transitions, f.count());
                if capped {
                    println!("CAP");
                }
            }
            println!("END");
        }
        "list" => {
            for f in fams(&prop, thorough) {
                println!("{} {}", f.name(), f.count());
            }
        }
        _ => {
            eprintln!("usage: run|shard|one|list --prop P [--tier T]");
            std::process::exit(2)
        }
    }
}

fn shard(fams: &[Box<dyn Family>], get: &dyn Fn(&str) -> Option<String>) {
    let shm = map(&get("--shm").unwrap());
    let id: usize = get("--id").unwrap().parse().unwrap();
    let shards: u64 = get("--shards").unwrap().parse().unwrap();
    let deadline = Instant::now() + Duration::from_secs(get("--cap").unwrap().parse().unwrap());
    let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
    let bl = blocks(fams, shards);
    let mut per: Vec<(u64, Cx)> = fams
        .iter()
        .map(|_| {
            (
                0,
                Cx {
                    shm: Some(shm),
                    ..Default::default()
                },
            )
        })
        .collect();
    let slot = &shm.slots[id];
    let mut capped = false;
    let mut out = String::new();
    loop {
        if shm.stop.load(Relaxed) != 0 {
            break;
        }
        if Instant::now() > deadline {
            capped = true;
            break;
        }
        let b = shm.next.fetch_add(1, Relaxed) as usize;
        let Some(&(fi, s, e)) = bl.get(b) else { break };
        let (done, cx) = &mut per[fi];
        slot.fam.store(fi as u64 + 1, Relaxed);
        let t = Instant::now();
        for idx in s..e {
            slot.idx.store(idx, Relaxed);
            slot.beats.fetch_add(1, Relaxed);
            cx.want = idx == seed.wrapping_mul(7919) % fams[fi].count();
            run_one(&*fams[fi], idx, cx);
            cx.want = false;
            for m in cx.samples.drain(..) {
                let m: String = m.chars().take(600).collect();
                out.push_str(&format!("S\t{}\t{idx}\t{}\n", fams[fi].name(), m.replace(['\n', '\t'], " ")));
            }
            *done += 1;
            if cx.failed() {
                for m in cx.fails.drain(..) {
                    out.push_str(&format!(
                        "V\t{}\t{idx}\t{}\n",
                        fams[fi].name(),
                        m.replace(['\n', '\t'], " ")
                    ));
                }
                shm.stop.store(1, Relaxed);
                break;
            }
        }
        cx.ms += t.elapsed().as_secs_f64() * 1e3;
    }
    slot.fam.store(0, Relaxed);
    for (fi, (done, cx)) in per.iter().enumerate() {
        out.push_str(&format!("F\t{}\t{done}\t{}\t{}\t{:.0}\n", fams[fi].name(), cx.states, cx.transitions, cx.ms));
        for (k, v) in &cx.counters {
            out.push_str(&format!("C\t{k}\t{v}\n"));
        }
    }
    if capped {
        out.push_str("CAP\n");
    }
    let mut f = std::fs::File::create(get("--out").unwrap()).unwrap();
    f.write_all(out.as_bytes()).unwrap();
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn parent(fams: &[Box<dyn Family>], args: &[String], prop: &str, get: &dyn Fn(&str) -> Option<String>) {
    let t0 = Instant::now();
    let dir = get("--dir").expect("--dir");
    let shards: u64 = get("--shards").map_or(8, |s| s.parse().unwrap());
    let cap = get("--cap").unwrap_or("400".into());
    let hang = Duration::from_secs(get("--hang").map_or(90, |s| s.parse().unwrap()));
    std::fs::create_dir_all(&dir).unwrap();
    let shm_path = format!("{dir}/journal");
    {
        let f = std::fs::File::create(&shm_path).unwrap();
        f.set_len(std::mem::size_of::<Shm>() as u64).unwrap();
    }
    let shm = map(&shm_path);
    let exe = std::env::current_exe().unwrap();
    let tier = get("--tier").unwrap_or("quick".into());
    let only = get("--only");
    let mut ch: Vec<_> = (0..shards)
        .map(|i| {
            let out = format!("{dir}/shard{i}");
            let _ = std::fs::remove_file(&out);
            let err = std::fs::File::create(format!("{dir}/shard{i}.err")).unwrap();
            let mut c = std::process::Command::new(&exe);
            c.args(["shard", "--prop", prop, "--tier", &tier, "--shm", &shm_path, "--out", &out, "--cap", &cap])
                .args(["--id", &i.to_string(), "--shards", &shards.to_string()])
                .args(["--seed", &get("--seed").unwrap_or("1".into())])
                .stdout(std::process::Stdio::null())
                .stderr(err);
            if let Some(o) = &only {
                c.args(["--only", o]);
            }
            if ub_only() {
                c.args(["--ub", "1"]);
            }
            Some(c.spawn().expect("spawn"))
        })
        .collect();
    let _ = args;
    // Watch the shards: exits by signal and stalls are attributed to the journalled case.
    let mut last = vec![(0u64, Instant::now()); shards as usize];
    let mut suspects: Vec<(usize, u64, String)> = vec![];
    loop {
        let mut live = 0;
        for i in 0..shards as usize {
            let Some(c) = ch[i].as_mut() else { continue };
            match c.try_wait().unwrap() {
                Some(st) => {
                    ch[i] = None;
                    if !st.success() {
                        let fi = shm.slots[i].fam.load(Relaxed);
                        let idx = shm.slots[i].idx.load(Relaxed);
                        let mut e = std::fs::read_to_string(format!("{dir}/shard{i}.err")).unwrap_or_default();
                        if let Some(l) = ub_line(&e) {
                            e = l;
                        }
                        let cut = e.char_indices().rev().nth(400).map_or(0, |x| x.0);
                        e = e.split_off(cut);
                        suspects.push((fi as usize, idx, format!("{st}: {}", e.trim())));
                        shm.stop.store(1, Relaxed);
                    }
                }
                None => {
                    live += 1;
                    let b = shm.slots[i].beats.load(Relaxed);
                    if b != last[i].0 {
                        last[i] = (b, Instant::now());
                    } else if last[i].1.elapsed() > hang {
                        let fi = shm.slots[i].fam.load(Relaxed);
                        let idx = shm.slots[i].idx.load(Relaxed);
                        let _ = c.kill();
                        let _ = c.wait();
                        ch[i] = None;
                        suspects.push((fi as usize, idx, format!("no progress for {hang:?}")));
                        shm.stop.store(1, Relaxed);
                    }
                }
            }
        }
        if live == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let mut fstat: BTreeMap<String, (u64, u64, u64, u64)> = BTreeMap::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut viol: Vec<(String, u64, String)> = vec![];
    let mut capped = false;
    let mut samples: Vec<String> = vec![];
    for i in 0..shards {
        let Ok(s) = std::fs::read_to_string(format!("{dir}/shard{i}")) else { continue };
        for l in s.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "V" => viol.push((p[1].into(), p[2].parse().unwrap(), p[3].into())),
                "F" => {
                    let e = fstat.entry(p[1].into()).or_default();
                    e.0 += p[2].parse::<u64>().unwrap();
                    e.1 += p[3].parse::<u64>().unwrap();
                    e.2 += p[4].parse::<u64>().unwrap();
                    e.3 += p[5].parse::<u64>().unwrap();
                }
                "C" => *counters.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap(),
                "S" => samples.push(format!("{} #{}: {}", p[1], p[2], p[3])),
                "CAP" => capped = true,
                _ => {}
            }
        }
    }
    // Confirm crashes and stalls by running the case alone.
    let mut errors: Vec<String> = vec![];
    suspects.sort();
    for (fi, idx, why) in suspects.iter().take(2) {
        if *fi == 0 {
            errors.push(format!("a worker failed outside any case: {why}"));
            continue;
        }
        let f = &fams[*fi - 1];
        let errp = format!("{dir}/confirm.err");
        let mut c = std::process::Command::new(&exe)
            .args(["one", "--prop", prop, "--tier", &tier, "--fam", &f.name(), "--idx", &idx.to_string(), "--ub", if ub_only() { "1" } else { "0" }])
            .stdout(std::process::Stdio::null())
            .stderr(std::fs::File::create(&errp).unwrap())
            .spawn()
            .unwrap();
        let t = Instant::now();
        let st = loop {
            if let Some(s) = c.try_wait().unwrap() {
                break Some(s);
            }
            if t.elapsed() > hang {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(5));
        };
        let err = std::fs::read_to_string(&errp).unwrap_or_default();
        if ub_only() {
            // the workers stop at a crash: what they did not get to is not covered
            capped = true;
            match st {
                None => {}
                Some(s) if s.code() == Some(70) => errors.push(format!("{}#{idx}: {why}", f.name())),
                Some(s) => match ub_line(&err) {
                    Some(l) if !benign(&l) => viol.push((f.name(), *idx, l)),
                    _ if s.success() || benign(&err) => {}
                    _ if s.code() == Some(SAN) || s.code().is_none() => viol.push((f.name(), *idx, format!("crashes ({why})"))),
                    _ => {}
                },
            }
            continue;
        }
        match st {
            None => viol.push((f.name(), *idx, format!("does not terminate ({why})"))),
            Some(s) if s.code() == Some(70) => errors.push(format!("{}#{idx}: {why}", f.name())),
            Some(s) if !s.success() => viol.push((f.name(), *idx, format!("crashes ({why})"))),
            _ => errors.push(format!("{}#{idx}: {why}; not reproducible alone", f.name())),
        }
    }
    let distinct: u64 = shm.bits.iter().map(|b| b.load(Relaxed).count_ones() as u64).sum();
    let total: u64 = fams.iter().map(|f| f.count()).sum();
    let done: u64 = fstat.values().map(|f| f.0).sum();
    let mut o = String::new();
    o.push_str(&format!(
        "{{\"prop\":\"{prop}\",\"cases\":{total},\"cases_done\":{done},\"states\":{},\"transitions\":{},\"distinct_outcomes\":{distinct},\"capped\":{capped},\"wall_s\":{:.2},\n",
        fstat.values().map(|f| f.1).sum::<u64>(),
        fstat.values().map(|f| f.2).sum::<u64>(),
        t0.elapsed().as_secs_f64()
    ));
    o.push_str("\"families\":[");
    let mut first = true;
    for (k, v) in &fstat {
        if !first {
            o.push(',');
        }
        first = false;
        o.push_str(&format!(
            "\n{{\"name\":\"{}\",\"cases\":{},\"states\":{},\"transitions\":{},\"cpu_ms\":{}}}",
            esc(k),
            v.0,
            v.1,
            v.2,
            v.3
        ));
    }
    o.push_str("],\n\"counters\":{");
    o.push_str(
        &counters
            .iter()
            .map(|(k, v)| format!("\"{}\":{v}", esc(k)))
            .collect::<Vec<_>>()
            .join(","),
    );
    samples.sort();
    o.push_str("},\n\"samples\":[");
    o.push_str(&samples.iter().map(|e| format!("\n\"{}\"", esc(e))).collect::<Vec<_>>().join(","));
    o.push_str("],\n\"violations\":[");
    o.push_str(
        &viol
            .iter()
            .map(|(f, i, m)| format!("\n{{\"family\":\"{}\",\"idx\":{i},\"what\":\"{}\"}}", esc(f), esc(m)))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\n\"errors\":[");
    o.push_str(&errors.iter().map(|e| format!("\"{}\"", esc(e))).collect::<Vec<_>>().join(","));
    o.push_str("]}\n");
    let _ = std::fs::remove_file(&shm_path);
    std::fs::write(format!("{dir}/report.json"), o).unwrap();
}
