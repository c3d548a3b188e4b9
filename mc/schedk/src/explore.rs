//! Deviation-bounded exploration of schedules.
//!
//! An execution is determined by the scenario, the granularity (which accesses
//! are scheduling points), the base policy and the list of deviations
//! (step, thread). All executions with at most `dev` deviations are run, each
//! in a forked process.
use crate::scen::{scenarios, Bound, Scen};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

const MAXDEV: usize = 8;
const MAXLOG: usize = 1 << 17;
const MAXSITE: usize = 16384;
#[repr(C)]
#[derive(Clone, Copy)]
struct Log {
    step: u32,
    site: u32,
    tid: u8,
    chosen: u8,
    kind: u8,
    nrun: u8,
    mask: u32,
}
#[repr(C)]
struct Ctl {
    gran: u32,
    quantum: u32,
    ndev: u32,
    nsite: u32,
    collect: u32,
    fair: u32,
    maxsteps: u64,
    dev: [(u32, u32); MAXDEV],
    site: [u32; MAXSITE],
    status: u32,
    nstep: u32,
    nlog: u32,
    nnew: u32,
    nthr: u32,
    switches: u32,
    overflow: u32,
    accesses: u64,
    obs: u64,
    msg: [u8; 8192],
    newsite: [u32; MAXSITE],
    log: [Log; MAXLOG],
}
extern "C" {
    fn mc_ctl() -> *mut Ctl;
    fn mc_ctl_size() -> usize;
    fn mc_begin(c: *mut Ctl);
    fn mc_mute(m: i32);
    fn mc_end(ok: i32, msg: *const u8, obs: u64) -> !;
    fn mc_pin(cpu: i32);
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, fl: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn signal(s: i32, h: usize) -> usize;
}
pub fn mute(m: bool) {
    unsafe { mc_mute(m as i32) }
}

/// What a worker found in one phase.
#[repr(C)]
struct Stat {
    execs: u64,
    steps: u64,
    points: u64,
    maxsteps: u64,
    accesses: u64,
    capped: u64,
    overflow: u64,
    bad: u64,
    viol: u64,
    ndev: u64,
    dev: [(u32, u32); MAXDEV],
    msg: [u8; 8192],
    nobs: u64,
    obs: [u64; 4096],
    nsite: u64,
    site: [u32; MAXSITE],
}
#[repr(C)]
struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
}

#[derive(Clone, Debug)]
struct Cfg {
    gran: u32,
    quantum: u32,
    sites: Vec<u32>,
    collect: bool,
}
struct Res {
    status: u32,
    msg: String,
    obs: u64,
    steps: u32,
    log: Vec<Log>,
    new: Vec<u32>,
    accesses: u64,
    overflow: u32,
}
const OK: u32 = 1;
const BADDEV: u32 = 5;
const INTERNAL: u32 = 6;
const CRASH: u32 = 7;
const STALL: u32 = 8;

fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}
fn put(b: &mut [u8], s: &str) {
    let n = s.len().min(b.len() - 1);
    b[..n].copy_from_slice(&s.as_bytes()[..n]);
    b[n] = 0;
}

/// A run that takes too long is repeated with more time: on a busy machine a
/// process can stand still for long, but a schedule that does not end never does.
fn execute(c: *mut Ctl, s: &Scen, cfg: &Cfg, devs: &[(u32, u32)]) -> Res {
    let r = attempt(unsafe { &mut *c }, s, cfg, devs, 45);
    if r.status != STALL {
        return r;
    }
    let mut again = attempt(unsafe { &mut *c }, s, cfg, devs, 200);
    if again.status == STALL {
        again.msg += &format!("; first: {}", r.msg);
    } else {
        eprintln!("repeated: {} {}: {}", s.name, format!("{devs:?}"), r.msg);
    }
    again
}
fn attempt(c: &'static mut Ctl, s: &Scen, cfg: &Cfg, devs: &[(u32, u32)], limit: u32) -> Res {
    c.gran = cfg.gran;
    c.quantum = cfg.quantum;
    c.collect = cfg.collect as u32;
    c.fair = 3000;
    c.maxsteps = s.maxsteps;
    c.ndev = devs.len() as u32;
    c.dev[..devs.len()].copy_from_slice(devs);
    c.nsite = cfg.sites.len() as u32;
    c.site[..cfg.sites.len()].copy_from_slice(&cfg.sites);
    (c.status, c.nstep, c.nlog, c.nnew, c.switches, c.overflow, c.accesses, c.obs) = (0, 0, 0, 0, 0, 0, 0, 0);
    c.msg[0] = 0;
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            mc_begin(c);
            alarm(limit);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.run)()));
        let (ok, m, o) = match r {
            Ok(Ok(o)) => (1, String::new(), o),
            Ok(Err(e)) => (0, e, 0),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                (0, format!("panicked: {m}"), 0)
            }
        };
        let m = format!("{}\0", m.replace('\0', " "));
        unsafe { mc_end(ok, m.as_ptr(), o) }
    }
    let mut st = 0;
    while unsafe { waitpid(pid, &mut st, 0) } != pid {}
    let mut r = Res {
        status: c.status,
        msg: cstr(&c.msg),
        obs: c.obs,
        steps: c.nstep,
        log: c.log[..(c.nlog as usize).min(MAXLOG)].to_vec(),
        new: c.newsite[..c.nnew as usize].to_vec(),
        accesses: c.accesses,
        overflow: c.overflow,
    };
    if c.status == 0 {
        r.status = CRASH;
        let sig = st & 0x7f;
        r.msg = match sig {
            0 => format!("exited with code {}", st >> 8),
            _ => format!("crashed with signal {sig}"),
        };
    }
    r
}

struct Worker<'a> {
    c: *mut Ctl,
    s: &'a Scen,
    cfg: &'a Cfg,
    st: &'a mut Stat,
    sh: &'a Shared,
    deadline: Instant,
    bound: u32,
    obs: BTreeSet<u64>,
    sites: BTreeSet<u32>,
}
impl<'a> Worker<'a> {
    fn go(&mut self, devs: &[(u32, u32)]) -> Option<Res> {
        let r = execute(self.c, self.s, self.cfg, devs);
        self.st.execs += 1;
        self.st.steps += r.steps as u64;
        self.st.points += r.log.len() as u64;
        self.st.maxsteps = self.st.maxsteps.max(r.steps as u64);
        self.st.accesses += r.accesses;
        // the list of choices only matters if it is going to be used
        self.st.overflow |= (r.overflow & 1 != 0 || (r.overflow & 2 != 0 && (devs.len() as u32) < self.bound)) as u64;
        self.sites.extend(r.new.iter());
        if r.status != OK {
            if r.status == BADDEV || r.status == INTERNAL {
                self.st.bad = 1;
            } else {
                self.st.viol = 1;
            }
            self.st.ndev = devs.len() as u64;
            self.st.dev[..devs.len()].copy_from_slice(devs);
            put(&mut self.st.msg, &r.msg);
            self.sh.stop.store(1, SeqCst);
            return None;
        }
        if self.obs.len() < 4096 {
            self.obs.insert(r.obs);
        }
        Some(r)
    }
    fn alternatives(r: &Res, after: i64) -> Vec<(u32, u32)> {
        let mut v = vec![];
        for l in &r.log {
            if (l.step as i64) <= after {
                continue;
            }
            for t in 0..32 {
                if l.mask >> t & 1 == 1 && t != l.chosen as u32 {
                    v.push((l.step, t));
                }
            }
        }
        v
    }
    fn stop(&mut self) -> bool {
        if Instant::now() > self.deadline {
            self.st.capped = 1;
            return true;
        }
        self.sh.stop.load(SeqCst) != 0
    }
    fn tree(&mut self, devs: &mut Vec<(u32, u32)>) {
        if self.stop() {
            return;
        }
        let Some(r) = self.go(devs) else { return };
        if devs.len() as u32 >= self.bound {
            return;
        }
        let after = devs.last().map_or(-1, |d| d.0 as i64);
        for d in Self::alternatives(&r, after) {
            devs.push(d);
            self.tree(devs);
            devs.pop();
            if self.sh.stop.load(SeqCst) != 0 || self.st.capped != 0 {
                return;
            }
        }
    }
    fn all(&mut self, id: u64) {
        if self.bound == 0 && id != 0 {
            return;
        }
        // everybody runs the undisturbed execution, to know the alternatives
        let Some(r) = self.go(&[]) else { return };
        if id != 0 {
            self.st.execs -= 1;
            self.st.steps -= r.steps as u64;
            self.st.points -= r.log.len() as u64;
        }
        if self.bound == 0 {
            return;
        }
        let alts = Self::alternatives(&r, -1);
        loop {
            let i = self.sh.next.fetch_add(1, SeqCst) as usize;
            if i >= alts.len() || self.stop() {
                break;
            }
            self.tree(&mut vec![alts[i]]);
        }
    }
}

fn shared<T>() -> &'static mut T {
    unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &mut *(p as *mut T)
    }
}

#[derive(Default, Debug, Clone)]
struct Sum {
    execs: u64,
    steps: u64,
    points: u64,
    maxsteps: u64,
    accesses: u64,
    capped: bool,
    overflow: bool,
    obs: BTreeSet<u64>,
    sites: BTreeSet<u32>,
    found: Option<(bool, Vec<(u32, u32)>, String)>,
}

fn phase(s: &Scen, cfg: &Cfg, bound: u32, workers: u64, deadline: Instant) -> Sum {
    let sh: &'static mut Shared = shared();
    let mut stats: Vec<&'static mut Stat> = (0..workers).map(|_| shared::<Stat>()).collect();
    let mut pids = vec![];
    for id in 0..workers {
        let pid = unsafe { fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe {
                mc_pin(id as i32);
                let mut w = Worker {
                    c: mc_ctl(),
                    s,
                    cfg,
                    st: stats[id as usize],
                    sh,
                    deadline,
                    bound,
                    obs: BTreeSet::new(),
                    sites: BTreeSet::new(),
                };
                w.all(id);
                w.st.nobs = w.obs.len().min(4096) as u64;
                for (i, o) in w.obs.iter().take(4096).enumerate() {
                    w.st.obs[i] = *o;
                }
                w.st.nsite = w.sites.len().min(MAXSITE) as u64;
                for (i, o) in w.sites.iter().take(MAXSITE).enumerate() {
                    w.st.site[i] = *o;
                }
                _exit(0);
            }
        }
        pids.push(pid);
    }
    let mut sum = Sum::default();
    for (id, pid) in pids.into_iter().enumerate() {
        let mut st = 0;
        while unsafe { waitpid(pid, &mut st, 0) } != pid {}
        let w = &mut stats[id];
        if st != 0 && sum.found.is_none() {
            sum.found = Some((true, vec![], format!("explorer process ended with {st}")));
        }
        sum.execs += w.execs;
        sum.steps += w.steps;
        sum.points += w.points;
        sum.maxsteps = sum.maxsteps.max(w.maxsteps);
        sum.accesses += w.accesses;
        sum.capped |= w.capped != 0;
        sum.overflow |= w.overflow != 0;
        sum.obs.extend(&w.obs[..w.nobs as usize]);
        sum.sites.extend(&w.site[..w.nsite as usize]);
        if w.viol != 0 || w.bad != 0 {
            let f = (w.bad != 0, w.dev[..w.ndev as usize].to_vec(), cstr(&w.msg));
            if sum.found.as_ref().map_or(true, |o| o.0 && !f.0) {
                sum.found = Some(f);
            }
        }
    }
    extern "C" {
        fn munmap(p: *mut u8, n: usize) -> i32;
    }
    unsafe {
        for s in stats {
            munmap(s as *mut Stat as *mut u8, std::mem::size_of::<Stat>());
        }
        munmap(sh as *mut Shared as *mut u8, std::mem::size_of::<Shared>());
    }
    sum
}

/// Replace @0x..@ by the source line of that address.
fn symbolise(s: &str) -> String {
    let exe = std::env::current_exe().unwrap();
    let mut out = String::new();
    for (i, part) in s.split('@').enumerate() {
        if i % 2 == 0 || !part.starts_with("0x") {
            out.push_str(part);
            continue;
        }
        let l = std::process::Command::new("addr2line").arg("-e").arg(&exe).args(["-i", part]).output();
        let l = l.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
        // the innermost line of the crate, or the innermost one
        let lines: Vec<&str> = l.lines().collect();
        let f = lines.iter().find(|l| l.contains("/repo/")).or(lines.first()).unwrap_or(&part);
        out.push_str(&format!("({f})"));
    }
    out
}
fn esc(s: &str) -> String {
    s.chars().map(|c| if c == '"' || c == '\\' || (c as u32) < 32 { ' ' } else { c }).collect()
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let prop = get("--prop").expect("--prop");
    let thorough = get("--tier").as_deref() == Some("thorough");
    assert_eq!(unsafe { mc_ctl_size() }, std::mem::size_of::<Ctl>());
    unsafe { signal(13, 1) };
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        "run" => run(&prop, thorough, &get),
        "one" => one(&prop, &get),
        "list" => {
            for s in scenarios(&prop) {
                println!("{} {:?} {:?}", s.name, s.quick, s.thorough);
            }
        }
        _ => std::process::exit(2),
    }
}

fn run(prop: &str, thorough: bool, get: &dyn Fn(&str) -> Option<String>) {
    let dir = get("--dir").unwrap();
    let cap: u64 = get("--cap").map_or(400, |s| s.parse().unwrap());
    let workers: u64 = get("--shards").map_or(8, |s| s.parse().unwrap());
    let only = get("--only");
    let deadline = Instant::now() + Duration::from_secs(cap);
    std::fs::create_dir_all(&dir).unwrap();
    let (mut execs, mut steps, mut points, mut obs, mut capped) = (0, 0, 0, 0, false);
    let (mut fams, mut viol, mut errs, mut samples) = (vec![], vec![], vec![], vec![]);
    let mut accesses = 0;
    'all: for s in scenarios(prop) {
        if only.as_ref().is_some_and(|o| !s.name.contains(o.as_str())) {
            continue;
        }
        let t = Instant::now();
        let mut all = Sum::default();
        let bounds = if thorough { &s.thorough } else { &s.quick };
        for &Bound { gran, quantum, dev } in bounds {
            let mut cfg = Cfg { gran, quantum, sites: vec![], collect: false };
            let mut phases = vec![];
            if gran == 3 {
                // find the conflicting accesses first: repeat with one deviation until there are no new ones
                cfg.collect = true;
                loop {
                    let r = phase(&s, &cfg, 1, workers, deadline);
                    let new: Vec<u32> = r.sites.iter().copied().filter(|x| !cfg.sites.contains(x)).collect();
                    let done = new.is_empty() || r.found.is_some() || r.capped;
                    phases.push(r);
                    if done {
                        break;
                    }
                    cfg.sites.extend(new);
                    cfg.sites.sort();
                }
                cfg.collect = false;
            }
            if !phases.iter().any(|p: &Sum| p.found.is_some() || p.capped) && !(gran == 3 && dev <= 1) {
                phases.push(phase(&s, &cfg, dev, workers, deadline));
            }
            for mut p in phases {
                all.execs += p.execs;
                all.steps += p.steps;
                all.points += p.points;
                all.accesses += p.accesses;
                all.maxsteps = all.maxsteps.max(p.maxsteps);
                all.capped |= p.capped;
                all.overflow |= p.overflow;
                all.obs.append(&mut p.obs);
                if let Some((bad, devs, msg)) = p.found {
                    let d: Vec<String> = devs.iter().map(|d| format!("{}:{}", d.0, d.1)).collect();
                    let st: Vec<String> = cfg.sites.iter().map(|d| d.to_string()).collect();
                    let sched = format!("--gran {gran} --quantum {quantum} --devs {} --sites {}", if d.is_empty() { "-".into() } else { d.join(",") }, if st.is_empty() { "-".into() } else { st.join(",") });
                    // the same schedule again must do the same
                    let cfg = Cfg { collect: false, ..cfg.clone() };
                    let again = execute(unsafe { &mut *mc_ctl() }, &s, &cfg, &devs);
                    if bad || again.status == OK || again.status == BADDEV || again.status == INTERNAL {
                        errs.push(format!("{}: {msg}; run again: status {} {}; {sched}", s.name, again.status, again.msg));
                    } else {
                        viol.push(format!("{{\"family\":\"{}\",\"idx\":0,\"what\":\"{}\",\"schedule\":\"{}\"}}", esc(&s.name), esc(&symbolise(&format!("{} [schedule: {}]", msg, describe(&again)))), esc(&sched)));
                        samples.push(String::new());
                    }
                    all.found = Some((bad, devs, msg));
                }
            }
            if all.found.is_some() {
                break;
            }
        }
        execs += all.execs;
        steps += all.steps;
        points += all.points;
        accesses += all.accesses;
        obs += all.obs.len();
        capped |= all.capped;
        if all.overflow {
            errs.push(format!("{}: a table of the runtime overflowed", s.name));
        }
        fams.push(format!(
            "{{\"name\":\"{}\",\"cases\":{},\"states\":{},\"transitions\":{},\"cpu_ms\":{}}}",
            esc(&format!("{} {:?}: longest {} steps, {} outcomes", s.name, bounds, all.maxsteps, all.obs.len())),
            all.execs,
            all.points,
            all.steps,
            t.elapsed().as_millis()
        ));
        if fams.len() % 5 == 1 && all.execs > 0 && all.maxsteps < 100_000 {
            let r = execute(unsafe { &mut *mc_ctl() }, &s, &Cfg { gran: 1, quantum: 3, sites: vec![], collect: false }, &[]);
            samples.push(format!("{}: one schedule: {}", s.name, describe(&r)));
        }
        if all.found.is_some() {
            break 'all;
        }
    }
    samples.retain(|s| !s.is_empty());
    let q = |v: &[String]| v.iter().map(|s| format!("\n\"{}\"", esc(s))).collect::<Vec<_>>().join(",");
    let total = execs + capped as u64;
    let o = format!(
        "{{\"prop\":\"{prop}\",\"cases\":{total},\"cases_done\":{execs},\"states\":{points},\"transitions\":{steps},\"distinct_outcomes\":{obs},\"capped\":{capped},\n\"counters\":{{\"schedules\":{execs},\"choice_points\":{points},\"steps\":{steps},\"plain_accesses\":{accesses}}},\n\"families\":[{}],\n\"samples\":[{}],\n\"violations\":[{}],\n\"errors\":[{}]}}\n",
        fams.join(",\n"),
        q(&samples),
        viol.join(","),
        q(&errs)
    );
    std::fs::write(format!("{dir}/report.json"), o).unwrap();
}

/// Which thread ran how many steps, in order.
fn describe(r: &Res) -> String {
    let mut v: Vec<(u8, u32)> = vec![];
    for l in &r.log {
        match v.last_mut() {
            Some((t, n)) if *t == l.tid => *n += 1,
            _ => v.push((l.tid, 1)),
        }
    }
    let s: Vec<String> = v.iter().map(|(t, n)| format!("{t}x{n}")).collect();
    let s = s.join(" ");
    format!("{} steps, threads {}", r.steps, if s.len() > 300 { &s[..300] } else { &s })
}

fn one(prop: &str, get: &dyn Fn(&str) -> Option<String>) {
    let name = get("--scen").unwrap();
    let list = |k: &str| -> Vec<String> { get(k).filter(|s| s != "-").map_or(vec![], |s| s.split(',').map(|x| x.to_string()).collect()) };
    let devs: Vec<(u32, u32)> = list("--devs")
        .iter()
        .map(|d| {
            let (a, b) = d.split_once(':').unwrap();
            (a.parse().unwrap(), b.parse().unwrap())
        })
        .collect();
    let cfg = Cfg {
        gran: get("--gran").unwrap().parse().unwrap(),
        quantum: get("--quantum").unwrap().parse().unwrap(),
        sites: list("--sites").iter().map(|s| s.parse().unwrap()).collect(),
        collect: false,
    };
    let s = scenarios(prop).into_iter().find(|s| s.name == name).expect("no such scenario");
    let r = execute(unsafe { &mut *mc_ctl() }, &s, &cfg, &devs);
    println!("{name}: status {} {}", r.status, symbolise(&r.msg));
    println!("{}", describe(&r));
    if get("--log").is_some() {
        for l in &r.log {
            println!("  step {} thread {} kind {} site {:#x} of {:b} -> {}", l.step, l.tid, l.kind, l.site, l.mask, l.chosen);
        }
    }
    std::process::exit((r.status != OK) as i32)
}
