//! Exhaustive exploration of a scenario: every execution is a forked child whose choices are replayed from
//! a prefix and then default; alternatives are expanded in order of cost (preemptions + faults).
use crate::eng::*;
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    hash::{BuildHasherDefault, Hasher},
    mem, ptr,
    rc::Rc,
    time::{Duration, Instant},
};

#[derive(Clone)]
pub struct Cfg {
    pub p: u32,          // preemption bound
    pub f: u32,          // fault bound
    pub atom: u32,       // 0 no atomics, 1 all, 2 shared program points
    pub horizon: u32,
    pub fair_k: u32,
    pub free_cost: u32,
    pub sndbuf: u32,
    pub nosched: u32,
    pub max_exec: u64,   // cap on executions (0: none)
    pub max_s: f64,      // cap on seconds
    pub prune: bool,
    pub alarm: u32,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { p: 0, f: 0, atom: 2, horizon: 20000, fair_k: 400, free_cost: 0, sndbuf: 0, nosched: 0, max_exec: 0, max_s: 30.0, prune: true, alarm: 30 }
    }
}

#[derive(Clone)]
pub struct Scn {
    pub name: String,
    pub run: fn(u32),
    pub arg: u32,
    pub cfg: Cfg,
    pub what: &'static str,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub scn: String,
    pub kind: &'static str,
    pub sig: String,
    pub msg: String,
    pub trace: Vec<Choice>,
    pub log: String,
    pub p: u32,
    pub f: u32,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub execs: u64,
    pub steps: u64,
    pub choices: u64,
    pub states: u64,
    pub edges: u64,
    pub outcomes: u64,
    pub pruned: u64,
    pub maxdepth: u64,
    pub diverged: u64,
    pub unreproduced: u64,
    pub restarts: u64,
    pub late_points: u64, // program points of shared accesses found too late to be switched at
    pub completed: bool,
    pub full_levels: i64, // every execution of cost <= this was explored
    pub atompoints: u64,
    pub counters: [u64; 16],
    pub cmax: [u64; 16],
    pub secs: f64,
    pub by_cost: BTreeMap<(u32, u32), u64>,
}

#[derive(Default)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) {
        self.0 = v.wrapping_mul(0x9e3779b97f4a7c15)
    }
}
type H = BuildHasherDefault<IdHash>;

pub fn shm<T>() -> *mut T {
    unsafe {
        let p = libc::mmap(ptr::null_mut(), mem::size_of::<T>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut T
    }
}

struct Worker {
    pid: i32,
    to: i32,
    from: i32,
    slot: *mut Slot,
    busy: Option<Item>,
}

#[derive(Clone)]
struct Item {
    t: Option<Rc<Trace>>,
    pos: usize,
    alt: u8,
    p: u32,
    f: u32,
}
struct Trace {
    ch: Vec<Choice>,
    open: Vec<bool>, // positions whose alternatives are expanded here
    p0: u32,
    f0: u32,
    start: usize,
    pcost: Vec<(u32, u32)>, // cost used before each position from start
}
struct Cursor {
    t: Rc<Trace>,
    pos: usize,
    alt: u8,
    dp: u32,
    df: u32,
}

pub struct Pool {
    workers: Vec<Worker>,
    pub pt: *mut PcTab,
}

// which scenario the workers run; set before forking the pool
fn child_main(scn: &Scn, slot: *mut Slot, pt: *mut PcTab, w: usize) -> ! {
    unsafe {
        libc::alarm(scn.cfg.alarm);
        // use the global futex table: the teardown of a private one keeps the memory of ended processes for long
        libc::prctl(78, 1, 0, 0, 0);
        crate::rt::enter(slot, w);
        mc_begin(slot, pt);
        (scn.run)(crate::bus::past(scn.arg));
        mc_end()
    }
}

fn run_one(scn: &Scn, slot: *mut Slot, pt: *mut PcTab, w: usize) {
    unsafe {
        let s = &mut *slot;
        s.nch = 0;
        s.outcome = OUT_NONE;
        s.steps = 0;
        s.preemptions = 0;
        s.faults = 0;
        s.nontrivial = 0;
        s.newpc = 0;
        s.obs = 0;
        s.loglen = 0;
        s.atompoints = 0;
        s.counters = [0; 16];
        s.sig[0] = 0;
        s.msg[0] = 0;
        let pid = libc::fork();
        if pid == 0 {
            // as in programs that are not written in Rust
            libc::signal(libc::SIGPIPE, libc::SIG_DFL);
            child_main(scn, slot, pt, w);
        }
        if pid < 0 {
            s.outcome = OUT_ENGINE;
            return;
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            let (out, name) = if sig == libc::SIGALRM {
                (OUT_HANG, "hang".to_string())
            } else {
                (OUT_CRASH, format!("killed by signal {sig}"))
            };
            if s.outcome == OUT_NONE || s.outcome == OUT_OK {
                s.outcome = out;
                let b = name.as_bytes();
                s.sig[..b.len()].copy_from_slice(b);
                s.sig[b.len()] = 0;
            }
        } else if s.outcome == OUT_NONE {
            s.outcome = OUT_CRASH;
            let b = format!("exit status {}", libc::WEXITSTATUS(st)).into_bytes();
            s.sig[..b.len()].copy_from_slice(&b);
            s.sig[b.len()] = 0;
        }
    }
}

pub fn cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = mem::zeroed();
        libc::sched_getaffinity(0, mem::size_of_val(&set), &mut set);
        (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).collect()
    }
}

impl Pool {
    pub fn new(scn: &Scn, n: usize, pt: *mut PcTab) -> Pool {
        let cpus = cpus();
        let mut workers = vec![];
        for w in 0..n {
            unsafe {
                let slot = shm::<Slot>();
                let mut a = [0; 2];
                let mut b = [0; 2];
                libc::pipe(a.as_mut_ptr());
                libc::pipe(b.as_mut_ptr());
                let pid = libc::fork();
                if pid == 0 {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    for o in &workers {
                        let o: &Worker = o;
                        libc::close(o.to);
                        libc::close(o.from);
                    }
                    libc::close(a[1]);
                    libc::close(b[0]);
                    let mut set: libc::cpu_set_t = mem::zeroed();
                    libc::CPU_SET(cpus[w % cpus.len()], &mut set);
                    libc::sched_setaffinity(0, mem::size_of_val(&set), &set);
                    // keep low descriptors for the engine's tables
                    loop {
                        let mut c = 0u8;
                        if libc::read(a[0], &mut c as *mut u8 as _, 1) != 1 {
                            libc::_exit(0);
                        }
                        run_one(scn, slot, pt, w);
                        libc::write(b[1], &c as *const u8 as _, 1);
                    }
                }
                libc::close(a[0]);
                libc::close(b[1]);
                workers.push(Worker { pid, to: a[1], from: b[0], slot, busy: None });
            }
        }
        Pool { workers, pt }
    }
}
impl Drop for Pool {
    fn drop(&mut self) {
        for w in &self.workers {
            unsafe {
                libc::close(w.to);
                libc::close(w.from);
                let mut st = 0;
                libc::waitpid(w.pid, &mut st, 0);
                libc::munmap(w.slot as _, mem::size_of::<Slot>());
            }
        }
    }
}

fn setup(slot: *mut Slot, c: &Cfg, verbose: u32) {
    unsafe {
        let s = &mut *slot;
        s.horizon = c.horizon;
        s.fair_k = c.fair_k;
        s.atom_mode = c.atom;
        s.free_switch_cost = c.free_cost;
        s.sndbuf = c.sndbuf;
        s.nosched = c.nosched;
        s.verbose = verbose;
    }
}

pub fn kind_name(o: u32) -> &'static str {
    match o {
        OUT_OK => "ok",
        OUT_FAIL => "oracle",
        OUT_DEADLOCK => "deadlock",
        OUT_HORIZON => "no-progress",
        OUT_DIVERGED => "diverged",
        OUT_PANIC => "panic",
        OUT_CRASH => "crash",
        OUT_HANG => "hang",
        _ => "engine",
    }
}

/// One execution in this process' child, with the given choices. Returns (outcome, sig, msg, log, choices).
pub fn replay(scn: &Scn, trace: &[Choice], pt: *mut PcTab, verbose: u32) -> (u32, String, String, String, Vec<Choice>) {
    let slot = shm::<Slot>();
    setup(slot, &scn.cfg, verbose);
    unsafe {
        let s = &mut *slot;
        s.prefix_len = trace.len() as u32;
        s.prefix[..trace.len()].copy_from_slice(trace);
        run_one(scn, slot, pt, 63);
        let r = (s.outcome, cstr(&s.sig), cstr(&s.msg), String::from_utf8_lossy(&s.log[..s.loglen as usize]).into_owned(), s.ch[..s.nch as usize].to_vec());
        libc::munmap(slot as _, mem::size_of::<Slot>());
        r
    }
}

fn activate(pt: *mut PcTab) -> bool {
    let pt = unsafe { &mut *pt };
    let mut ch = false;
    for i in 0..PCTAB {
        if pt.learned[i] != 0 && pt.active[i] == 0 {
            pt.active[i] = 1;
            ch = true;
        }
    }
    ch
}

pub struct Outcome {
    pub stats: Stats,
    pub failures: Vec<Failure>,
    pub samples: Vec<String>,
}

pub fn explore(scn: &Scn, nworkers: usize, pt: *mut PcTab, known: &dyn Fn(&str, &str) -> bool) -> Outcome {
    if scn.cfg.atom == 2 {
        // find the program points of shared accesses with a cheap exploration first
        let mut l = Scn { name: scn.name.clone(), run: scn.run, arg: scn.arg, cfg: scn.cfg.clone(), what: scn.what };
        l.cfg.p = 1;
        l.cfg.f = l.cfg.f.min(1);
        l.cfg.free_cost = 1;
        l.cfg.max_s = (scn.cfg.max_s * 0.1).min(3.0);
        explore_(&l, nworkers, pt, known, true);
    }
    explore_(scn, nworkers, pt, known, false)
}

fn explore_(scn: &Scn, nworkers: usize, pt: *mut PcTab, known: &dyn Fn(&str, &str) -> bool, learning: bool) -> Outcome {
    let t0 = Instant::now();
    let mut failures: Vec<Failure> = vec![];
    let mut restarts = 0;
    let late = std::cell::Cell::new(false);
    'restart: loop {
        let mut pool = Pool::new(scn, nworkers, pt);
        let mut st = Stats { restarts, full_levels: -1, ..Default::default() };
        let c = &scn.cfg;
        let nlev = (c.p + c.f + 1) as usize;
        let mut stacks: Vec<Vec<Cursor>> = (0..nlev).map(|_| vec![]).collect();
        let mut inflight = vec![0u64; nlev];
        let mut visited: HashMap<u64, (u8, u8), H> = HashMap::default();
        let mut outcomes: HashSet<u64, H> = HashSet::default();
        let mut root = Some(Item { t: None, pos: 0, alt: 0, p: 0, f: 0 });
        let mut stop = false;
        let mut newfail = false;
        let mut sigs: HashSet<String> = HashSet::new();
        let mut samples: Vec<String> = vec![];
        failures.clear();
        loop {
            if t0.elapsed().as_secs_f64() > c.max_s || (c.max_exec > 0 && st.execs >= c.max_exec) {
                stop = true;
            }
            // hand out work
            if !stop && !newfail {
                for wi in 0..pool.workers.len() {
                    if pool.workers[wi].busy.is_some() {
                        continue;
                    }
                    let item = match root.take() {
                        Some(r) => Some(r),
                        None => next_item(&mut stacks, c),
                    };
                    let Some(item) = item else { break };
                    let w = &mut pool.workers[wi];
                    unsafe {
                        let s = &mut *w.slot;
                        setup(w.slot, c, 0);
                        if let Some(t) = &item.t {
                            s.prefix[..=item.pos].copy_from_slice(&t.ch[..=item.pos]);
                            s.prefix[item.pos].chosen = item.alt;
                            s.prefix_len = item.pos as u32 + 1;
                        } else {
                            s.prefix_len = 0;
                        }
                        libc::write(w.to, b"x".as_ptr() as _, 1);
                    }
                    inflight[(item.p + item.f) as usize] += 1;
                    w.busy = Some(item);
                }
            }
            let busy: Vec<usize> = (0..pool.workers.len()).filter(|&i| pool.workers[i].busy.is_some()).collect();
            if busy.is_empty() {
                break;
            }
            let mut pf: Vec<libc::pollfd> = busy.iter().map(|&i| libc::pollfd { fd: pool.workers[i].from, events: libc::POLLIN, revents: 0 }).collect();
            unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as _, -1) };
            for (k, &wi) in busy.iter().enumerate() {
                if pf[k].revents == 0 {
                    continue;
                }
                let w = &mut pool.workers[wi];
                let mut b = 0u8;
                if unsafe { libc::read(w.from, &mut b as *mut u8 as _, 1) } != 1 {
                    panic!("worker died");
                }
                let item = w.busy.take().unwrap();
                inflight[(item.p + item.f) as usize] -= 1;
                let s = unsafe { &*w.slot };
                st.execs += 1;
                *st.by_cost.entry((item.p, item.f)).or_default() += 1;
                st.steps += s.steps as u64;
                st.atompoints += s.atompoints as u64;
                st.choices += s.nch as u64;
                st.maxdepth = st.maxdepth.max(s.nch as u64);
                for i in 0..16 {
                    st.counters[i] += s.counters[i];
                    st.cmax[i] = st.cmax[i].max(s.counters[i]);
                }
                if s.outcome == OUT_DIVERGED {
                    st.diverged += 1;
                    if st.diverged <= 3 {
                        eprintln!("note: {}: {}", scn.name, cstr(&s.msg));
                    }
                    continue;
                }
                let ch: Vec<Choice> = s.ch[..s.nch as usize].to_vec();
                if s.outcome == OUT_OK {
                    if outcomes.insert(s.obs) && samples.len() < 4 {
                        samples.push(format!("{} [p={} f={}] {} steps, {} choices, observation {:016x}, deviations {}", scn.name, item.p, item.f, s.steps, s.nch, s.obs, deviations(&ch)));
                    }
                } else if s.outcome == OUT_ENGINE {
                    eprintln!("ENGINE ERROR {}: {} {}", scn.name, cstr(&s.sig), cstr(&s.msg));
                    std::process::exit(2);
                } else {
                    let sig = format!("{}:{}", kind_name(s.outcome), cstr(&s.sig));
                    if sigs.insert(sig.clone()) {
                        let msg = cstr(&s.msg);
                        // confirm twice, the second time with the log on
                        let mut ok = 0;
                        let mut log = String::new();
                        for v in 0..2 {
                            let r = replay(scn, &ch, pt, v);
                            if format!("{}:{}", kind_name(r.0), r.1) == sig {
                                ok += 1;
                                log = r.3;
                            }
                        }
                        if ok == 2 {
                            let fl = Failure { scn: scn.name.clone(), kind: kind_name(s.outcome), sig: sig.clone(), msg, trace: ch.clone(), log, p: item.p, f: item.f };
                            if !known(&scn.name, &sig) {
                                newfail = true;
                            }
                            failures.push(fl);
                        } else {
                            st.unreproduced += 1;
                            sigs.remove(&sig);
                            eprintln!("note: {}: failure {} did not reproduce ({ok}/2)", scn.name, sig);
                        }
                    }
                }
                // expand
                let start = item.t.as_ref().map(|_| item.pos + 1).unwrap_or(0);
                let mut open = vec![false; ch.len()];
                let (mut p, mut f) = (item.p, item.f);
                let mut pcost = Vec::with_capacity(ch.len().saturating_sub(start));
                for i in start..ch.len() {
                    pcost.push((p, f));
                    // defaults cost nothing
                    let key = s.chst[i];
                    let seen = visited.get(&key).copied();
                    let dom = matches!(seen, Some((vp, vf)) if vp as u32 <= p && vf as u32 <= f);
                    if dom && c.prune {
                        st.pruned += 1;
                    } else {
                        if !dom {
                            visited.insert(key, (p as u8, f as u8));
                        }
                        open[i] = true;
                        st.edges += 1;
                    }
                    let _ = (&mut p, &mut f);
                }
                if item.t.is_some() {
                    st.edges += 1;
                }
                let t = Rc::new(Trace { ch, open, p0: item.p, f0: item.f, start, pcost });
                for (dp, df) in [(0u32, 0u32), (1, 0), (0, 1)] {
                    let (np, nf) = (t.p0 + dp, t.f0 + df);
                    if np <= c.p && nf <= c.f && (start < t.ch.len()) {
                        stacks[(np + nf) as usize].push(Cursor { t: t.clone(), pos: t.ch.len(), alt: 0, dp, df });
                    }
                }
                if s.newpc > 0 && c.atom == 2 && !learning && t0.elapsed().as_secs_f64() > c.max_s * 0.15 {
                    late.set(true);
                } else if s.newpc > 0 && c.atom == 2 && !newfail && activate(pt) {
                    // program points of shared accesses not known so far: start again with them
                    restarts += 1;
                    drop(pool);
                    continue 'restart;
                }
            }
        }
        let empty = stacks.iter().all(|s| s.is_empty()) && root.is_none();
        st.completed = empty && !newfail;
        if late.get() {
            st.late_points = unsafe { (0..PCTAB).filter(|&i| (*pt).learned[i] != 0 && (*pt).active[i] == 0).count() as u64 };
        }
        // lowest level with work left
        let mut full = c.p as i64 + c.f as i64;
        for (l, s) in stacks.iter().enumerate() {
            if !s.is_empty() {
                full = l as i64 - 1;
                break;
            }
        }
        st.full_levels = if newfail && !empty { full } else { full };
        st.states = visited.len() as u64;
        st.outcomes = outcomes.len() as u64;
        st.secs = t0.elapsed().as_secs_f64();
        return Outcome { stats: st, failures, samples };
    }
}

pub fn deviations(ch: &[Choice]) -> String {
    let mut v = vec![];
    for (i, c) in ch.iter().enumerate() {
        if c.chosen != 0 || c.kind == CH_DATA {
            v.push(format!("{}@{i}={}/{}", ["switch", "pick", "data", "fault"][c.kind as usize], c.chosen, c.n));
        }
        if v.len() > 24 {
            v.push("...".into());
            break;
        }
    }
    format!("[{}]", v.join(" "))
}

fn next_item(stacks: &mut [Vec<Cursor>], c: &Cfg) -> Option<Item> {
    for l in 0..stacks.len() {
        while let Some(cur) = stacks[l].last_mut() {
            // walk from the last position back to the start
            let t = cur.t.clone();
            let mut found = None;
            loop {
                if cur.pos == t.ch.len() || cur.alt == 0 {
                    // move to the previous open position
                    let mut p = cur.pos;
                    loop {
                        if p == t.start {
                            p = usize::MAX;
                            break;
                        }
                        p -= 1;
                        if t.open[p] && t.ch[p].n > 1 {
                            break;
                        }
                    }
                    if p == usize::MAX {
                        break;
                    }
                    cur.pos = p;
                    cur.alt = 1;
                }
                let ch = t.ch[cur.pos];
                let a = cur.alt;
                cur.alt = if a + 1 < ch.n { a + 1 } else { 0 };
                let (dp, df) = if ch.kind == CH_FAULT || a >= ch.nsched {
                    (0, 1)
                } else if ch.kind == CH_PREEMPT || (ch.kind == CH_FREE && c.free_cost != 0) {
                    (1, 0)
                } else {
                    (0, 0)
                };
                if (dp, df) == (cur.dp, cur.df) {
                    let _ = &t.pcost;
                    found = Some(Item { t: Some(t.clone()), pos: cur.pos, alt: a, p: t.p0 + dp, f: t.f0 + df });
                    break;
                }
            }
            match found {
                Some(i) => {
                    debug_assert!(i.p <= c.p && i.f <= c.f);
                    return Some(i);
                }
                None => {
                    stacks[l].pop();
                }
            }
        }
    }
    None
}

pub fn time_left(t0: Instant, total: f64) -> Duration {
    Duration::from_secs_f64((total - t0.elapsed().as_secs_f64()).max(0.0))
}
