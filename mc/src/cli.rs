//! Command line: `check ID`, `replay FILE`, `list`, `bench`, `once`.
use crate::{eng::*, explore::*, Prop, Tier};
use std::{
    fmt::Write as _,
    fs,
    path::{Path, PathBuf},
    time::Instant,
};

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into()))
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Finding {
    prop: String,
    scn: String,
    sig: String,
    what: String,
}
/// `finding: property=ID scenario=NAME sig=SIG | description` (anything else in the file is commentary).
fn findings() -> Vec<Finding> {
    let mut v = vec![];
    for l in fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default().lines() {
        let Some(r) = l.strip_prefix("finding: property=") else { continue };
        let Some((prop, r)) = r.split_once(" scenario=") else { continue };
        let Some((scn, r)) = r.split_once(" sig=") else { continue };
        let Some((sig, what)) = r.split_once(" | ") else { continue };
        v.push(Finding { prop: prop.into(), scn: scn.into(), sig: sig.into(), what: what.into() });
    }
    v
}

fn save(dir: &Path, prop: &str, tier: Tier, f: &Failure, pt: *mut PcTab) -> PathBuf {
    let _ = fs::create_dir_all(dir);
    let n: String = f.sig.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).take(40).collect();
    let path = dir.join(format!("{}-{}.replay", f.scn.replace('/', "-"), n));
    let mut s = format!("property={prop}\ntier={}\nscenario={}\nsig={}\nmsg={}\n", if tier.deep() { "thorough" } else { "quick" }, f.scn, f.sig, f.msg.replace('\n', " "));
    let pt = unsafe { &*pt };
    let pcs: Vec<String> = (0..PCTAB).filter(|&i| pt.active[i] != 0).map(|i| format!("{:x}", pt.pc[i])).collect();
    let _ = writeln!(s, "points={}", pcs.join(","));
    let ch: Vec<String> = f.trace.iter().map(|c| format!("{}.{}.{}.{}", c.n, c.chosen, c.nsched, c.kind)).collect();
    let _ = writeln!(s, "choices={}", ch.join(" "));
    let _ = writeln!(s, "deviations={}", deviations(&f.trace));
    let _ = writeln!(s, "--- log of the violating execution\n{}", f.log);
    let _ = fs::write(&path, s);
    path
}

fn do_replay(file: &str, props: &[Prop]) -> i32 {
    let s = fs::read_to_string(file).expect("replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
    let tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let pt = shm::<PcTab>();
    for (i, x) in get("points").split(',').filter(|x| !x.is_empty()).enumerate() {
        unsafe {
            (*pt).pc[i] = u64::from_str_radix(x, 16).unwrap();
            (*pt).learned[i] = 1;
            (*pt).active[i] = 1;
        }
    }
    let ch: Vec<Choice> = get("choices")
        .split(' ')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let v: Vec<u8> = x.split('.').map(|y| y.parse().unwrap()).collect();
            Choice { n: v[0], chosen: v[1], nsched: v[2], kind: v[3] }
        })
        .collect();
    for p in props {
        for sc in (p.scns)(tier) {
            if sc.name == get("scenario") && p.id == get("property") {
                let r = replay(&sc, &ch, pt, 1);
                println!("{}", r.3);
                let sig = format!("{}:{}", kind_name(r.0), r.1);
                println!("outcome {sig} {}", r.2);
                if sig == get("sig") {
                    println!("reproduced: property={} {}", p.id, sig);
                    return 1;
                }
                println!("not reproduced (recorded: {})", get("sig"));
                return 0;
            }
        }
    }
    eprintln!("no such scenario");
    2
}

fn check(id: &str, p: &Prop, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let known: Vec<Finding> = findings().into_iter().filter(|f| f.prop == id).collect();
    let evdir = root().join("evidence");
    let _ = fs::create_dir_all(&evdir);
    let scns = (p.scns)(tier);
    let n = cpus().len();
    // the time allowed is shared among the scenarios: what one does not use is left to the others
    let budget: f64 = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(75.0, 700.0));
    let (mut execs, mut states, mut edges, mut steps) = (0u64, 0u64, 0u64, 0u64);
    let mut outcomes = 0u64;
    let mut complete = true;
    let mut parts = vec![];
    let mut samples = vec![];
    let mut viol = 0;
    let mut seen_known = vec![false; known.len()];
    let mut bad = 0;
    let total = scns.len();
    for (k, mut s) in scns.into_iter().enumerate() {
        let left = (budget - t0.elapsed().as_secs_f64()).max(0.0);
        let share = left / (total - k) as f64 * 1.5;
        s.cfg.max_s = share.min(left).max(2.0);
        let pt = shm::<PcTab>();
        let o = explore(&s, n, pt, &|sc, sig| known.iter().any(|f| f.scn == sc && f.sig == sig));
        let st = &o.stats;
        println!(
            "{}: {} executions, {} states, {} transitions, {} outcomes; {}{} ({:.1} s)",
            s.name,
            st.execs,
            st.states,
            st.edges,
            st.outcomes,
            if st.completed { "complete".into() } else { format!("bound reached, complete up to {} deviations", st.full_levels) },
            if st.late_points > 0 { format!(", {} program points found late", st.late_points) } else { String::new() },
            st.secs
        );
        execs += st.execs;
        states += st.states;
        edges += st.edges;
        steps += st.steps;
        outcomes += st.outcomes;
        complete &= st.completed && st.late_points == 0;
        if st.diverged > 0 || st.unreproduced > 0 {
            eprintln!("note: {}: {} diverged, {} not reproduced", s.name, st.diverged, st.unreproduced);
            bad += st.diverged + st.unreproduced;
        }
        let mut j = format!(
            "{{\"name\":{},\"what\":{},\"executions\":{},\"states\":{},\"transitions\":{},\"scheduling_points\":{},\"pruned\":{},\"max_choices\":{},\"outcomes\":{},\"schedule_bound\":{},\"fault_bound\":{},\"complete\":{},\"complete_up_to_cost\":{},\"late_points\":{},\"seconds\":{:.2},\"executions_by_cost\":{{",
            js(&s.name), js(s.what), st.execs, st.states, st.edges, st.steps, st.pruned, st.maxdepth, st.outcomes,
            if s.cfg.nosched != 0 { "\"default schedule only\"".to_string() } else { s.cfg.p.to_string() },
            s.cfg.f, st.completed, st.full_levels, st.late_points, st.secs
        );
        let bc: Vec<String> = st.by_cost.iter().map(|((p, f), n)| format!("\"{p} deviations, {f} faults\":{n}")).collect();
        j.push_str(&bc.join(","));
        j.push_str("},\"counters\":[");
        j.push_str(&st.counters.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","));
        j.push_str("]}");
        parts.push(j);
        for x in o.samples.iter().take(3) {
            samples.push(js(x));
        }
        for f in &o.failures {
            if let Some(i) = known.iter().position(|x| x.scn == f.scn && x.sig == f.sig) {
                if !seen_known[i] {
                    println!("KNOWN-FINDING: property={id} {} ({}: {})", known[i].what, f.scn, f.sig);
                }
                seen_known[i] = true;
                continue;
            }
            viol += 1;
            let path = save(&root().join("evidence").join("replays"), id, tier, f, pt);
            println!("{}: {} - {}", f.scn, f.sig, f.msg);
            println!("  deviations {}", deviations(&f.trace));
            println!("VIOLATION property={id} replay={}", path.display());
        }
        unsafe { libc::munmap(pt as _, std::mem::size_of::<PcTab>()) };
        if viol > 0 {
            complete = false;
            break;
        }
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = format!(
        "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{seed},\n\"level\":\"model_checking\",\n\"coverage\":{{\"states\":{states},\"transitions\":{edges},\"traces_validated_against_impl\":{execs},\"scheduling_points\":{steps},\"distinct_observations\":{outcomes},\"exhaustive\":{complete},\"unreproduced\":{bad},\n\"explanation\":\"every execution runs the real library code under a controlled scheduler; states are distinct fingerprints at choice points, transitions are the choices taken from them, traces are the executions judged against the reference oracle\",\n\"samples\":[{}],\n\"scenarios\":[{}]}},\n\"assumptions\":[{}],\n\"wall_s\":{:.2},\n\"violations\":{viol}\n}}\n",
        js(id),
        js(if tier.deep() { "thorough" } else { "quick" }),
        samples.join(",\n"),
        parts.join(",\n"),
        ASSUME.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64()
    );
    fs::write(evdir.join(format!("{id}.json")), ev).expect("evidence");
    println!("{id}: {execs} executions, {states} states, {edges} transitions, {:.1} s, {}", t0.elapsed().as_secs_f64(), if viol == 0 { "no violation" } else { "VIOLATED" });
    if viol > 0 {
        1
    } else {
        0
    }
}
const ASSUME: &[&str] = &[
    "sequentially consistent memory: reorderings of atomic operations weaker than SeqCst are not explored",
    "scheduling points are blocking/communicating libc calls and atomic operations at program points seen shared between threads",
    "simulated processes share one address space; kernel objects (sockets, epoll, eventfd, memfd) are the real ones",
    "the standard library and third-party crates are trusted",
];

/// The first calls are made once here, so that every execution finds the process in the same state. They are tried
/// in a process of their own before: code that does not survive them is left for the scenarios to report.
fn warm_up(warm: fn()) {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::alarm(10);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 2);
            let ok = std::panic::catch_unwind(warm).is_ok();
            libc::_exit(!ok as i32)
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if st == 0 {
            warm()
        }
    }
}

pub fn main(props: Vec<Prop>, warm: fn()) {
    let args: Vec<String> = std::env::args().collect();
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let all = || props.iter().flat_map(|p| (p.scns)(tier)).collect::<Vec<_>>();
    // descriptors of the harness itself stay above those of the executions
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            warm_up(warm);
            match props.iter().find(|p| p.id == args[2]) {
                Some(p) => std::process::exit(check(&args[2], p, tier)),
                None => {
                    eprintln!("no such property");
                    std::process::exit(2)
                }
            }
        }
        Some("replay") => {
            warm_up(warm);
            std::process::exit(do_replay(&args[2], &props))
        }
        Some("list") => {
            for s in all() {
                println!("{} - {}", s.name, s.what)
            }
        }
        Some("bench") => {
            let pat = &args[2];
            let p: Option<u32> = args.get(3).and_then(|s| s.parse().ok());
            let secs: f64 = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(30.0);
            warm_up(warm);
            for mut s in all() {
                if !s.name.contains(pat.as_str()) {
                    continue;
                }
                let pt = shm::<PcTab>();
                if let Some(p) = p {
                    if s.cfg.nosched == 0 {
                        s.cfg.p = p
                    }
                }
                s.cfg.max_s = secs;
                let t = Instant::now();
                let o = explore(&s, cpus().len(), pt, &|_, _| false);
                let st = &o.stats;
                println!(
                    "{}: P={} F={} execs={} states={} outcomes={} depth={} div={} unrep={} restarts={} late={} complete={} full={} counters={:?} {:?} {:.1}s",
                    s.name, s.cfg.p, s.cfg.f, st.execs, st.states, st.outcomes, st.maxdepth, st.diverged, st.unreproduced, st.restarts, st.late_points, st.completed, st.full_levels, &st.counters[..6], st.by_cost, t.elapsed().as_secs_f64()
                );
                for f in &o.failures {
                    let mut log = f.log.clone();
                    if log.len() > 9000 && args.len() < 6 {
                        let at = (log.len() - 9000..).find(|&i| log.is_char_boundary(i)).unwrap();
                        log = log.split_off(at);
                    }
                    println!("FAIL {} {}\n{}\n{}", f.sig, f.msg, deviations(&f.trace), log);
                }
            }
        }
        Some("once") => {
            warm_up(warm);
            let pt = shm::<PcTab>();
            for s in all() {
                if s.name == args[2] {
                    let r = replay(&s, &[], pt, args.get(3).map(|v| v.parse().unwrap()).unwrap_or(1));
                    println!("{}", r.3);
                    println!("{} {} {} choices={}", kind_name(r.0), r.1, r.2, r.4.len());
                }
            }
        }
        _ => {
            eprintln!("usage: mc check ID | replay FILE | list | bench PATTERN [P] [SECS] | once NAME");
            std::process::exit(2)
        }
    }
}
