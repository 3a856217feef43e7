//! Deterministic simulation of the asset, bridge and proxy programs and their client libraries.
//!
//!   nifty-dst check <Cnn> <quick|thorough>     search, evidence, verdict
//!   nifty-dst replay <file>                    re-executes a replay file
//!   nifty-dst all <seconds> [seed]             every property at once (development)

mod check;
mod enc;
mod ext;
mod gen;
mod js;
mod prof;
mod readers;
mod relay;
mod rt;
mod spec;
mod tm;
mod upload;
mod world;

use gen::Rng;
use rt::{NOW, PROGRESS};
use serde_json::{json, Value};
use spec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};
use world::{names, Stats, World};

// ------------------------------------------------------------------ one run

#[derive(Clone, PartialEq)]
struct Plan {
    prop: u32,
    world: u64,
    /// (seed, calm): a calm step has no network fault
    steps: Vec<(u64, bool)>,
    wind: Option<u64>,
}

fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.rotate_left(17) ^ 0xD1B54A32D192ED03).next()
}

fn plan(prop: u32, seed: u64, index: u64) -> Plan {
    let s = mix(mix(seed, prop as u64), index);
    let mut r = Rng::new(s ^ 1);
    let p = prof::profile(prop, s);
    let steps = (0..p.steps).map(|_| (r.next(), false)).collect();
    let wind = r.chance(p.wind_pct).then(|| r.next());
    Plan { prop, world: s, steps, wind }
}

struct Out {
    viol: Option<(Props, String)>,
    known: BTreeSet<String>,
    step: usize,
    stats: Stats,
    states: BTreeSet<u64>,
    trace: Option<Vec<String>>,
    digest: u64,
    sick: Option<String>,
}

/// The listed findings: (properties, substring of the violation text).
static mut KNOWN: Option<Vec<(Props, String)>> = None;

fn known() -> &'static [(Props, String)] {
    unsafe {
        (*std::ptr::addr_of_mut!(KNOWN)).get_or_insert_with(|| {
            (1..=23)
                .flat_map(|p| known_of(p).into_iter().map(move |s| (1 << p, s)))
                .collect()
        })
    }
}

/// A listed finding does not end the run, so that it hides nothing else.
fn set_aside(v: &mut Vec<check::Viol>, hits: &mut BTreeSet<String>) {
    for (props, s) in known() {
        v.retain_mut(|x| {
            if x.props & props != 0 && x.what.contains(s.as_str()) {
                hits.insert(s.clone());
                x.props &= !props;
            }
            x.props != 0
        });
    }
}

/// Executes a plan; stops at the first violation of a property in `mask`.
fn run(p: &Plan, mask: Props, trace: bool) -> Out {
    let mut w = World::new(prof::profile(p.prop, p.world), p.world);
    if trace {
        w.trace = Some(vec![]);
    }
    let mut at = 0;
    let mut sick = None;
    let mut hits = BTreeSet::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut all = vec![];
        for (i, (s, calm)) in p.steps.iter().enumerate() {
            at = i;
            STEP.store(i as u64, Relaxed);
            w.calm(*calm);
            w.step(*s);
            set_aside(&mut w.viols, &mut hits);
            all.append(&mut w.viols);
            if all.iter().any(|v| v.props & mask != 0) {
                break;
            }
        }
        if let (Some(s), true) = (p.wind, !all.iter().any(|v| v.props & mask != 0)) {
            at = p.steps.len();
            STEP.store(at as u64, Relaxed);
            w.wind_down(s);
            set_aside(&mut w.viols, &mut hits);
            all.append(&mut w.viols);
        }
        all
    }));
    let all = match r {
        Ok(v) => v,
        Err(e) => {
            sick = Some(readers::panic_text(e));
            std::mem::take(&mut w.viols)
        }
    };
    let viol = all.into_iter().find(|v| v.props & mask != 0).map(|v| (v.props, v.what));
    w.stats.runs = 1;
    let digest = w.digest();
    Out {
        viol,
        known: hits,
        step: at,
        stats: std::mem::take(&mut w.stats),
        states: std::mem::take(&mut w.states),
        trace: w.trace.take(),
        digest,
        sick,
    }
}

// ------------------------------------------------------------------ hangs and crashes

static STEP: AtomicU64 = AtomicU64::new(0);
static RUN: AtomicU64 = AtomicU64::new(0);
static STATUS: AtomicI32 = AtomicI32::new(-1);

fn last_words(kind: u8) -> ! {
    // async-signal-safe: one write of fixed-size fields
    let mut b = [0u8; 25];
    b[0] = kind;
    b[1..9].copy_from_slice(&RUN.load(Relaxed).to_le_bytes());
    b[9..17].copy_from_slice(&STEP.load(Relaxed).to_le_bytes());
    b[17..25].copy_from_slice(&NOW.load(Relaxed).to_le_bytes());
    unsafe {
        libc::write(STATUS.load(Relaxed), b.as_ptr() as *const _, b.len());
        libc::_exit(70)
    }
}

extern "C" fn on_signal(_: i32) {
    last_words(b'C')
}

fn cpu() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

fn guard(status: &str) {
    let c = std::ffi::CString::new(status).unwrap();
    unsafe {
        let fd = libc::open(c.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC, 0o600);
        STATUS.store(fd, Relaxed);
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_signal as usize;
        a.sa_flags = libc::SA_ONSTACK;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
    std::thread::spawn(|| {
        let mut last = (PROGRESS.load(Relaxed), cpu());
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let n = PROGRESS.load(Relaxed);
            if n != last.0 {
                last = (n, cpu());
            } else if cpu() - last.1 > 6.0 {
                last_words(b'H');
            }
        }
    });
}

/// Which properties a hang or a crash at this place concerns.
fn blame(now: u64) -> (Props, String) {
    match now {
        0..=17 => (op_props(now as u8) | C18 | C21, format!("{} of the asset program", OPS[now as usize])),
        100 => (C20, "reading an account with the libraries".into()),
        101 => (C19, "building a request with the libraries".into()),
        200 => (C16 | C17 | C18, "the bridge program".into()),
        300 => (C15 | C18, "the proxy program".into()),
        400 => (C11 | C19 | C18, "a calling program using the libraries".into()),
        _ => (0, "the harness".into()),
    }
}

// ------------------------------------------------------------------ results

fn add(a: &mut Stats, b: &Stats) {
    a.runs += b.runs;
    a.steps += b.steps;
    a.txs += b.txs;
    a.committed += b.committed;
    a.frames += b.frames;
    a.evaluations += b.evaluations;
    a.sim_seconds += b.sim_seconds;
    a.reads += b.reads;
    a.builds += b.builds;
    a.surveyed += b.surveyed;
    for (k, n) in &b.accepted {
        *a.accepted.entry(k.clone()).or_default() += n;
    }
    for (k, n) in &b.refused {
        *a.refused.entry(k.clone()).or_default() += n;
    }
    for (k, n) in &b.sole {
        *a.sole.entry(k.clone()).or_default() += n;
    }
    for (k, n) in &b.faults {
        *a.faults.entry(k).or_default() += n;
    }
}

fn stats_json(s: &Stats) -> Value {
    json!({"runs": s.runs, "steps": s.steps, "txs": s.txs, "committed": s.committed, "frames": s.frames,
           "evaluations": s.evaluations, "sim_seconds": s.sim_seconds, "reads": s.reads, "builds": s.builds, "surveyed": s.surveyed,
           "accepted": s.accepted, "refused": s.refused, "sole": s.sole, "faults": s.faults})
}

fn plan_json(p: &Plan) -> Value {
    json!({"property": format!("C{:02}", p.prop), "world_seed": format!("{:016x}", p.world),
           "steps": p.steps.iter().map(|(s, c)| json!([format!("{s:016x}"), *c])).collect::<Vec<_>>(),
           "wind_down": p.wind.map(|w| format!("{w:016x}"))})
}

fn hex(v: &Value) -> u64 {
    u64::from_str_radix(v.as_str().expect("hex string"), 16).expect("hex number")
}

fn plan_of(v: &Value) -> Plan {
    Plan {
        prop: v["property"].as_str().unwrap()[1..].parse().unwrap(),
        world: hex(&v["world_seed"]),
        steps: v["steps"].as_array().unwrap().iter().map(|x| (hex(&x[0]), x[1].as_bool().unwrap())).collect(),
        wind: if v["wind_down"].is_null() { None } else { Some(hex(&v["wind_down"])) },
    }
}

// ------------------------------------------------------------------ worker

/// Runs indices `first, first+stride, ...` below `count`, until the first violation.
fn work(prop: u32, seed: u64, first: u64, stride: u64, count: u64, cap: f64, dir: &str) {
    guard(&format!("{dir}/status{first}"));
    let t = Instant::now();
    let mask = 1 << prop;
    let mut total = Stats::default();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut digests = 0u64;
    let mut found = Value::Null;
    let mut sick = vec![];
    let mut hits: BTreeSet<String> = BTreeSet::new();
    let mut i = first;
    let mut capped = false;
    while i < count {
        if t.elapsed().as_secs_f64() > cap {
            capped = true;
            break;
        }
        RUN.store(i, Relaxed);
        let o = run(&plan(prop, seed, i), mask, false);
        add(&mut total, &o.stats);
        states.extend(o.states);
        hits.extend(o.known);
        digests = digests.wrapping_add(mix(i, o.digest));
        if let Some(s) = o.sick {
            sick.push(format!("run {i}: {s}"));
        }
        if let Some((_, what)) = o.viol {
            found = json!({"index": i, "what": what});
            break;
        }
        i += stride;
    }
    let mut b = Vec::with_capacity(states.len() * 8);
    for s in &states {
        b.extend(s.to_le_bytes());
    }
    let _ = std::fs::write(format!("{dir}/states{first}"), b);
    sick.truncate(5);
    println!(
        "{}",
        json!({"stats": stats_json(&total), "digest": digests, "found": found, "capped": capped, "sick": sick, "known": hits})
    );
}

/// Executes one plan from a file in this (expendable) process.
fn try_plan(file: &str, status: &str) {
    guard(status);
    let p = plan_of(&serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap());
    let o = run(&p, 1 << p.prop, false);
    println!("{}", json!({"viol": o.viol.map(|v| v.1), "step": o.step}));
}

struct Pool {
    dir: String,
}

impl Pool {
    fn new() -> Pool {
        let dir = format!("{}/nifty-dst-{}", std::env::temp_dir().display(), std::process::id());
        std::fs::create_dir_all(&dir).expect("scratch directory");
        Pool { dir }
    }
}
impl Drop for Pool {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn me() -> Command {
    Command::new(std::env::current_exe().expect("own path"))
}

/// What became of a child: its JSON, or the (kind, run, step, now) of its last words.
enum End {
    Json(Value),
    Dead(u8, u64, u64, u64),
    Lost(String),
}

fn reap(c: std::process::Child, status: &str) -> End {
    let o = match c.wait_with_output() {
        Ok(o) => o,
        Err(e) => return End::Lost(e.to_string()),
    };
    if o.status.success() {
        if let Ok(v) = serde_json::from_slice(&o.stdout) {
            return End::Json(v);
        }
    }
    if let Ok(b) = std::fs::read(status) {
        if b.len() == 25 {
            let u = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
            return End::Dead(b[0], u(1), u(9), u(17));
        }
    }
    End::Lost(format!("{} {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(400).collect::<String>()))
}

/// Outcome of a plan in a child process: the violation it shows, if any.
fn isolated(p: &Plan, pool: &Pool) -> Option<String> {
    let f = format!("{}/try.json", pool.dir);
    let st = format!("{}/try.status", pool.dir);
    let _ = std::fs::remove_file(&st);
    std::fs::write(&f, plan_json(p).to_string()).ok()?;
    let c = me().args(["try", &f, &st]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    match reap(c, &st) {
        End::Json(v) => v["viol"].as_str().map(|s| s.to_string()),
        End::Dead(k, _, _, now) => {
            let (props, s) = blame(now);
            (props & (1 << p.prop) != 0).then(|| dead_text(k, &s))
        }
        End::Lost(_) => None,
    }
}

fn dead_text(k: u8, s: &str) -> String {
    format!("{} in {s}", if k == b'H' { "does not terminate:" } else { "memory corruption or exhaustion:" })
}

// ------------------------------------------------------------------ minimisation

fn minimise(p: &Plan, deadly: bool, pool: &Pool, budget: f64) -> (Plan, u64) {
    let t = Instant::now();
    let mask = 1 << p.prop;
    let mut tries = 0;
    let mut bad = |q: &Plan| -> Option<usize> {
        tries += 1;
        if deadly {
            isolated(q, pool).map(|_| q.steps.len())
        } else {
            let o = run(q, mask, false);
            o.viol.map(|_| o.step)
        }
    };
    let mut best = p.clone();
    if let Some(n) = bad(&best) {
        if n < best.steps.len() {
            best.steps.truncate(n + 1);
            best.wind = None;
        }
    }
    if best.wind.is_some() {
        let mut q = best.clone();
        q.wind = None;
        if bad(&q).is_some() {
            best = q;
        }
    }
    let mut size = (best.steps.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut shrunk = false;
        while i < best.steps.len() && t.elapsed().as_secs_f64() < budget {
            let mut q = best.clone();
            q.steps.drain(i..(i + size).min(q.steps.len()));
            match bad(&q) {
                Some(n) => {
                    if n < q.steps.len() {
                        q.steps.truncate(n + 1);
                    }
                    best = q;
                    shrunk = true;
                }
                None => i += size,
            }
        }
        if t.elapsed().as_secs_f64() >= budget || (size == 1 && !shrunk) {
            break;
        }
        size = if size == 1 { 1 } else { size / 2 };
    }
    for i in 0..best.steps.len() {
        if t.elapsed().as_secs_f64() < budget && !best.steps[i].1 {
            let mut q = best.clone();
            q.steps[i].1 = true;
            if bad(&q).is_some() {
                best = q;
            }
        }
    }
    (best, tries)
}

// ------------------------------------------------------------------ check

fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Known findings of a property: substrings of the violation text.
fn known_of(prop: u32) -> Vec<String> {
    let tag = format!("known: property=C{prop:02} ");
    std::fs::read_to_string(format!("{}/known-findings.txt", verif()))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&tag).map(|s| s.trim().to_string()))
        .collect()
}

fn check_cmd(prop: u32, tier: &str) -> i32 {
    let t = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let id = format!("C{prop:02}");
    let pool = Pool::new();
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8) as u64;
    let (count, cap) = budget(prop, tier);
    let mut total = Stats::default();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut first: Option<(u64, String, bool)> = None;
    let mut sick: Vec<String> = vec![];
    let mut capped = false;
    let mut digest = 0u64;
    let mut hits: BTreeSet<String> = BTreeSet::new();
    let kids: Vec<_> = (0..n)
        .map(|i| {
            let a: Vec<String> = ["work".into(), prop.to_string(), seed.to_string(), i.to_string(), n.to_string()]
                .into_iter()
                .chain([count.to_string(), cap.to_string(), pool.dir.clone()])
                .collect();
            me().args(&a).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("worker")
        })
        .collect();
    // collect in parallel so that no pipe fills up
    let ends: Vec<End> = kids
        .into_iter()
        .enumerate()
        .map(|(i, k)| {
            let st = format!("{}/status{i}", pool.dir);
            std::thread::spawn(move || reap(k, &st))
        })
        .collect::<Vec<_>>()
        .into_iter()
        .map(|h| h.join().expect("reaper"))
        .collect();
    let keep = |i: u64, what: String, deadly: bool, first: &mut Option<(u64, String, bool)>| {
        if first.as_ref().map(|f| i < f.0).unwrap_or(true) {
            *first = Some((i, what, deadly));
        }
    };
    for (i, e) in ends.into_iter().enumerate() {
        match e {
            End::Json(v) => {
                merge(&mut total, &v["stats"]);
                digest = digest.wrapping_add(v["digest"].as_u64().unwrap_or(0));
                capped |= v["capped"].as_bool().unwrap_or(false);
                for s in v["known"].as_array().into_iter().flatten() {
                    hits.insert(s.as_str().unwrap_or("").into());
                }
                for s in v["sick"].as_array().into_iter().flatten() {
                    sick.push(s.as_str().unwrap_or("").into());
                }
                if let Some(k) = v["found"]["index"].as_u64() {
                    keep(k, v["found"]["what"].as_str().unwrap_or("").into(), false, &mut first);
                }
                if let Ok(mut f) = std::fs::File::open(format!("{}/states{i}", pool.dir)) {
                    let mut b = vec![];
                    let _ = f.read_to_end(&mut b);
                    states.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                }
            }
            End::Dead(k, run, _, now) => {
                let (props, s) = blame(now);
                if props & (1 << prop) != 0 {
                    keep(run, dead_text(k, &s), true, &mut first);
                } else {
                    eprintln!("note: run {run} died ({}) in {s}, which does not concern {id}", k as char);
                    total.runs += 1;
                    if props == 0 {
                        sick.push(format!("run {run} died in {s}"));
                    }
                }
            }
            End::Lost(s) => sick.push(format!("worker {i} lost: {s}")),
        }
    }
    // one seed is one execution: the first runs again, in this process
    let mut repeat = true;
    if first.is_none() && sick.is_empty() {
        for i in 0..3 {
            let p = plan(prop, seed, i);
            repeat &= run(&p, 1 << prop, false).digest == run(&p, 1 << prop, false).digest;
        }
        if !repeat {
            sick.push("a repeated run diverged".into());
        }
    }
    let mut code = 0;
    let mut viols = vec![];
    if let Some((index, what, deadly)) = first {
        let p = plan(prop, seed, index);
        let list = known_of(prop);
        if let Some(k) = list.iter().find(|k| what.contains(k.as_str())) {
            hits.insert(k.clone());
        } else {
            let (q, tries) = minimise(&p, deadly, &pool, if tier == "quick" { 25.0 } else { 60.0 });
            let (what, trace) = if deadly {
                (isolated(&q, &pool).unwrap_or(what), vec!["the run kills the process; see the steps".to_string()])
            } else {
                let o = run(&q, 1 << prop, true);
                (o.viol.map(|v| v.1).unwrap_or(what), o.trace.unwrap_or_default())
            };
            let dir = format!("{}/replays", verif());
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{id}-{seed}-{index}.json");
            let mut v = plan_json(&q);
            v["violation"] = json!(what);
            v["deadly"] = json!(deadly);
            v["found"] = json!({"verif_seed": seed, "run": index, "steps": p.steps.len(), "minimised_steps": q.steps.len(),
                                "minimisation_runs": tries});
            v["trace"] = json!(trace);
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("replay file");
            println!("{what}");
            println!("VIOLATION property={id} replay={path}");
            viols.push(json!({"what": what, "replay": path}));
            code = 1;
        }
    }
    for k in &hits {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    for s in sick.iter().take(5) {
        eprintln!("harness: {s}");
    }
    if code == 0 && !sick.is_empty() {
        code = 2;
    }
    let wall = t.elapsed().as_secs_f64();
    evidence(prop, tier, seed, &total, states.len(), capped, digest, repeat, viols, wall);
    println!(
        "{id} {tier}: {} runs, {} transactions, {} judged, {} distinct states, {:.1} s",
        total.runs,
        total.txs,
        total.evaluations,
        states.len(),
        wall
    );
    code
}

fn merge(a: &mut Stats, v: &Value) {
    let n = |k: &str| v[k].as_u64().unwrap_or(0);
    a.runs += n("runs");
    a.steps += n("steps");
    a.txs += n("txs");
    a.committed += n("committed");
    a.frames += n("frames");
    a.evaluations += n("evaluations");
    a.sim_seconds += n("sim_seconds");
    a.reads += n("reads");
    a.builds += n("builds");
    a.surveyed += n("surveyed");
    for (k, d) in [("accepted", 0), ("refused", 1), ("sole", 2)] {
        for (s, c) in v[k].as_object().into_iter().flatten() {
            let m = match d {
                0 => &mut a.accepted,
                1 => &mut a.refused,
                _ => &mut a.sole,
            };
            *m.entry(s.clone()).or_default() += c.as_u64().unwrap_or(0);
        }
    }
    for (s, c) in v["faults"].as_object().into_iter().flatten() {
        let s: &'static str = Box::leak(s.clone().into_boxed_str());
        *a.faults.entry(s).or_default() += c.as_u64().unwrap_or(0);
    }
}

/// (runs, cap in seconds)
fn budget(prop: u32, tier: &str) -> (u64, f64) {
    let quick = match prop {
        16 | 17 => 24000,
        22 | 23 => 22000,
        _ => 30000,
    };
    if tier == "quick" {
        (quick, 120.0)
    } else {
        (quick * 25, 1500.0)
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: u32,
    tier: &str,
    seed: u64,
    s: &Stats,
    states: usize,
    capped: bool,
    digest: u64,
    repeat: bool,
    viols: Vec<Value>,
    wall: f64,
) {
    let p = plan(prop, seed, 0);
    let sample: Vec<String> = run(&p, 0, true).trace.unwrap_or_default().into_iter().take(40).collect();
    let v = json!({
        "property": format!("C{prop:02}"),
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.evaluations,
            "distinct_nontrivial": states,
            "rule": "A case is one judged event of a simulated run: a program frame compared with the reference model, a whole-chain invariant pass after a committed transaction, a reader or builder comparison, or a bounded-progress check. Runs are generated by a seeded scheduler that picks clients, requests, wrong parties, instruction orders, delivery faults and crash points. distinct_nontrivial counts the distinct on-chain states (contents of all asset and vault accounts) reached by committed transactions.",
            "samples": [{"run": 0, "world_seed": format!("{:016x}", p.world), "trace": sample}],
            "simulated_runs": s.runs,
            "seeds_per_hour": if wall > 0.0 { (s.runs as f64 / wall * 3600.0) as u64 } else { 0 },
            "simulated_seconds": s.sim_seconds,
            "scheduler_steps": s.steps,
            "transactions": s.txs,
            "transactions_committed": s.committed,
            "program_frames": s.frames,
            "accounts_read_back": s.reads,
            "requests_built": s.builds,
            "hypothetical_transactions": s.surveyed,
            "faults_injected": s.faults,
            "accepted_by_path": s.accepted,
            "refused_by_path": s.refused,
            "refused_with_one_thing_wrong": s.sole,
            "stopped_by_time_cap": capped,
            "found": viols,
            "run_digest": format!("{digest:016x}"),
            "repeat_runs_identical": repeat,
            "real_code": ["programs/asset/program", "programs/asset/types", "programs/asset/interface", "programs/bridge", "programs/proxy", "clients/rust/asset", "clients/rust/bridge"],
            "stubbed": ["Solana runtime (accounts, rent, CPI, privileges, rollback)", "system program", "nitrate CPI syscalls", "Token Metadata / SPL Token / ATA programs", "relay and market programs (test callers)"]
        },
        "assumptions": [
            "the simulated runtime follows the Solana rules listed in DESIGN.md (ownership, rent, privileges, realloc limit, atomic transactions)",
            "the Token Metadata stub moves a token only for the account's authority, as the real program does"
        ],
        "wall_s": wall,
        "violations": viols.len(),
    });
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/C{prop:02}.json"), serde_json::to_string_pretty(&v).unwrap()).expect("evidence");
}

// ------------------------------------------------------------------ replay

fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
    let p = plan_of(&v);
    let id = format!("C{:02}", p.prop);
    let (what, trace) = if v["deadly"].as_bool().unwrap_or(false) {
        (isolated(&p, &Pool::new()), vec![])
    } else {
        let o = run(&p, 1 << p.prop, true);
        (o.viol.map(|v| v.1), o.trace.unwrap_or_default())
    };
    for l in &trace {
        println!("{l}");
    }
    match what {
        Some(w) => {
            println!("{w}");
            if let Some(old) = v["violation"].as_str() {
                println!("{}", if old == w { "same violation as recorded" } else { "not the recorded violation" });
            }
            println!("VIOLATION property={id} replay={file}");
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

// ------------------------------------------------------------------ development

fn all(seconds: f64, seed: u64) {
    let t = Instant::now();
    let mut seen: BTreeMap<String, (u64, Props, String, u64, u32)> = BTreeMap::new();
    let mut total = Stats::default();
    let stop = std::env::var("ALL_STOP").is_ok();
    let only: Option<u32> = std::env::var("ALL_ONLY").ok().and_then(|x| x.parse().ok());
    let mut i = 0;
    let mut hits = BTreeSet::new();
    while t.elapsed().as_secs_f64() < seconds {
        let prop = only.unwrap_or((i % 24) as u32);
        RUN.store(i, Relaxed);
        let p = plan(prop, seed, i);
        let mut w = World::new(prof::profile(p.prop, p.world), p.world);
        let mut vs = vec![];
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for (k, (s, _)) in p.steps.iter().enumerate() {
                STEP.store(k as u64, Relaxed);
                w.step(*s);
                set_aside(&mut w.viols, &mut hits);
                vs.append(&mut w.viols);
                if !vs.is_empty() {
                    return;
                }
            }
            if let Some(s) = p.wind {
                w.wind_down(s);
                set_aside(&mut w.viols, &mut hits);
                vs.append(&mut w.viols);
            }
        }));
        if let Err(e) = r {
            vs.push(check::Viol { props: 0, what: format!("HARNESS PANIC {}", readers::panic_text(e)) });
        }
        w.stats.runs = 1;
        add(&mut total, &w.stats);
        for v in vs {
            let mut key: String = v.what.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
            key.push_str(&format!("{:?}", names(v.props)));
            let e = seen.entry(key).or_insert((0, v.props, v.what.clone(), i, prop));
            e.0 += 1;
        }
        i += 1;
        if stop && !seen.is_empty() {
            break;
        }
    }
    for (_, (n, p, w, at, prop)) in &seen {
        println!("{n:5} {:?} [{prop} {at}] {}", names(*p), w.chars().take(300).collect::<String>());
    }
    println!("{}", serde_json::to_string_pretty(&stats_json(&total)).unwrap());
}

fn show(prop: u32, seed: u64, index: u64) {
    let p = plan(prop, seed, index);
    let o = run(&p, !0, false);
    if o.viol.is_none() && o.sick.is_none() {
        return println!("no violation");
    }
    // shrink with every property in view
    let mut best = p.clone();
    best.steps.truncate(o.step + 1);
    if o.step < p.steps.len() {
        best.wind = None;
    }
    let bad = |q: &Plan| {
        let x = run(q, !0, false);
        x.viol.map(|v| v.0) == o.viol.as_ref().map(|v| v.0) && x.sick.is_some() == o.sick.is_some()
    };
    let mut i = 0;
    while i < best.steps.len() {
        let mut q = best.clone();
        q.steps.remove(i);
        if bad(&q) {
            best = q;
        } else {
            i += 1;
        }
    }
    for i in 0..best.steps.len() {
        let mut q = best.clone();
        q.steps[i].1 = true;
        if bad(&q) {
            best = q;
        }
    }
    let o = run(&best, !0, true);
    for l in o.trace.unwrap_or_default() {
        println!("{l}");
    }
    println!("=> {:?} {:?}", o.viol.map(|v| (names(v.0), v.1)), o.sick);
}

fn main() {
    rt::install();
    if std::env::var("NIFTY_DST_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let u = |x: &str| x.parse::<u64>().expect("number");
    let code = match s.as_slice() {
        ["check", id, tier] => check_cmd(u(&id[1..]) as u32, tier),
        ["work", p, seed, i, n, count, cap, dir] => {
            work(u(p) as u32, u(seed), u(i), u(n), u(count), cap.parse().unwrap(), dir);
            0
        }
        ["try", file, status] => {
            try_plan(file, status);
            0
        }
        ["replay", file] => replay(file),
        ["all", secs, rest @ ..] => {
            guard("/dev/stderr");
            all(secs.parse().unwrap(), rest.first().map(|x| u(x)).unwrap_or(1));
            0
        }
        ["show", p, seed, i] => {
            show(u(p) as u32, u(seed), u(i));
            0
        }
        _ => {
            eprintln!("usage: nifty-dst check <Cnn> <quick|thorough> | replay <file>");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
