//! burnsim: deterministic simulation of burn_fm with fault injection.
mod asbuilt;
mod burn;
mod case;
mod image;
mod prng;
mod props;
mod shrink;
mod unpack;
mod vfs;
mod vm;
mod world;

use case::*;
use prng::mix;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use world::Machine;

struct Opts {
    verif: PathBuf,
    prop: String,
    tier: String,
    seed: u64,
    cases: u64,
    wall: u64,
    shrink: u64,
    workers: u64,
    subject: PathBuf,
    shim: PathBuf,
    rest: Vec<String>,
}

fn main() {
    /* Addresses are the simulator's choice too (SIM_MACHINE), not the kernel's. */
    unsafe { libc::personality(0x004_0000) };
    let mut o = Opts {
        verif: "/verif".into(),
        prop: String::new(),
        tier: "quick".into(),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        cases: 0,
        wall: 0,
        shrink: u64::MAX,
        workers: 8,
        subject: PathBuf::new(),
        shim: PathBuf::new(),
        rest: vec![],
    };
    let mut a = std::env::args().skip(1);
    let cmd = a.next().unwrap_or_default();
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("value");
        match x.as_str() {
            "--verif" => o.verif = v().into(),
            "--prop" => o.prop = v(),
            "--tier" => o.tier = v(),
            "--seed" => o.seed = v().parse().unwrap(),
            "--cases" => o.cases = v().parse().unwrap(),
            "--shrink" => o.shrink = v().parse().unwrap(),
            "--wall" => o.wall = v().parse().unwrap(),
            "--workers" => o.workers = v().parse().unwrap(),
            "--subject" => o.subject = v().into(),
            "--shim" => o.shim = v().into(),
            _ => o.rest.push(x),
        }
    }
    let empty = std::env::temp_dir().join(format!("burnsim-{}", std::process::id()));
    std::fs::create_dir_all(&empty).expect("scratch directory");
    props::set_known_quirks(known_quirks(&o.verif));
    let m = Machine { subject: o.subject.clone(), shim: o.shim.clone(), empty: empty.clone() };
    let code = match cmd.as_str() {
        "check" => check(&m, &o),
        "replay" => replay(&m, &o),
        "hashes" => hashes(&m, &o),
        "show" => show(&m, &o),
        _ => {
            eprintln!("usage: burnsim check|replay|hashes|show ...");
            2
        }
    };
    let _ = std::fs::remove_dir(&empty);
    std::process::exit(code);
}

fn tier_no(o: &Opts) -> u64 {
    (o.tier == "thorough") as u64
}
fn case_seed(o: &Opts, i: u64) -> u64 {
    mix(&[o.seed, prng::hash_bytes(o.prop.as_bytes()), i])
}
fn one(m: &Machine, o: &Opts, i: u64) -> (Case, Verdict, Stats) {
    let seed = case_seed(o, i);
    /* An error of the simulator itself is not a verdict on the program. */
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let c = props::generate(m, &o.prop, seed, tier_no(o));
        let (v, s) = props::check(m, &c);
        (c, v, s)
    }));
    r.unwrap_or_else(|_| {
        let mut s = Stats::default();
        s.probe("simulator_error");
        (Case::new(&o.prop, seed), Verdict::Outside, s)
    })
}

/// Runs f over case numbers on all workers, in order of number, until it says stop.
fn sweep<F: Fn(u64) -> bool + Sync>(workers: u64, cases: u64, end: Instant, f: F) -> u64 {
    let next = AtomicU64::new(0);
    let stop = AtomicU64::new(u64::MAX);
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= cases || i > stop.load(Ordering::SeqCst) || Instant::now() > end {
                    break;
                }
                if f(i) {
                    stop.fetch_min(i, Ordering::SeqCst);
                }
            });
        }
    });
    next.load(Ordering::SeqCst).min(cases)
}

/// (cases, seconds) of the quick tier.
fn budget(prop: &str) -> u64 {
    match prop {
        "C03" => 6000,
        "C09" | "C10" => 24000,
        "C11" | "C13" => 16000,
        "C05" | "C07" => 10000,
        "C06" => 30000,
        "C01" | "C14" | "C16" | "C17" => 40000,
        "C12" => 8000,
        "C04" => 16000,
        "C08" | "C19" => 4000,
        "C15" => 6000,
        "C18" => 6000,
        "C20" => 6000,
        _ => 3000,
    }
}

#[derive(Default)]
struct Total {
    st: Stats,
    cases: u64,
    outside: u64,
    nontrivial: HashSet<u64>,
    hashes: HashSet<u64>,
    interleavings: HashSet<u64>,
    with_faults: u64,
    fault_free: u64,
    samples: BTreeMap<u64, Value>,
    first: BTreeMap<u64, (Case, String, String)>,
}

fn check(m: &Machine, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let tier = tier_no(o);
    let cases = if o.cases > 0 { o.cases } else if tier > 0 { u64::MAX / 2 } else { budget(&o.prop) };
    let wall = if o.wall > 0 { o.wall } else if tier > 0 { 600 } else { 240 };
    let end = t0 + Duration::from_secs(wall);
    let known = known_findings(&o.verif, &o.prop);
    let total = Mutex::new(Total::default());
    /* The same seeds twice: every execution has to come out the same. */
    let firsts = Mutex::new(BTreeMap::<u64, u64>::new());
    const TWICE: u64 = 40;
    sweep(o.workers, cases, end, |i| {
        let (c, v, s) = one(m, o, i);
        if i < TWICE {
            firsts.lock().unwrap().insert(i, s.fingerprint());
        }
        let mut t = total.lock().unwrap();
        t.cases += 1;
        t.st.merge(&s);
        if t.hashes.len() < 4_000_000 {
            t.hashes.extend(s.hashes.iter().copied());
            t.interleavings.extend(s.interleavings.iter().copied());
        }
        if c.faults.is_empty() {
            t.fault_free += 1;
        } else {
            t.with_faults += 1;
        }
        match v {
            Verdict::Outside => t.outside += 1,
            Verdict::Ok => {
                if s.nontrivial {
                    t.nontrivial.insert(s.fingerprint());
                    if t.samples.len() < 4 || i < *t.samples.keys().last().unwrap() {
                        let v = sample(&c, &s);
                        t.samples.insert(i, v);
                        if t.samples.len() > 4 {
                            t.samples.pop_last();
                        }
                    }
                }
            }
            Verdict::Violation { class, message } => {
                if known.iter().any(|k| k.matches(&class, &message)) {
                    t.st.probe("known_finding_seen");
                } else {
                    t.first.insert(i, (c, class, message));
                    return true;
                }
            }
        }
        false
    });
    let mut t = total.into_inner().unwrap();
    let firsts = firsts.into_inner().unwrap();
    let mut again = 0u64;
    let mut unstable: Vec<u64> = vec![];
    if t.first.is_empty() {
        let un = Mutex::new(vec![]);
        let n = AtomicU64::new(0);
        sweep(3, TWICE.min(cases), Instant::now() + Duration::from_secs(40), |i| {
            let Some(f) = firsts.get(&i) else { return false };
            let (_, _, s) = one(m, o, i);
            n.fetch_add(1, Ordering::SeqCst);
            if s.fingerprint() != *f {
                un.lock().unwrap().push(case_seed(o, i));
            }
            false
        });
        again = n.into_inner();
        unstable = un.into_inner().unwrap();
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", o.prop, k.what);
    }
    let searched = t0.elapsed().as_secs_f64();
    let mut violations = 0;
    let mut code = 0;
    if let Some((i, (c, class, message))) = t.first.pop_first() {
        violations = 1;
        code = 1;
        eprintln!("{}: case {i} (seed {}): [{class}] {message}", o.prop, c.seed);
        let (small, tried) = shrink::minimise(m, &c, &class, Duration::from_secs(o.shrink.min(if tier > 0 { 120 } else { 45 })));
        let (v, s) = props::check(m, &small);
        let (small, message, s) = match v {
            Verdict::Violation { class: k, message } if k == class => (small, message, s),
            _ => {
                let (_, s) = props::check(m, &c);
                (c.clone(), message, s)
            }
        };
        let dir = o.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.json", o.prop, c.seed));
        let file = json!({
            "property": o.prop, "class": class, "message": message, "verif_seed": o.seed, "case_number": i, "case_seed": c.seed,
            "minimised_by": format!("{tried} trial cases"), "fingerprint": format!("{:016x}", s.fingerprint()),
            "case": small, "readable": readable(&small), "trace_of_last_execution": trace(&s),
        });
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()) {
            eprintln!("cannot write {}: {e}", path.display());
        }
        eprintln!("minimised: [{class}] {message}");
        println!("VIOLATION property={} replay={}", o.prop, path.display());
    }
    evidence(o, &t, t0.elapsed().as_secs_f64(), searched, violations, again, &unstable);
    if code == 0 && t.outside * 2 > t.cases {
        eprintln!("{}: {} of {} cases were not decided", o.prop, t.outside, t.cases);
        code = 2;
    }
    println!(
        "{} {}: {} cases, {} executions, {} distinct, {} nontrivial, {:.1} s{}",
        o.prop, o.tier, t.cases, t.st.runs, t.hashes.len(), t.nontrivial.len(), t0.elapsed().as_secs_f64(),
        if unstable.is_empty() { String::new() } else { format!(", {} seeds NOT repeatable", unstable.len()) }
    );
    code
}

fn sample(c: &Case, s: &Stats) -> Value {
    let mut v = readable(c);
    v["seed"] = json!(c.seed.to_string());
    v["executions"] = json!(s.runs);
    v["requests"] = json!(s.requests);
    v
}

fn cut(t: &str, n: usize) -> String {
    if t.chars().count() > n {
        t.chars().take(n).collect::<String>() + "…"
    } else {
        t.into()
    }
}
fn readable(c: &Case) -> Value {
    let files: BTreeMap<&String, String> = c
        .files
        .iter()
        .map(|f| {
            let d = match &f.body {
                Body::Burn(s) => cut(&s.text(), 3000),
                Body::Text(t) => cut(t, 3000),
                Body::Img(i) => format!(
                    "image: {} bytes, {} tables, {} occurrences, {} relationships, {} layouts, {} scripts, {} sources",
                    i.encode().len(), i.schema.tables.len(), i.schema.occs.len(), i.schema.rels.len(), i.schema.layouts.len(), i.schema.scripts.len(), i.schema.sources.len()
                ),
                Body::Broken(b, m) => format!("{} bytes with {} damages", b.bytes().len(), m.len()),
                Body::Blank => "tests/input/blank.fmp12".into(),
                b => format!("{} bytes", b.bytes().len()),
            };
            (&f.path, d)
        })
        .collect();
    json!({"commands": c.procs.iter().map(|p| format!("burn_fm {}", p.args.join(" "))).collect::<Vec<_>>(), "files": files,
        "faults": c.faults, "schedule_length": c.schedule.len(), "env": c.env})
}
fn trace(s: &Stats) -> Value {
    s.last_trace
        .iter()
        .take(400)
        .map(|e| {
            let err = if e.err != 0 { format!(" error {}", e.err) } else { String::new() };
            format!("{}#{} {} {} ({}) = {}{err}{}", e.proc, e.at, world::OPS[e.op as usize], e.path, e.arg, e.ret, if e.fault { " INJECTED" } else { "" })
        })
        .collect::<Vec<_>>()
        .into()
}

fn replay(m: &Machine, o: &Opts) -> i32 {
    let f: Value = match o.rest.first().map(std::fs::read_to_string) {
        Some(Ok(t)) => serde_json::from_str(&t).expect("replay file"),
        _ => {
            eprintln!("which replay file?");
            return 2;
        }
    };
    let c: Case = serde_json::from_value(f["case"].clone()).expect("case");
    let (v, s) = props::check(m, &c);
    let same = json!(format!("{:016x}", s.fingerprint())) == f["fingerprint"];
    match v {
        Verdict::Violation { class, message } => {
            println!("VIOLATION property={} replay={}", c.prop, o.rest[0]);
            println!("[{class}] {message}");
            println!("execution {} the recorded one", if same { "is exactly" } else { "DIFFERS from" });
            1
        }
        _ => {
            println!("{}: no violation now", c.prop);
            0
        }
    }
}

fn hashes(m: &Machine, o: &Opts) -> i32 {
    let out = Mutex::new(BTreeMap::new());
    sweep(o.workers, o.cases.max(1), Instant::now() + Duration::from_secs(600), |i| {
        let (_, v, s) = one(m, o, i);
        let k = match v {
            Verdict::Ok => "ok".to_string(),
            Verdict::Outside => "outside".to_string(),
            Verdict::Violation { class, .. } => format!("violation {class}"),
        };
        out.lock().unwrap().insert(i, format!("{:016x} {} {k}", s.fingerprint(), s.runs));
        false
    });
    for (i, l) in out.into_inner().unwrap() {
        println!("{} {i} {l}", o.prop);
    }
    0
}

/// Prints one case, for reading.
fn show(m: &Machine, o: &Opts) -> i32 {
    let i = o.cases;
    let (c, v, s) = one(m, o, i);
    println!("{}", serde_json::to_string_pretty(&readable(&c)).unwrap());
    for f in &c.files {
        if let Body::Burn(s) = &f.body {
            println!("--- {}\n{}", f.path, s.text());
        }
    }
    println!("{}", serde_json::to_string_pretty(&trace(&s)).unwrap());
    println!("{v:?}");
    0
}

struct Known {
    /// By class and text of the violation; defects of the test environment are matched by asbuilt.rs instead.
    place: Option<(String, String)>,
    what: String,
}
impl Known {
    fn matches(&self, class: &str, message: &str) -> bool {
        self.place.as_ref().is_some_and(|(c, n)| c == class && !n.is_empty() && message.contains(n))
    }
}
fn finding_lines(verif: &Path) -> Vec<(Vec<String>, String)> {
    let t = std::fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let (p, rest) = l.strip_prefix("known: property=")?.split_once(' ')?;
            Some((p.split(',').map(str::to_string).collect(), rest.to_string()))
        })
        .collect()
}
/// Lines `known: property=<id>[,<id>] class="<class>" message~"<text>" <what fails>`
/// and `known: property=<id>[,<id>] quirk="<name in asbuilt.rs>" <what fails>`.
fn known_findings(verif: &Path, prop: &str) -> Vec<Known> {
    finding_lines(verif)
        .into_iter()
        .filter(|(p, _)| p.iter().any(|x| x == prop))
        .filter_map(|(_, l)| {
            if let Some(l) = l.strip_prefix("quirk=\"") {
                return Some(Known { place: None, what: l.split_once("\" ")?.1.into() });
            }
            let (class, l) = l.strip_prefix("class=\"")?.split_once("\" ")?;
            let (needle, what) = l.strip_prefix("message~\"")?.split_once("\" ")?;
            Some(Known { place: Some((class.into(), needle.into())), what: what.into() })
        })
        .collect()
}
fn known_quirks(verif: &Path) -> asbuilt::Quirks {
    let names: Vec<String> =
        finding_lines(verif).iter().filter_map(|(_, l)| Some(l.strip_prefix("quirk=\"")?.split_once('"')?.0.to_string())).collect();
    asbuilt::Quirks(asbuilt::QUIRKS.iter().copied().filter(|q| names.iter().any(|n| n == q)).collect())
}

fn evidence(o: &Opts, t: &Total, wall: f64, searched: f64, violations: u64, again: u64, unstable: &[u64]) {
    let per_hour = |n: u64| (n as f64 / searched.max(0.001) * 3600.0) as u64;
    let kinds: BTreeSet<&String> = t.st.fired.keys().collect();
    let v = json!({
        "property": o.prop,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.cases,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": format!("{} A case counts when it is non-trivial in this sense and the fingerprint of its executions (every request, answer, exit status, console byte and final file) is new.", props::rule(&o.prop)),
            "samples": t.samples.values().collect::<Vec<_>>(),
            "executions_of_real_processes": t.st.runs,
            "requests_served": t.st.requests,
            "simulated_seconds": (t.st.sim_ns / 1_000_000_000) as i64,
            "runs_per_hour": per_hour(t.st.runs),
            "seeds_per_hour": per_hour(t.cases),
            "distinct_executions": t.hashes.len(),
            "distinct_interleavings": t.interleavings.len(),
            "interleaving_measure": "sequence of (process, kind of request) over a whole execution",
            "cases_with_injected_faults": t.with_faults,
            "cases_without_aimed_faults": t.fault_free,
            "cases_outside_domain": t.outside,
            "fault_kinds": kinds.len(),
            "faults_fired": t.st.fired,
            "probes": t.st.probes,
            "determinism": {"cases_run_twice": again, "differing_seeds": unstable},
            "real_components": "the burn_fm executable built from /repo's working tree: argument parsing, compiler, assembler, image writer, image reader, decompiler, test environment, and the Rust standard library in it",
            "simulated_components": "file system (page cache, durable state, directory entries), console, clock, randomness, process ids, time zone files, scheduling of processes, crashes and power loss",
        },
        "assumptions": props::assumptions(&o.prop),
        "wall_s": (wall * 10.0).round() / 10.0,
        "violations": violations,
    });
    let dir = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", o.prop)), serde_json::to_string_pretty(&v).unwrap()) {
        eprintln!("cannot write evidence: {e}");
    }
}
