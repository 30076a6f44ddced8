//! vh: property checks for the MQTT broker.
mod alloc;
mod case;
pub mod clock;
mod codec;
mod gen;
mod refcodec;
mod runner;
mod scale;
mod shrink;
mod world;

use case::Input;
use gen::{Spec, Tier};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use runner::{run, Outcome};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// The broker under test. It is passed in, so that this crate need not be compiled again when the broker changes.
pub struct Broker {
    /// Its main(), started.
    pub start: fn() -> std::pin::Pin<Box<dyn std::future::Future<Output = String>>>,
    /// Its codec (the cfg(verif) hook), when it was compiled with it.
    pub recode: Option<fn(&[u8]) -> Result<(Vec<u8>, usize), String>>,
}
static BROKER: std::sync::OnceLock<Broker> = std::sync::OnceLock::new();
pub(crate) fn broker() -> &'static Broker {
    BROKER.get().expect("the broker")
}

const WORKERS: usize = 8;

#[derive(Serialize, Deserialize, Default)]
struct Report {
    evaluations: u64,
    nontrivial: Vec<u64>,
    skipped: BTreeMap<String, u64>,
    stats: BTreeMap<String, u64>,
    samples: Vec<Input>,
    failure: Option<(Input, String)>,
    broken: Option<String>,
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    message: String,
    input: Input,
}

fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}
fn hash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}
fn spec(id: &str) -> Spec {
    gen::specs().into_iter().find(|s| s.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {id}");
        std::process::exit(2)
    })
}
fn tier(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}
fn runner_for(seed: u64, id: &str, idx: usize) -> TestRunner {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    s[8..16].copy_from_slice(&hash(id.as_bytes()).to_le_bytes());
    s[16..24].copy_from_slice(&(idx as u64 + 1).to_le_bytes());
    TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, TestRng::from_seed(RngAlgorithm::ChaCha, &s))
}

/// A quick check generates no further cases after this time.
const QUICK_LIMIT: Duration = Duration::from_secs(450);

/// Generates and runs this worker's share.
fn worker(id: &str, t: Tier, seed: u64, idx: usize, dir: &Path) -> Report {
    let sp = spec(id);
    let mut rep = Report::default();
    let mut seen = HashSet::new();
    let mut stats = world::Stats::default();
    let current = dir.join(format!("current{idx}"));
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = (if t == Tier::Quick { sp.quick } else { sp.thorough } as f64 * scale) as u64;
    let mut trees = runner_for(seed, id, idx);
    let strat = (sp.strategy)(t);
    let fixed: Vec<Input> = (sp.fixed)(t).into_iter().enumerate().filter(|(i, _)| i % WORKERS == idx).map(|x| x.1).collect();
    let nfixed = fixed.len() as u64;
    let mut fixed = fixed.into_iter();
    let started = Instant::now();
    for k in 0..nfixed + total / WORKERS as u64 {
        // (What is left out on a slow machine shows in the number of evaluations.)
        if t == Tier::Quick && started.elapsed() > QUICK_LIMIT {
            *rep.skipped.entry("time was up before all planned cases were generated".into()).or_default() += nfixed + total / WORKERS as u64 - k;
            break;
        }
        let mut tree = None;
        let input = match fixed.next() {
            Some(i) => i,
            None => {
                let t = strat.new_tree(&mut trees).expect("generator");
                let i = t.current();
                tree = Some(t);
                i
            }
        };
        let json = serde_json::to_vec(&input).expect("json");
        let _ = std::fs::write(&current, &json);
        let (o, s, unfit) = run(&input);
        rep.evaluations += 1;
        stats.add(&s);
        match o {
            Outcome::Pass => {
                if (sp.nontrivial)(&s) && seen.insert(hash(&json)) && rep.samples.len() < 2 && json.len() < 3000 && k > nfixed + 5 {
                    rep.samples.push(input);
                }
            }
            Outcome::Skip(w) => *rep.skipped.entry(w.into()).or_default() += 1,
            Outcome::Broken(m) => {
                rep.broken = Some(format!("{m}; input: {}", String::from_utf8_lossy(&json)));
                break;
            }
            Outcome::Fail(m) => {
                if unfit {
                    rep.failure = Some((input, m));
                    break;
                }
                // proptest's own shrinking, then structural reduction.
                let mut best = (input, m);
                let end = Instant::now() + Duration::from_secs_f64(25.0 * scale.min(1.0));
                if let Some(mut t) = tree {
                    let mut more = t.simplify();
                    while more && Instant::now() < end {
                        let i = t.current();
                        let _ = std::fs::write(&current, serde_json::to_vec(&i).unwrap());
                        let (o, _, unfit) = run(&i);
                        if let Outcome::Fail(m) = o {
                            best = (i, m);
                            if unfit {
                                break;
                            }
                            more = t.simplify();
                        } else {
                            more = t.complicate();
                        }
                    }
                }
                let mut msg = best.1.clone();
                let mut dead = false;
                let small = shrink::reduce(best.0, Duration::from_secs_f64(20.0 * scale.min(1.0)), |i| {
                    if dead {
                        return false;
                    }
                    let _ = std::fs::write(&current, serde_json::to_vec(i).unwrap());
                    let (o, _, unfit) = run(i);
                    dead = unfit;
                    if let Outcome::Fail(m) = o {
                        msg = m;
                        true
                    } else {
                        false
                    }
                });
                rep.failure = Some((small, msg));
                break;
            }
        }
    }
    rep.nontrivial = seen.into_iter().collect();
    rep.stats = stats.pairs().into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    rep
}

/// Runs one input in a process of its own: None if it passes, else what is wrong.
fn isolated(input: &Input, dir: &Path) -> Option<String> {
    let f = dir.join("isolated.json");
    std::fs::write(&f, serde_json::to_vec(input).unwrap()).ok()?;
    let o = Command::new(std::env::current_exe().unwrap()).arg("one").arg(&f).stdin(Stdio::null()).output().ok()?;
    match o.status.code() {
        Some(0) => None,
        Some(1) => Some(String::from_utf8_lossy(&o.stdout).trim().to_string()),
        Some(c) => {
            eprintln!("isolated run ended with {c}: {}", String::from_utf8_lossy(&o.stderr));
            None
        }
        None => Some(died(&o.status, &o.stderr)),
    }
}
fn died(st: &std::process::ExitStatus, err: &[u8]) -> String {
    let e = String::from_utf8_lossy(err);
    let why = e.lines().find(|l| l.contains("overflowed its stack") || l.contains("memory allocation")).unwrap_or("").trim().to_string();
    format!("the process died ({st}) {why}")
}

fn check(id: &str, tname: &str, seed: u64) -> i32 {
    let sp = spec(id);
    let started = Instant::now();
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<Option<std::process::Child>> = (0..WORKERS)
        .map(|i| {
            let err = std::fs::File::create(dir.join(format!("err{i}"))).unwrap();
            Some(
                Command::new(&exe)
                    .args(["worker", id, tname, &seed.to_string(), &i.to_string()])
                    .arg(&dir)
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .stderr(err)
                    .spawn()
                    .expect("worker"),
            )
        })
        .collect();
    let mut total = Report::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut failure: Option<(Input, String, bool)> = None;
    let mut broken: Option<String> = None;
    loop {
        let mut running = 0;
        for i in 0..WORKERS {
            let Some(k) = kids[i].as_mut() else { continue };
            let st = match k.try_wait() {
                Ok(None) => {
                    running += 1;
                    continue;
                }
                Ok(Some(st)) => st,
                Err(e) => panic!("{e}"),
            };
            kids[i] = None;
            let rep: Option<Report> = std::fs::read(dir.join(format!("report{i}"))).ok().and_then(|b| serde_json::from_slice(&b).ok());
            match rep {
                Some(r) => {
                    total.evaluations += r.evaluations;
                    hashes.extend(r.nontrivial);
                    for (k, v) in r.skipped {
                        *total.skipped.entry(k).or_default() += v;
                    }
                    for (k, v) in r.stats {
                        let e = total.stats.entry(k.clone()).or_default();
                        if k.contains("max") { *e = (*e).max(v) } else { *e += v }
                    }
                    total.samples.extend(r.samples);
                    if let Some((i, m)) = r.failure {
                        let hard = m.contains("deadlock") || m.contains("endless");
                        if failure.is_none() {
                            failure = Some((i, m, hard));
                        }
                    }
                    if r.broken.is_some() {
                        broken = r.broken;
                    }
                }
                None => {
                    // The worker died: the input it was running is the suspect.
                    let err = std::fs::read(dir.join(format!("err{i}"))).unwrap_or_default();
                    let why = died(&st, &err);
                    let input: Option<Input> = std::fs::read(dir.join(format!("current{i}"))).ok().and_then(|b| serde_json::from_slice(&b).ok());
                    // A SIGKILL is the machine's doing (memory), not the broker's.
                    use std::os::unix::process::ExitStatusExt;
                    match input {
                        Some(input) if st.signal().is_some_and(|s| s != 9 && s != 15) => failure = Some((input, why, true)),
                        _ => broken = Some(format!("worker {i}: {why}: {}", String::from_utf8_lossy(&err))),
                    }
                }
            }
        }
        if running == 0 || failure.is_some() || broken.is_some() {
            break;
        }
        std::thread::sleep(Duration::from_millis(30));
    }
    for k in kids.iter_mut().flatten() {
        let _ = k.kill();
        let _ = k.wait();
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some((input, msg, hard)) = failure {
        let (mut input, mut msg) = (input, msg);
        if hard {
            // Confirm in a fresh process and reduce there.
            match isolated(&input, &dir) {
                Some(m) => {
                    msg = m;
                    let mut last = msg.clone();
                    input = shrink::reduce(input, Duration::from_secs(90), |i| match isolated(i, &dir) {
                        Some(m) => {
                            last = m;
                            true
                        }
                        None => false,
                    });
                    msg = last;
                    violations = 1;
                }
                None => broken = Some(format!("not reproduced in isolation: {msg}; input {}", serde_json::to_string(&input).unwrap())),
            }
        } else {
            violations = 1;
        }
        if violations == 1 {
            let p = verif().join("replays");
            let _ = std::fs::create_dir_all(&p);
            let p = p.join(format!("{id}.json"));
            let r = Replay { property: id.into(), message: msg.clone(), input };
            std::fs::write(&p, serde_json::to_vec_pretty(&r).unwrap()).expect("replay file");
            println!("{id}: {msg}");
            println!("VIOLATION property={id} replay={}", p.display());
            code = 1;
        }
    }
    if code == 0 {
        if let Some(b) = &broken {
            eprintln!("{id}: the check itself failed: {b}");
            code = 2;
        }
    }
    total.samples.truncate(4);
    let ev = serde_json::json!({
        "property": id,
        "tier": tname,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": hashes.len(),
            "rule": if id == "C19" { sp.rule.to_string() } else {
                format!("{}; a quarter of the histories have further clients, large messages, pauses and accept errors added, half run under random task scheduling; the fixed large histories of scale.rs come first", sp.rule)
            },
            "samples": total.samples,
            "observed": total.stats,
            "outside_domain": total.skipped,
            "exhaustive": false,
        },
        "assumptions": [
            "sockets, signals and the clock are simulated (harness/simtokio); everything above them is the repository's code and real tokio",
            "one runtime thread: tasks interleave at await points only (in random order in half of the cases)"
        ],
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let ed = verif().join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{id}.json")), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence file");
    if code == 0 {
        println!(
            "{id}: {} cases, {} distinct non-trivial, {:.1} s, no violation",
            total.evaluations,
            hashes.len(),
            started.elapsed().as_secs_f64()
        );
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn load(f: &str) -> Input {
    let b = std::fs::read(f).expect("file");
    serde_json::from_slice::<Replay>(&b).map(|r| r.input).or_else(|_| serde_json::from_slice::<Input>(&b)).expect("not a replay file")
}

/// The command line.
pub fn main(broker: Broker) {
    let _ = BROKER.set(broker);
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let code = match arg(1) {
        "check" => {
            let t = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let t = if arg(3).is_empty() { t } else { arg(3).to_string() };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            check(arg(2), &t, seed)
        }
        "worker" => {
            runner::install_panic_hook();
            runner::install_logger();
            let dir = PathBuf::from(arg(6));
            let idx = arg(5).parse().unwrap();
            let r = worker(arg(2), tier(arg(3)), arg(4).parse().unwrap(), idx, &dir);
            std::fs::write(dir.join(format!("report{idx}")), serde_json::to_vec(&r).unwrap()).unwrap();
            0
        }
        "one" | "replay" => {
            runner::install_panic_hook();
            runner::install_logger();
            let i = load(arg(2));
            let (o, s, _) = run(&i);
            if arg(1) == "replay" {
                let seen: Vec<_> = s.pairs().into_iter().filter(|p| p.1 > 0).collect();
                println!("{seen:?}");
            }
            match o {
                Outcome::Pass => 0,
                Outcome::Skip(w) => {
                    println!("outside the domain: {w}");
                    0
                }
                Outcome::Fail(m) => {
                    println!("{m}");
                    1
                }
                Outcome::Broken(m) => {
                    eprintln!("{m}");
                    3
                }
            }
        }
        // Prints generated inputs (for a look at the generators).
        "show" => {
            let sp = spec(arg(2));
            let mut r = runner_for(arg(3).parse().unwrap_or(1), arg(2), 0);
            let st = (sp.strategy)(Tier::Quick);
            for _ in 0..arg(4).parse().unwrap_or(1) {
                println!("{}", serde_json::to_string(&st.new_tree(&mut r).unwrap().current()).unwrap());
            }
            0
        }
        _ => {
            eprintln!("usage: vh check PROPERTY [quick|thorough] | replay FILE | show PROPERTY [SEED [N]]");
            2
        }
    };
    // Threads left behind by a deadlock must not keep the process.
    std::process::exit(code);
}
