//! Runs one input in this process, on its own thread, under a watchdog.
use crate::alloc::Own;
use crate::case::*;
use crate::codec;
use crate::world::{Stats, Verdict, World};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Outcome {
    Pass,
    Skip(&'static str),
    Fail(String),
    /// The harness itself went wrong.
    Broken(String),
}

/// (message, raised by the harness)
static PANIC: Mutex<Option<(String, bool)>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        // Relative paths are this crate's; the broker and every dependency are compiled under absolute ones.
        let own = loc.starts_with("src/") || loc.starts_with("engine/") || loc.starts_with("simtokio") || loc.contains("/verif/harness/");
        let mut p = PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if p.is_none() {
            *p = Some((format!("panic: {msg} at {loc}"), own));
        }
    }));
}

struct NullLog;
struct Null;
impl std::fmt::Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
impl log::Log for NullLog {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.target().starts_with("mqtt_broker")
    }
    // The broker logs at trace level: its arguments are really formatted.
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            let _ = std::fmt::write(&mut Null, *r.args());
        }
    }
    fn flush(&self) {}
}
pub fn install_logger() {
    let _ = log::set_logger(&NullLog);
    log::set_max_level(log::LevelFilter::Trace);
}

fn hist(case: &Case) -> (Result<(), Verdict>, Stats, Option<String>) {
    let net = tokio::sim::install();
    // In half of the cases the tasks take turns at random.
    tokio::sim::schedule(if case.rng % 2 == 0 { 0 } else { (u64::from(case.rng) << 20 | 0xb529).wrapping_mul(0x9e37_79b9_7f4a_7c15) });
    let mut seed = vec![7u8];
    seed.extend_from_slice(&case.rng.to_le_bytes());
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&seed))
        .build()
        .expect("runtime");
    let out = rt.block_on(async {
        let local = tokio::task::LocalSet::new();
        let mut w = World::new(case, net);
        crate::clock::start(Some(tokio::time::Instant::now()));
        crate::alloc::broker(true);
        w.main = Some(local.spawn_local(tokio::sim::Jitter::new((crate::broker().start)())));
        let r = local.run_until(Own(Box::pin(w.run()))).await;
        let stats = w.stats.clone();
        let ended = local.run_until(Own(Box::pin(w.result()))).await;
        (r, stats, ended)
    });
    crate::alloc::broker(false);
    crate::clock::start(None);
    drop(rt);
    tokio::sim::uninstall();
    out
}

fn execute(input: &Input) -> (Outcome, Stats) {
    match input {
        Input::Codec(c) => {
            let mut s = Stats::default();
            match codec::check(c, &mut s) {
                Ok(()) => (Outcome::Pass, s),
                Err(m) => (Outcome::Fail(m), s),
            }
        }
        Input::Hist(c) => {
            let (r, s, ended) = hist(c);
            let o = match r {
                Err(Verdict::Fail(m)) => Outcome::Fail(m),
                Err(Verdict::Skip(w)) => Outcome::Skip(w),
                Ok(()) => match ended {
                    Some(r) if r != "Ok(())" => Outcome::Fail(format!("the broker ended with {r}")),
                    _ => Outcome::Pass,
                },
            };
            (o, s)
        }
    }
}

fn thread_cpu(tid: i32) -> Option<(char, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some((f[0].chars().next()?, f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?))
}

/// What this thread has used so far.
pub fn cpu_time() -> Duration {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32)
}

/// CPU seconds one input may use (the largest legitimate ones need well under a tenth of this).
pub const CPU_LIMIT_S: u64 = 60;

/// Runs an input; a thread that blocks, or never finishes, is reported without waiting for it
/// (the second value says that the process is no longer fit for more).
pub fn run(input: &Input) -> (Outcome, Stats, bool) {
    *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let slot: Arc<Mutex<Option<(Outcome, Stats)>>> = Default::default();
    let done = Arc::new(AtomicBool::new(false));
    let (tidtx, tidrx) = std::sync::mpsc::channel();
    let th = {
        let (slot, done, input) = (slot.clone(), done.clone(), input.clone());
        let me = std::thread::current();
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || {
                let _ = tidtx.send(unsafe { libc::syscall(libc::SYS_gettid) } as i32);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute(&input)));
                let r = r.unwrap_or_else(|_| (Outcome::Broken("the harness panicked".into()), Stats::default()));
                *slot.lock().unwrap() = Some(r);
                done.store(true, Ordering::SeqCst);
                me.unpark();
            })
            .expect("thread")
    };
    let tid = tidrx.recv().expect("tid");
    let start = Instant::now();
    let mut last_cpu = 0;
    let mut blocked_since = Instant::now();
    loop {
        if done.load(Ordering::SeqCst) {
            break;
        }
        std::thread::park_timeout(Duration::from_millis(200));
        if done.load(Ordering::SeqCst) || start.elapsed() < Duration::from_secs(1) {
            continue;
        }
        if let Some((state, cpu)) = thread_cpu(tid) {
            if state != 'S' || cpu != last_cpu {
                blocked_since = Instant::now();
                last_cpu = cpu;
            }
            // Nothing in the simulation ever sleeps in real time: a sleeping thread waits for a lock.
            if blocked_since.elapsed() > Duration::from_secs(8) {
                return (Outcome::Fail("the broker's thread is blocked for ever (deadlock)".into()), Stats::default(), true);
            }
            if cpu > CPU_LIMIT_S * 100 {
                return (Outcome::Fail(format!("the broker used {CPU_LIMIT_S} s of CPU on one history (endless loop)")), Stats::default(), true);
            }
        }
    }
    let _ = th.join();
    let (mut o, s) = slot.lock().unwrap().take().expect("outcome");
    if let Some((m, own)) = PANIC.lock().unwrap_or_else(|e| e.into_inner()).take() {
        o = if own { Outcome::Broken(m) } else { Outcome::Fail(format!("the broker panicked: {m}")) };
    }
    (o, s, false)
}
