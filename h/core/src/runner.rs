//! Runs the engines of a check over a deterministic set of cases on all
//! cores, watches for panics, aborts, stack overflows and runaway cases, and
//! writes the evidence.
use crate::rng::{hash_bytes, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic;
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A failed observation. `sig` identifies what failed independently of the
/// random inputs; known findings are matched by it.
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type Case = Result<(), Fail>;
pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg })
}
/// `ensure!(cond, "sig", "format", args)`
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($f:tt)*) => {
        if !$c {
            return $crate::runner::fail($sig, format!($($f)*));
        }
    };
}

#[derive(Default)]
pub struct Obs {
    pub counters: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evaluations: u64,
    pub known: BTreeMap<String, u64>,
}

pub struct Ctx<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub tier: Tier,
    pub obs: &'a mut Obs,
    /// print details (replay mode)
    pub verbose: bool,
    sample_left: usize,
    prop: &'static str,
    known: &'a [Known],
}
impl<'a> Ctx<'a> {
    /// For use outside the runner.
    pub fn plain(obs: &'a mut Obs, known: &'a [Known]) -> Ctx<'a> {
        Ctx { rng: Rng::new(1), idx: 0, tier: Tier::Quick, obs, verbose: false, sample_left: 0, prop: "", known }
    }
    /// A case run inside another one, with observations of its own.
    pub fn inner<'b>(obs: &'b mut Obs, known: &'b [Known], prop: &'static str, rng: Rng, idx: u64, tier: Tier) -> Ctx<'b> {
        Ctx { rng, idx, tier, obs, verbose: false, sample_left: 0, prop, known }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.obs.counters.entry(k).or_insert(0) += n;
    }
    /// One evaluation of the property on an input identified by `h`.
    pub fn eval(&mut self, h: u64, nontrivial: bool) {
        self.obs.evaluations += 1;
        if nontrivial && self.obs.distinct.len() < 400_000 {
            self.obs.distinct.insert(h);
        }
    }
    pub fn eval_bytes(&mut self, salt: u64, b: &[u8], nontrivial: bool) {
        self.eval(mix(salt).wrapping_add(hash_bytes(b)), nontrivial)
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            println!("  case: {}", f());
        } else if self.sample_left > 0 {
            self.sample_left -= 1;
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("..");
            }
            self.obs.samples.push(s);
        }
    }
    /// Reports a failure unless it is a listed finding.
    pub fn report(&mut self, f: Fail) -> Case {
        if self.known.iter().any(|k| k.prop == self.prop && k.sig == f.sig) {
            *self.obs.known.entry(f.sig.clone()).or_insert(0) += 1;
            return Ok(());
        }
        Err(f)
    }
}

pub struct Engine {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx) -> Case,
}
pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub engines: Vec<Engine>,
    /// worker threads; 0: one per core
    pub threads: usize,
}

pub struct Known {
    pub prop: String,
    pub sig: String,
    pub text: String,
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Lines `known: property=<id> sig=<sig> <what fails>`.
pub fn load_known() -> Vec<Known> {
    let mut v = Vec::new();
    let t = fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut it = r.splitn(3, ' ');
            let (p, s, x) = (it.next(), it.next(), it.next());
            if let (Some(p), Some(s), Some(x)) = (p, s, x) {
                if let Some(s) = s.strip_prefix("sig=") {
                    v.push(Known { prop: p.into(), sig: s.into(), text: x.into() });
                }
            }
        }
    }
    v
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
/// Runs `f`, returning the panic message if it panics.
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = old);
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}
pub fn install_hook() {
    let def = panic::take_hook();
    panic::set_hook(Box::new(move |i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{} at {}", msg, loc));
        if !QUIET.with(|q| *q.borrow()) {
            def(i);
        }
    }));
}

fn case_seed(seed: u64, engine: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(engine.as_bytes())).wrapping_add(idx))
}

fn run_case(c: &Check, e: &Engine, idx: u64, seed: u64, tier: Tier, obs: &mut Obs, known: &[Known], verbose: bool, samples: usize) -> Case {
    let mut cx = Ctx {
        rng: Rng::new(case_seed(seed, e.name, idx)),
        idx,
        tier,
        obs,
        verbose,
        sample_left: samples,
        prop: c.id,
        known,
    };
    let r = catch(|| (e.run)(&mut cx));
    match r {
        Ok(r) => r,
        Err(m) => fail("panic", format!("panicked: {}", m)),
    }
}

#[derive(Clone)]
struct Viol {
    engine: &'static str,
    idx: u64,
    f: Fail,
}

struct Slot {
    tid: AtomicU64,
    engine: AtomicU64,
    idx: AtomicU64,
    busy: AtomicBool,
    serial: AtomicU64,
}

fn thread_cpu_ns(tid: u64) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/self/task/{}/schedstat", tid)).ok()?;
    s.split(' ').next()?.parse().ok()
}

pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|v| v as u64).unwrap_or(1)
}

/// CPU seconds a single case may take before it is considered runaway.
const CASE_CPU_S: u64 = 40;
const EXIT_RUNAWAY: i32 = 97;
/// More for the second attempt, after every case in flight at the first end
/// turned out to finish by itself.
fn case_cpu_s() -> u64 {
    std::env::var("VERIF_CASE_CPU").ok().and_then(|s| s.parse().ok()).unwrap_or(CASE_CPU_S)
}

fn scale() -> f64 {
    std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}

fn worker(c: &Check, tier: Tier, seed: u64, journal: &str) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let known = load_known();
    let known = &known[..];
    let cap = Duration::from_secs(match tier {
        Tier::Quick => 150,
        Tier::Thorough => 700,
    });
    let nthr = if c.threads > 0 { c.threads } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) };
    let sc = scale() * if tier == Tier::Quick { 2.0 } else { 1.0 };
    // work list: (engine, first, last)
    let mut work: Vec<(usize, u64, u64)> = Vec::new();
    let mut planned = Vec::new();
    for (i, e) in c.engines.iter().enumerate() {
        let n = match tier {
            Tier::Quick => e.quick,
            Tier::Thorough => e.thorough,
        };
        // enumerations are complete as they are
        let n = if n <= 16 || e.quick == e.thorough { n } else { ((n as f64 * sc) as u64).max(1) };
        planned.push(n);
        let step = (n / (nthr as u64 * 16)).clamp(1, 256);
        let mut a = 0;
        while a < n {
            let b = (a + step).min(n);
            work.push((i, a, b));
            a = b;
        }
    }
    // interleave engines so that a time cap hits all of them alike
    let mut key: Vec<(u64, (usize, u64, u64))> = work.into_iter().map(|w| ((w.1 * 1_000_000) / planned[w.0].max(1), w)).collect();
    key.sort();
    let work: Vec<_> = key.into_iter().map(|k| k.1).collect();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done: Vec<AtomicU64> = c.engines.iter().map(|_| AtomicU64::new(0)).collect();
    let viols: Mutex<Vec<Viol>> = Mutex::new(Vec::new());
    let merged: Mutex<Obs> = Mutex::new(Obs::default());
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..nthr)
            .map(|_| Slot {
                tid: AtomicU64::new(0),
                engine: AtomicU64::new(0),
                idx: AtomicU64::new(0),
                busy: AtomicBool::new(false),
                serial: AtomicU64::new(0),
            })
            .collect(),
    );
    let slowest = (AtomicU64::new(0), Mutex::new(("", 0u64)));
    let jf = fs::File::create(journal).expect("journal");
    {
        // watchdog over CPU time of single cases
        let slots = slots.clone();
        let most = case_cpu_s();
        std::thread::spawn(move || {
            let mut seen: Vec<(u64, u64)> = vec![(u64::MAX, 0); slots.len()];
            loop {
                std::thread::sleep(Duration::from_millis(1000));
                for (i, s) in slots.iter().enumerate() {
                    if !s.busy.load(SeqCst) {
                        continue;
                    }
                    let ser = s.serial.load(SeqCst);
                    let cpu = match thread_cpu_ns(s.tid.load(SeqCst)) {
                        Some(c) => c,
                        None => continue,
                    };
                    if seen[i].0 != ser {
                        seen[i] = (ser, cpu);
                    } else if cpu.saturating_sub(seen[i].1) > most * 1_000_000_000 {
                        std::process::exit(EXIT_RUNAWAY);
                    }
                }
            }
        });
    }
    std::thread::scope(|sc| {
        for t in 0..nthr {
            let (work, next, stop, done, viols, merged, slots, jf, planned, slowest) =
                (&work, &next, &stop, &done, &viols, &merged, &slots, &jf, &planned, &slowest);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let tid = fs::read_link("/proc/thread-self")
                        .ok()
                        .and_then(|p| p.file_name().and_then(|f| f.to_str().map(|s| s.to_string())))
                        .and_then(|s| s.parse().ok())
                        .unwrap_or(0);
                    slots[t].tid.store(tid, SeqCst);
                    let mut obs = Obs::default();
                    let mut serial = 0u64;
                    'outer: loop {
                        let w = next.fetch_add(1, SeqCst) as usize;
                        if w >= work.len() || stop.load(SeqCst) {
                            break;
                        }
                        let (ei, a, b) = work[w];
                        let e = &c.engines[ei];
                        for idx in a..b {
                            if t0.elapsed() > cap {
                                break 'outer;
                            }
                            serial += 1;
                            slots[t].engine.store(ei as u64, SeqCst);
                            slots[t].idx.store(idx, SeqCst);
                            slots[t].serial.store(serial, SeqCst);
                            slots[t].busy.store(true, SeqCst);
                            let mut rec = [0u8; 24];
                            rec[..8].copy_from_slice(&(ei as u64 + 1).to_le_bytes());
                            rec[8..16].copy_from_slice(&idx.to_le_bytes());
                            let _ = jf.write_at(&rec, t as u64 * 24);
                            let want_sample = idx == 0 || idx == planned[ei] / 2;
                            let c0 = Instant::now();
                            let r = run_case(c, e, idx, seed, tier, &mut obs, known, false, if want_sample { 2 } else { 0 });
                            let took = c0.elapsed().as_millis() as u64;
                            if took > slowest.0.load(SeqCst) {
                                slowest.0.store(took, SeqCst);
                                *slowest.1.lock().unwrap() = (e.name, idx);
                            }
                            slots[t].busy.store(false, SeqCst);
                            done[ei].fetch_add(1, SeqCst);
                            if let Err(f) = r {
                                let f = if known.iter().any(|k| k.prop == c.id && k.sig == f.sig) {
                                    *obs.known.entry(f.sig.clone()).or_insert(0) += 1;
                                    continue;
                                } else {
                                    f
                                };
                                let mut v = viols.lock().unwrap();
                                v.push(Viol { engine: e.name, idx, f });
                                if v.len() >= 20 {
                                    stop.store(true, SeqCst);
                                }
                            }
                        }
                    }
                    let _ = jf.write_at(&[0u8; 24], t as u64 * 24);
                    let mut m = merged.lock().unwrap();
                    for (k, n) in obs.counters {
                        *m.counters.entry(k).or_insert(0) += n;
                    }
                    for (k, n) in obs.known {
                        *m.known.entry(k).or_insert(0) += n;
                    }
                    m.distinct.extend(obs.distinct);
                    m.evaluations += obs.evaluations;
                    m.samples.extend(obs.samples);
                })
                .expect("spawn");
        }
    });
    let mut m = merged.into_inner().unwrap();
    m.counters.insert("slowest_case_ms".into(), slowest.0.load(SeqCst));
    if std::env::var("VERIF_SLOW").is_ok() {
        println!("slowest: {:?} {} ms", slowest.1.lock().unwrap(), slowest.0.load(SeqCst));
    }
    let mut viols = viols.into_inner().unwrap();
    viols.sort_by(|a, b| (a.engine, a.idx).cmp(&(b.engine, b.idx)));
    let eng: Vec<(&str, u64, u64)> =
        c.engines.iter().enumerate().map(|(i, e)| (e.name, done[i].load(SeqCst), planned[i])).collect();
    let mut rc = 0;
    let mut printed = HashSet::new();
    for v in &viols {
        rc = 1;
        if printed.len() < 4 && printed.insert(v.f.sig.clone()) {
            violation(c, tier, seed, v.engine, v.idx, &v.f);
        }
    }
    for k in known.iter().filter(|k| k.prop == c.id) {
        if m.known.contains_key(&k.sig) {
            println!("KNOWN-FINDING: property={} {}", c.id, k.text);
        }
    }
    let nviol = viols.len();
    write_evidence(c, tier, seed, &m, &eng, t0.elapsed().as_secs_f64(), nviol);
    println!(
        "{} {:?} seed={}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s",
        c.id,
        tier,
        seed as i64,
        m.evaluations,
        m.distinct.len(),
        nviol,
        t0.elapsed().as_secs_f64()
    );
    if rc == 0 && (m.evaluations == 0 || m.distinct.is_empty()) {
        println!("INCONCLUSIVE: nothing was observed");
        rc = 2;
    }
    rc
}

fn violation(c: &Check, tier: Tier, seed: u64, engine: &str, idx: u64, f: &Fail) {
    let dir = format!("{}/replays", verif_dir());
    let _ = fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.txt", dir, c.id, engine, idx);
    let t = match tier {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    };
    let _ = fs::write(
        &path,
        format!(
            "property {}\nengine {} case {} seed {} tier {}\nreplay: VERIF_SEED={} VERIF_TIER={} bash {}/run.sh {} replay {} {}\nsignature {}\n{}\n",
            c.id, engine, idx, seed as i64, t, seed as i64, t, verif_dir(), c.id, engine, idx, f.sig, f.msg
        ),
    );
    let first: String = f.msg.lines().next().unwrap_or("").chars().take(700).collect();
    println!("  {} [{}] case {}: {}: {}", c.id, engine, idx, f.sig, first);
    println!("VIOLATION property={} replay={}", c.id, path);
}

fn write_evidence(c: &Check, tier: Tier, seed: u64, m: &Obs, eng: &[(&str, u64, u64)], wall: f64, nviol: usize) {
    let mut s = String::new();
    s.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        jstr(c.id),
        jstr(if tier == Tier::Quick { "quick" } else { "thorough" }),
        seed as i64
    ));
    s.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", m.evaluations, m.distinct.len()));
    s.push_str(&format!("  \"rule\": {},\n", jstr(c.rule)));
    s.push_str("  \"samples\": [");
    let mut left = 20_000usize;
    let mut first = true;
    for x in m.samples.iter().take(40) {
        let j = jstr(x);
        if j.len() > left {
            break;
        }
        left -= j.len();
        if !first {
            s.push_str(", ");
        }
        first = false;
        s.push_str("\n   ");
        s.push_str(&j);
    }
    s.push_str("],\n  \"cases_per_engine\": {");
    let v: Vec<String> = eng.iter().map(|e| format!("\n   {}: {{\"run\": {}, \"planned\": {}}}", jstr(e.0), e.1, e.2)).collect();
    s.push_str(&v.join(","));
    s.push_str("},\n  \"observed\": {");
    let v: Vec<String> = m.counters.iter().map(|(k, n)| format!("\n   {}: {}", jstr(k), n)).collect();
    s.push_str(&v.join(","));
    s.push_str("},\n  \"known_findings_observed\": {");
    let v: Vec<String> = m.known.iter().map(|(k, n)| format!("\n   {}: {}", jstr(k), n)).collect();
    s.push_str(&v.join(","));
    s.push_str("}\n },\n \"assumptions\": [");
    let v: Vec<String> = c.assumptions.iter().map(|a| jstr(a)).collect();
    s.push_str(&v.join(", "));
    s.push_str(&format!("],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, nviol));
    let dir = format!("{}/evidence", verif_dir());
    let _ = fs::create_dir_all(&dir);
    let p = std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| format!("{}/{}.json", dir, c.id));
    if let Ok(mut f) = fs::File::create(p) {
        let _ = f.write_all(s.as_bytes());
    }
}

fn replay(c: &Check, tier: Tier, seed: u64, engine: &str, idx: u64, verbose: bool) -> i32 {
    install_hook();
    let e = match c.engines.iter().find(|e| e.name == engine) {
        Some(e) => e,
        None => {
            println!("no engine {}", engine);
            return 2;
        }
    };
    let known = load_known();
    let mut obs = Obs::default();
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(sc, || run_case(c, e, idx, seed, tier, &mut obs, &known, verbose, 0))
            .unwrap()
            .join()
            .unwrap()
    });
    match r {
        Ok(()) => {
            println!("replay: no violation");
            0
        }
        Err(f) => {
            println!("replay: {}: {}", f.sig, f.msg);
            1
        }
    }
}

/// Entry point: `prog <id> [replay <engine> <idx>]`.
pub fn main(checks: Vec<Check>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let c = match checks.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            println!("unknown check {:?}; have {:?}", id, checks.iter().map(|c| c.id).collect::<Vec<_>>());
            std::process::exit(2)
        }
    };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = env_seed();
    match args.get(2).map(|s| s.as_str()) {
        Some("replay") => {
            let idx = args[4].parse().unwrap();
            std::process::exit(replay(c, tier, seed, &args[3], idx, true));
        }
        Some("one") => {
            let idx = args[4].parse().unwrap();
            std::process::exit(replay(c, tier, seed, &args[3], idx, false));
        }
        Some("worker") => {
            let rc = worker(c, tier, seed, &args[3]);
            std::process::exit(rc);
        }
        _ => std::process::exit(supervise(c, tier, seed)),
    }
}

fn supervise(c: &Check, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let journal = std::env::temp_dir().join(format!("fl-journal-{}-{}", c.id, std::process::id()));
    let js = journal.to_string_lossy().to_string();
    let exe = std::env::current_exe().expect("exe");
    let st = Command::new(&exe).args([c.id, "worker", &js]).stdin(Stdio::null()).status();
    let data = fs::read(&journal).unwrap_or_default();
    let _ = fs::remove_file(&journal);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            println!("cannot run worker: {}", e);
            return 2;
        }
    };
    match st.code() {
        Some(EXIT_RUNAWAY) => (),
        Some(r) => return r,
        None => (),
    }
    println!("worker ended abnormally: {:?} signal {:?}; re-running the cases that were in flight", st.code(), st.signal());
    if st.signal() == Some(9) {
        println!("INCONCLUSIVE: worker was killed");
        return 2;
    }
    let mut cases = Vec::new();
    for r in data.chunks_exact(24) {
        let e = u64::from_le_bytes(r[..8].try_into().unwrap());
        let i = u64::from_le_bytes(r[8..16].try_into().unwrap());
        if e > 0 {
            cases.push((e as usize - 1, i));
        }
    }
    let report = |engine: &str, idx: u64, how: &str, tail: &str| {
        let f = Fail { sig: "crash".into(), msg: format!("{} {}", how, tail) };
        violation(c, tier, seed, engine, idx, &f);
        let mut m = Obs::default();
        m.evaluations = 1;
        m.samples.push(format!("{} case {}: {}", engine, idx, how));
        write_evidence(c, tier, seed, &m, &[(engine, 1, 1)], t0.elapsed().as_secs_f64(), 1);
    };
    for &(ei, idx) in &cases {
        let e = &c.engines[ei];
        println!("in flight: {} case {}", e.name, idx);
        if let Some((how, tail)) = alone(&exe, c.id, e.name, idx, true) {
            report(e.name, idx, &how, &tail);
            return 1;
        }
    }
    // what only sometimes crashes is seen by AddressSanitizer
    if let Some(asan) = std::env::var_os("VERIF_ASAN") {
        for &(ei, idx) in &cases {
            let e = &c.engines[ei];
            if ["asan", "msan", "miri", "tsan"].contains(&e.name) {
                continue;
            }
            if let Some((how, tail)) = alone(Path::new(&asan), c.id, e.name, idx, false) {
                report(e.name, idx, &how, &tail);
                return 1;
            }
        }
    }
    if st.code() == Some(EXIT_RUNAWAY) {
        println!("every one of them finishes; once more with more time for each");
        let st = Command::new(&exe).args([c.id, "worker", &js]).env("VERIF_CASE_CPU", "300").stdin(Stdio::null()).status();
        let _ = fs::remove_file(&journal);
        if let Some(r) = st.ok().and_then(|s| s.code()) {
            if r != EXIT_RUNAWAY {
                return r;
            }
        }
    }
    if let Some(sig @ (4 | 5 | 6 | 7 | 8 | 11)) = st.signal() {
        // no single case does it, but a program without unsafe code of its own died; is it so again?
        let mut died = 1;
        for _ in 0..2 {
            let st = Command::new(&exe).args([c.id, "worker", &js]).stdin(Stdio::null()).status();
            let _ = fs::remove_file(&journal);
            match st.map(|s| (s.code(), s.signal())) {
                Ok((Some(1), _)) => return 1,
                Ok((_, Some(4 | 5 | 6 | 7 | 8 | 11))) => died += 1,
                _ => (),
            }
            if died > 1 {
                let (ei, idx) = cases.first().copied().unwrap_or((0, 0));
                let what = cases.iter().map(|&(e, i)| format!("{} case {}", c.engines[e].name, i)).collect::<Vec<_>>().join(", ");
                report(c.engines[ei].name, idx, &format!("the process died from signal {} in repeated runs, but not for one case alone; first time in flight:", sig), &what);
                return 1;
            }
        }
    }
    println!("INCONCLUSIVE: the crash could not be attributed to a case");
    2
}

/// Runs one case in a process of its own; how it failed, if it did.
fn alone(exe: &Path, id: &str, engine: &str, idx: u64, time_counts: bool) -> Option<(String, String)> {
    let mut ch = Command::new(exe)
        .args([id, "one", engine, &idx.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .ok()?;
    let errpipe = ch.stderr.take().unwrap();
    let reader = std::thread::spawn(move || {
        use std::io::Read;
        let mut s = Vec::new();
        let _ = errpipe.take(1 << 20).read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let s0 = Instant::now();
    let mut how = None;
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => {
                if let Some(sig) = s.signal() {
                    if sig != 9 {
                        how = Some(format!("process died from signal {}", sig));
                    }
                } else if s.code() == Some(1) {
                    how = Some("violation".into());
                }
                break;
            }
            Ok(None) => {
                if s0.elapsed() > Duration::from_secs(CASE_CPU_S + 20) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    if time_counts {
                        how = Some(format!("did not finish within {} s", CASE_CPU_S + 20));
                    }
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            Err(_) => break,
        }
    }
    let err = reader.join().unwrap_or_default();
    how.map(|h| (h, err.lines().take(40).collect::<Vec<_>>().join("\n")))
}
