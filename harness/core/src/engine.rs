//! Exhaustive-enumeration engine: a property is a list of finite spaces; every index of every space is executed on
//! the real code. The supervisor process owns verdicts, evidence and crash attribution; the worker does the work.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    pub fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

/// what one execution (case) recorded
#[derive(Default)]
pub struct Rec {
    pub transitions: u64,
    pub compared: u64,
    states: HashSet<u64>,
    distinct: u64,
    outcomes: HashSet<u64>,
    sample: Option<String>,
    want_sample: bool,
}
fn h64<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
impl Rec {
    /// one call into the code under test
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// a distinct state / input of the space was reached
    pub fn state<T: Hash + ?Sized>(&mut self, v: &T) {
        self.states.insert(h64(v));
    }
    /// `n` states / inputs that are distinct from all others of the space by construction
    pub fn distinct(&mut self, n: u64) {
        self.distinct += n;
    }
    /// a distinct observed outcome
    pub fn outcome<T: Hash + ?Sized>(&mut self, v: &T) {
        if self.outcomes.len() < 1 << 20 {
            self.outcomes.insert(h64(v));
        }
    }
    /// the case was completely compared with the model
    pub fn compared(&mut self) {
        self.compared += 1;
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_sample {
            self.sample = Some(f());
            self.want_sample = false;
        }
    }
}

pub type CaseFn = Box<dyn Fn(u64, &mut Rec) -> Result<(), String> + Sync>;
pub struct Space {
    pub name: String,
    pub bound: String,
    pub total: u64,
    pub chunk: u64,
    pub run: CaseFn,
}
impl Space {
    pub fn new<F: Fn(u64, &mut Rec) -> Result<(), String> + Sync + 'static>(
        name: &str,
        bound: &str,
        total: u64,
        run: F,
    ) -> Space {
        Space { name: name.into(), bound: bound.into(), total, chunk: 0, run: Box::new(run) }
    }
}
pub struct Property {
    pub id: &'static str,
    pub spaces: Vec<Space>,
    pub assumptions: Vec<String>,
}

/// mixed-radix decoding of an index
pub struct Ix(pub u64);
impl Ix {
    pub fn take(&mut self, n: usize) -> usize {
        let r = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        r
    }
}

/// runs `f`, turning a panic into Err(message)
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_CATCH.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CATCH.with(|c| c.set(c.get() - 1));
    r.map_err(|e| {
        let s = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = LAST_LOC.with(|l| l.borrow().clone());
        format!("{} ({})", s, loc)
    })
}
thread_local! {
    static IN_CATCH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static LAST_LOC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

#[cold]
#[inline(never)]
pub fn fail(a: std::fmt::Arguments) -> String {
    a.to_string()
}
#[cold]
#[inline(never)]
pub fn fail_eq(l: &dyn std::fmt::Debug, r: &dyn std::fmt::Debug, a: std::fmt::Arguments) -> String {
    format!("{}: got {:?}, expected {:?}", a, l, r)
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::engine::fail(format_args!($($t)*))); } };
}

#[macro_export]
macro_rules! eqv {
    ($l:expr, $r:expr, $($ctx:tt)*) => { match (&$l, &$r) {
        (l, r) => if l != r { return Err($crate::engine::fail_eq(l, r, format_args!($($ctx)*))); }
    }};
}

const HANG_SECS: u64 = 150;
const MAX_VIOLATIONS: usize = 3;
const STACK: usize = 64 << 20;

struct Slot {
    space: AtomicU64,
    case: AtomicU64,
    started_ms: AtomicU64, // 0: idle
}

fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// worker protocol: lines on stdout, tab separated
///   V <space> <case> <msg>        violation
///   S <space> <cases> <transitions> <states> <outcomes> <compared>
///   X <text>  sample
///   DONE
pub fn worker(prop: Property, only: Option<(String, u64, u64)>, progress: Option<PathBuf>, threads: usize) {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_LOC.with(|l| *l.borrow_mut() = loc);
    }));
    let t0 = Instant::now();
    let out = Mutex::new(std::io::stdout());
    let emit = |s: String| {
        let mut o = out.lock().unwrap();
        let _ = writeln!(o, "{}", s.replace('\n', "\\n"));
        let _ = o.flush();
    };
    let progress = progress.map(|p| std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(p).unwrap());
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot { space: AtomicU64::new(0), case: AtomicU64::new(0), started_ms: AtomicU64::new(0) })
        .collect();
    let stop = AtomicBool::new(false);
    let finished = AtomicBool::new(false);
    let nviol = AtomicU64::new(0);
    std::thread::scope(|s| {
        // watchdog
        s.spawn(|| {
            while !finished.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                let now = t0.elapsed().as_millis() as u64;
                for sl in &slots {
                    let st = sl.started_ms.load(SeqCst);
                    if st != 0 && now > st + HANG_SECS * 1000 {
                        let sp = &prop.spaces[sl.space.load(SeqCst) as usize];
                        emit(format!("V\t{}\t{}\tdoes not terminate: still running after {} s", sp.name, sl.case.load(SeqCst), HANG_SECS));
                        std::process::exit(0);
                    }
                }
            }
        });
        for (si, sp) in prop.spaces.iter().enumerate() {
            let (lo, hi) = match &only {
                Some((n, a, b)) => {
                    if *n != sp.name {
                        continue;
                    }
                    (*a, (*b).min(sp.total))
                }
                None => (0, sp.total),
            };
            if stop.load(SeqCst) {
                break;
            }
            let chunk = if sp.chunk != 0 { sp.chunk } else { ((hi - lo) / (threads as u64 * 64)).clamp(1, 256) };
            let next = AtomicU64::new(lo);
            let agg = Mutex::new(Rec::default());
            let ncases = AtomicU64::new(0);
            std::thread::scope(|s2| {
                for ti in 0..threads {
                    let (next, agg, ncases, slots, stop, nviol, emit, progress) =
                        (&next, &agg, &ncases, &slots, &stop, &nviol, &emit, &progress);
                    let body = move || {
                        let mut rec = Rec::default();
                        let mut done = 0u64;
                        'outer: loop {
                            if stop.load(SeqCst) {
                                break;
                            }
                            let a = next.fetch_add(chunk, SeqCst);
                            if a >= hi {
                                break;
                            }
                            let b = (a + chunk).min(hi);
                            if let Some(f) = progress {
                                let mut buf = [0u8; 24];
                                buf[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                                buf[8..16].copy_from_slice(&a.to_le_bytes());
                                buf[16..].copy_from_slice(&b.to_le_bytes());
                                let _ = f.write_at(&buf, ti as u64 * 24);
                            }
                            for i in a..b {
                                let sl = &slots[ti];
                                sl.space.store(si as u64, SeqCst);
                                sl.case.store(i, SeqCst);
                                sl.started_ms.store((t0.elapsed().as_millis() as u64).max(1), SeqCst);
                                rec.want_sample = i == lo || i == lo + (hi - lo) / 2 || i == hi - 1;
                                let r = match catch(|| (sp.run)(i, &mut rec)) {
                                    Ok(r) => r,
                                    Err(p) => Err(format!("panicked: {}", p)),
                                };
                                sl.started_ms.store(0, SeqCst);
                                done += 1;
                                if let Some(s) = rec.sample.take() {
                                    emit(format!("X\t{}[{}]: {}", sp.name, i, s));
                                }
                                if let Err(m) = r {
                                    emit(format!("V\t{}\t{}\t{}", sp.name, i, m));
                                    if nviol.fetch_add(1, SeqCst) + 1 >= MAX_VIOLATIONS as u64 {
                                        stop.store(true, SeqCst);
                                        break 'outer;
                                    }
                                }
                            }
                        }
                        if let Some(f) = progress {
                            let _ = f.write_at(&[0u8; 24], ti as u64 * 24);
                        }
                        ncases.fetch_add(done, SeqCst);
                        let mut g = agg.lock().unwrap();
                        g.transitions += rec.transitions;
                        g.compared += rec.compared;
                        g.distinct += rec.distinct;
                        if g.states.is_empty() {
                            std::mem::swap(&mut g.states, &mut rec.states);
                        }
                        g.states.extend(rec.states);
                        g.outcomes.extend(rec.outcomes);
                    };
                    std::thread::Builder::new().stack_size(STACK).spawn_scoped(s2, body).unwrap();
                }
            });
            let g = agg.into_inner().unwrap();
            emit(format!(
                "S\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
                sp.name,
                ncases.load(SeqCst),
                g.transitions,
                g.states.len() as u64 + g.distinct,
                g.outcomes.len(),
                g.compared,
                t0.elapsed().as_millis()
            ));
        }
        finished.store(true, SeqCst);
    });
    emit("DONE".into());
}

struct SpaceStat {
    name: String,
    cases: u64,
    transitions: u64,
    states: u64,
    outcomes: u64,
    compared: u64,
}

struct RunOut {
    viol: Vec<(String, u64, String)>,
    stats: Vec<SpaceStat>,
    samples: Vec<String>,
    done: bool,
    status: String,
}

fn run_child(args: &[String]) -> RunOut {
    let exe = std::env::current_exe().unwrap();
    let mut ch = std::process::Command::new(exe)
        .args(args)
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("spawn worker");
    let mut txt = String::new();
    ch.stdout.take().unwrap().read_to_string(&mut txt).unwrap();
    let st = ch.wait().unwrap();
    let mut o = RunOut { viol: vec![], stats: vec![], samples: vec![], done: false, status: format!("{}", st) };
    for l in txt.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "V" => o.viol.push((f[1].into(), f[2].parse().unwrap(), f[3..].join(" "))),
            "S" => o.stats.push(SpaceStat {
                name: f[1].into(),
                cases: f[2].parse().unwrap(),
                transitions: f[3].parse().unwrap(),
                states: f[4].parse().unwrap(),
                outcomes: f[5].parse().unwrap(),
                compared: f[6].parse().unwrap(),
            }),
            "X" => o.samples.push(f[1..].join(" ")),
            "DONE" => o.done = true,
            _ => {}
        }
    }
    o
}

fn known_findings(verif: &Path, id: &str) -> Vec<String> {
    // lines: "finding: property=<id> <key>": key is a prefix of "<space>: <message>"
    let pre = format!("finding: property={} ", id);
    std::fs::read_to_string(verif.join("KNOWN_FINDINGS.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&pre).map(|s| s.to_string()))
        .collect()
}

/// supervisor; returns the exit code
pub fn supervise(prop: Property, tier: Tier, verif: &Path, only: Option<(String, u64, u64)>) -> i32 {
    let t0 = Instant::now();
    let id = prop.id;
    let threads = std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 16));
    let tmp = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let prog = tmp.join("progress");
    let mut args = vec!["worker".to_string(), id.into(), tier.name().into(), threads.to_string(), prog.display().to_string()];
    if let Some((n, a, b)) = &only {
        args.extend([n.clone(), a.to_string(), b.to_string()]);
    }
    let mut r = run_child(&args);
    if !r.done && r.viol.is_empty() {
        // the worker died: find the case that kills it, each chunk in flight alone
        let mut buf = vec![];
        let _ = std::fs::File::open(&prog).and_then(|mut f| f.read_to_end(&mut buf));
        let mut confirmed = false;
        for c in buf.chunks_exact(24) {
            let g = |i: usize| u64::from_le_bytes(c[i * 8..i * 8 + 8].try_into().unwrap());
            if g(0) == 0 {
                continue;
            }
            let sp = &prop.spaces[g(0) as usize - 1];
            for i in g(1)..g(2) {
                let a = vec![
                    "worker".into(), id.into(), tier.name().into(), "1".into(), "-".into(),
                    sp.name.clone(), i.to_string(), (i + 1).to_string(),
                ];
                let one = run_child(&a);
                if !one.viol.is_empty() {
                    r.viol.extend(one.viol);
                    confirmed = true;
                } else if !one.done {
                    r.viol.push((sp.name.clone(), i, format!("the process dies while executing this case ({})", one.status)));
                    confirmed = true;
                }
                if confirmed {
                    break;
                }
            }
            if confirmed {
                break;
            }
        }
        if !confirmed {
            eprintln!("ERROR: worker ended abnormally ({}) and no single case reproduces it", r.status);
            let _ = std::fs::remove_dir_all(&tmp);
            return 2;
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    // classify
    let known = known_findings(verif, id);
    let mut new = vec![];
    for (sp, i, m) in &r.viol {
        let full = format!("{}: {}", sp, m);
        if known.iter().any(|k| full.starts_with(k.as_str())) {
            println!("KNOWN-FINDING: property={} {}", id, full);
        } else {
            new.push((sp.clone(), *i, m.clone()));
        }
    }
    new.sort();
    let mut first = None;
    if !new.is_empty() {
        let dir = verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        for (k, (sp, i, m)) in new.iter().enumerate() {
            let p = dir.join(format!("{}-{}.json", id, k));
            let body = format!(
                "{{\"property\": {}, \"tier\": {}, \"space\": {}, \"case\": {}, \"message\": {}, \"replay_cmd\": {}}}\n",
                json_str(id), json_str(tier.name()), json_str(sp), i, json_str(m),
                json_str(&format!("cd {} && ./check.sh {} {} {} {}", verif.display(), id, tier.name(), sp, i))
            );
            let _ = std::fs::write(&p, body);
            println!("violation: {} case {}: {}", sp, i, m);
            if first.is_none() {
                first = Some(p);
            }
        }
    }
    // evidence
    if only.is_none() {
        let sum = |f: fn(&SpaceStat) -> u64| r.stats.iter().map(f).sum::<u64>();
        let exhaustive = r.done
            && prop.spaces.len() == r.stats.len()
            && prop.spaces.iter().zip(&r.stats).all(|(a, b)| a.name == b.name && a.total == b.cases);
        let spaces: Vec<String> = prop
            .spaces
            .iter()
            .map(|s| {
                let st = r.stats.iter().find(|t| t.name == s.name);
                format!(
                    "{{\"space\": {}, \"bound\": {}, \"size\": {}, \"executed\": {}, \"transitions\": {}, \"distinct_states\": {}, \"distinct_outcomes\": {}}}",
                    json_str(&s.name), json_str(&s.bound), s.total,
                    st.map_or(0, |t| t.cases), st.map_or(0, |t| t.transitions), st.map_or(0, |t| t.states), st.map_or(0, |t| t.outcomes)
                )
            })
            .collect();
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"executions\": {},\n  \"distinct_outcomes\": {},\n  \"spaces\": [\n   {}\n  ],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            json_str(id), json_str(tier.name()),
            std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            sum(|s| s.states), sum(|s| s.transitions), sum(|s| s.compared), exhaustive,
            sum(|s| s.cases), sum(|s| s.outcomes),
            spaces.join(",\n   "),
            r.samples.iter().take(30).map(|s| json_str(&s.chars().take(600).collect::<String>())).collect::<Vec<_>>().join(", "),
            prop.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
            t0.elapsed().as_secs_f64(), new.len()
        );
        let _ = std::fs::create_dir_all(verif.join("evidence"));
        std::fs::write(verif.join("evidence").join(format!("{}.json", id)), ev).unwrap();
        for s in &r.stats {
            println!("{} {}: executed={} transitions={} states={} outcomes={}", id, s.name, s.cases, s.transitions, s.states, s.outcomes);
        }
        println!("{}: tier={} states={} transitions={} exhaustive={} wall={:.1}s", id, tier.name(), sum(|s| s.states), sum(|s| s.transitions), exhaustive, t0.elapsed().as_secs_f64());
    }
    if let Some(p) = first {
        println!("VIOLATION property={} replay={}", id, p.display());
        1
    } else if !r.done {
        eprintln!("ERROR: incomplete run ({})", r.status);
        2
    } else {
        0
    }
}
