//! C10: cached constants under every schedule (stateless exploration of the real code) and every request history.
//! usage: conc run C10 <tier> [space case] | conc worker ... | conc explore <preemption bound>   (configurations on stdin)
#[macro_use]
extern crate mccore;
use algebraics::interval_arithmetic::DyadicFractionInterval as I;
use mccore::engine::{self, Property, Rec, Space, Tier};
use mccore::refmath::*;
use num_bigint::BigInt;
use num_traits::One;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Write};
use vstd::sched;

/// one request: S<p> square root of two, L<p> logarithm of two, G<k> / E<k> logarithm / exponential of a fixed interval
fn request(op: &str) -> I {
    let n: usize = op[1..].parse().unwrap();
    let args: [(i64, i64, usize); 4] = [(3, 3, 1), (5, 7, 8), (-9, 100, 4), (1000, 1000, 30)];
    match &op[..1] {
        "S" => I::sqrt_2(n),
        "L" => I::natural_log_of_2(n),
        "G" => I::new(bi(args[n].0.abs()), bi(args[n].1), args[n].2).log(),
        "E" => I::new(bi(args[n].0), bi(args[n].1), args[n].2).exp(),
        _ => unreachable!(),
    }
}
fn plain(i: I) -> (BigInt, BigInt, usize) {
    i.destructure()
}
fn show(d: &(BigInt, BigInt, usize)) -> String {
    format!("[{}, {}]/2^{}", d.0, d.1, d.2)
}
fn answer(op: &str) -> Result<String, String> {
    std::panic::catch_unwind(|| show(&plain(request(op)))).map_err(|e| {
        let s = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
        format!("request {} panicked: {}", op, s)
    })
}
/// what a request made alone must look like
fn judge(op: &str, got: &str) -> Result<(), String> {
    let f: Vec<&str> = got.split(|c: char| "[],/^ ".contains(c)).filter(|s| !s.is_empty()).collect();
    let (lo, hi, k): (BigInt, BigInt, usize) = (f[0].parse().unwrap(), f[1].parse().unwrap(), f[3].parse().unwrap());
    let p: usize = op[1..].parse().unwrap();
    ensure!(lo <= hi, "request {}: {} has its bounds out of order", op, got);
    let (flo, chi) = match &op[..1] {
        "S" => {
            let n = BigInt::one() << (2 * p + 1);
            (sqrt_floor(&n), sqrt_ceil(&n))
        }
        "L" => {
            let (a, b) = ln2_enc(p + 64);
            (floor_at(&a, p), ceil_at(&b, p))
        }
        _ => return Ok(()), // only compared with the same request made alone; judged by C09
    };
    eqv!(k, p, "request {}: precision of {}", op, got);
    ensure!(lo <= flo && hi >= chi, "request {}: {} does not contain the constant ([{}, {}] does)", op, got, flo, chi);
    ensure!(&hi - &lo <= bi(3), "request {}: {} is more than 3 units wide", op, got);
    Ok(())
}

struct Shared(*mut sched::Trace);
fn shared() -> Shared {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<sched::Trace>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        Shared(p as *mut sched::Trace)
    }
}
/// one execution in a fresh process image (all statics as at program start)
fn execute(sh: &Shared, threads: &[Vec<String>], prefix: &[u8], alone: &BTreeMap<String, String>, report: bool) -> Result<(), String> {
    let t = unsafe { &mut *sh.0 };
    t.verdict = 0;
    t.steps = 0;
    t.diverged = 0;
    t.msg_len = 0;
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::alarm(60);
            sched::set_trace(sh.0);
            let bodies: Vec<Box<dyn FnOnce() + Send>> = threads
                .iter()
                .enumerate()
                .map(|(ti, ops)| {
                    let ops = ops.clone();
                    let alone = alone.clone();
                    Box::new(move || {
                        for op in &ops {
                            match answer(op) {
                                Err(m) => sched::finish(sched::FAILED, &m),
                                Ok(got) => {
                                    if report {
                                        sched::finish(sched::OK, &got);
                                    }
                                    let want = &alone[op];
                                    if got != *want {
                                        sched::finish(sched::FAILED, &format!("thread {}: request {} returned {}, alone it returns {}", ti, op, got, want));
                                    }
                                }
                            }
                        }
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            sched::run(prefix, bodies);
            sched::finish(sched::OK, "");
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
    }
    let t = unsafe { &*sh.0 };
    let msg = String::from_utf8_lossy(&t.msg[..t.msg_len as usize]).to_string();
    match t.verdict {
        sched::OK => Ok(()),
        sched::DEADLOCK => Err("deadlock".into()),
        sched::TOO_LONG => Err(format!("more than {} steps", sched::MAX_STEPS)),
        sched::FAILED => Err(msg),
        _ => Err("the execution died or never ended".into()),
    }
}
#[derive(Default)]
struct Stats {
    schedules: u64,
    transitions: u64,
    nodes: u64,
    diverged: u64,
    longest: u64,
}
/// depth-first search over all schedules with at most `bound` preemptions
fn explore(sh: &Shared, threads: &[Vec<String>], bound: u32, alone: &BTreeMap<String, String>, st: &mut Stats) -> Result<(), String> {
    struct Node {
        mask: u8,
        running: u8,
        can: bool,
        choice: u8,
        tried: u8,
        preempt: u32, // before this step
    }
    let mut path: Vec<Node> = vec![];
    loop {
        let prefix: Vec<u8> = path.iter().map(|n| n.choice).collect();
        let r = execute(sh, threads, &prefix, alone, false);
        let t = unsafe { &*sh.0 };
        st.schedules += 1;
        st.transitions += t.steps as u64;
        st.longest = st.longest.max(t.steps as u64);
        st.diverged += t.diverged as u64;
        if let Err(m) = r {
            let s: Vec<String> = t.step[..t.steps as usize].iter().map(|s| s[3].to_string()).collect();
            return Err(format!("{} (schedule {})", m, s.join("")));
        }
        for k in path.len()..t.steps as usize {
            let s = t.step[k];
            let preempt = match path.last() {
                None => 0,
                Some(p) => p.preempt + (p.can && p.choice != p.running) as u32,
            };
            path.push(Node { mask: s[0], running: s[1], can: s[2] == 1, choice: s[3], tried: 1 << s[3], preempt });
            st.nodes += 1;
        }
        loop {
            let n = match path.last_mut() {
                None => return Ok(()),
                Some(n) => n,
            };
            let left = n.mask & !n.tried;
            let affordable = !n.can || n.preempt < bound;
            if left != 0 && affordable {
                n.choice = left.trailing_zeros() as u8;
                n.tried |= 1 << n.choice;
                st.nodes += 1;
                break;
            }
            path.pop();
        }
    }
}
/// configurations: threads separated by '|', their requests by ','
fn parse(c: &str) -> Vec<Vec<String>> {
    c.split('|').map(|t| t.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()).collect()
}
fn explore_main(bound: u32) {
    std::panic::set_hook(Box::new(|_| {}));
    // only one thread runs at a time: keep all of them on the core this process was started on
    unsafe {
        let cpu = libc::sched_getcpu();
        if cpu >= 0 {
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(cpu as usize, &mut set);
            libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
        }
    }
    let configs: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    let sh = shared();
    let mut alone = BTreeMap::new();
    let mut st = Stats::default();
    let out = |s: String| {
        let mut o = std::io::stdout().lock();
        let _ = writeln!(o, "{}", s.replace('\n', " "));
        let _ = o.flush();
    };
    let ops: BTreeSet<String> = configs.iter().flat_map(|c| parse(c).into_iter().flatten().collect::<Vec<_>>()).collect();
    for op in &ops {
        let r = execute(&sh, &[vec![op.clone()]], &[], &alone, true).and_then(|_| {
            let t = unsafe { &*sh.0 };
            let got = String::from_utf8_lossy(&t.msg[..t.msg_len as usize]).to_string();
            judge(op, &got).map(|_| got)
        });
        match r {
            Ok(got) => {
                alone.insert(op.clone(), got);
            }
            Err(m) => {
                out(format!("V\t{}", m));
                return;
            }
        }
    }
    for c in &configs {
        let th = parse(c);
        if let Err(m) = explore(&sh, &th, bound, &alone, &mut st) {
            out(format!("V\trequests {}: {}", c, m));
            return;
        }
    }
    out(format!("R\t{}\t{}\t{}\t{}\t{}", st.schedules, st.transitions, st.nodes, st.diverged, st.longest));
}
fn case(configs: &[String], bound: u32, rec: &mut Rec) -> Result<(), String> {
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["explore", &bound.to_string()])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    ch.stdin.take().unwrap().write_all(configs.join("\n").as_bytes()).unwrap();
    let out = ch.wait_with_output().unwrap();
    let txt = String::from_utf8_lossy(&out.stdout).to_string();
    for l in txt.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "V" => return Err(f[1..].join(" ")),
            "R" => {
                let n = |i: usize| f[i].parse::<u64>().unwrap();
                ensure!(n(4) == 0, "the execution is not determined by the schedule ({} divergences)", n(4));
                rec.steps(n(2));
                rec.distinct(n(3));
                for _ in 0..n(1) {
                    rec.compared();
                }
                rec.outcome(&configs);
                let (c, s, m) = (configs[0].clone(), n(1), n(5));
                rec.sample(|| format!("{} ({} configurations): {} schedules, up to {} steps each", c, configs.len(), s, m));
                return Ok(());
            }
            _ => {}
        }
    }
    Err(format!("exploration of {:?} ended abnormally ({})", configs, out.status))
}
fn ops(kind: char, ps: &[usize]) -> Vec<String> {
    ps.iter().map(|p| format!("{}{}", kind, p)).collect()
}
fn sequences(alpha: &[String], len: usize) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![vec![]];
    for _ in 0..len {
        v = v.into_iter().flat_map(|p| alpha.iter().map(move |a| [p.clone(), vec![a.clone()]].concat())).collect();
    }
    v
}
/// multisets of `n` thread programs
fn teams(progs: &[Vec<String>], n: usize) -> Vec<String> {
    fn go(progs: &[Vec<String>], from: usize, n: usize, cur: &mut Vec<String>, out: &mut Vec<String>) {
        if n == 0 {
            out.push(cur.join("|"));
            return;
        }
        for i in from..progs.len() {
            cur.push(progs[i].join(","));
            go(progs, i, n - 1, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(progs, 0, n, &mut vec![], &mut out);
    out
}
fn space(name: &str, bound: &str, configs: Vec<String>, batch: usize, pb: u32) -> Space {
    let b: Vec<Vec<String>> = configs.chunks(batch).map(|c| c.to_vec()).collect();
    let mut s = Space::new(name, &format!("{}: {} configurations", bound, configs.len()), b.len() as u64, move |i, rec| case(&b[i as usize], pb, rec));
    s.chunk = 1;
    s
}
fn c10(tier: Tier) -> Property {
    let edges = [0usize, 1, 8, 31, 32, 33, 39, 40, 41, 49, 50, 51, 62, 63, 64, 79, 80, 81, 100, 101, 102, 127, 128, 300, 1000];
    let mut sp = vec![];
    let seq = |v: Vec<Vec<String>>| -> Vec<String> { v.into_iter().map(|s| s.join(",")).collect() };
    // histories
    let both: Vec<String> = [ops('L', &edges), ops('S', &edges), vec!["G0".into(), "G1".into(), "E0".into(), "E2".into()]].concat();
    sp.push(space("histories-2", "every sequence of two requests for either constant at 25 precisions around every cache boundary, and for functions using them", seq(sequences(&both, 2)), 64, 0));
    let few = [0usize, 32, 39, 40, 50, 63, 80, 101, 127];
    let few = if tier == Tier::Quick { &few[..] } else { &edges[..20] };
    sp.push(space("histories-3-log", "every sequence of three requests for the logarithm of two", seq(sequences(&ops('L', few), 3)), 128, 0));
    sp.push(space("histories-3-sqrt", "every sequence of three requests for the square root of two", seq(sequences(&ops('S', few), 3)), 128, 0));
    let deep: Vec<String> = ["L8", "L40", "L63", "L101", "S8", "S63", "G3", "E3"].iter().map(|s| s.to_string()).collect();
    sp.push(space("histories-4", "every sequence of four (thorough five) requests out of eight", seq(sequences(&deep, tier.pick(4, 5))), 256, 0));
    if tier == Tier::Thorough {
        let all: Vec<String> = (0..=700).flat_map(|p| [format!("L{}", p), format!("S{}", p), format!("L2000,L{}", p), format!("S2000,S{}", p)]).collect();
        sp.push(space("all-precisions", "every precision from 0 to 700 alone and after a request for 2000 bits", all, 40, 0));
    } else {
        let all: Vec<String> = (0..=260).flat_map(|p| [format!("L{}", p), format!("S{}", p), format!("L700,L{}", p), format!("S700,S{}", p)]).collect();
        sp.push(space("all-precisions", "every precision from 0 to 260 alone and after a request for 700 bits", all, 20, 0));
    }
    // schedules
    let one = |a: &[&str]| -> Vec<Vec<String>> { a.iter().map(|s| s.split(',').map(|s| s.to_string()).collect()).collect() };
    let singles = one(&["L8", "L40", "L64", "L101", "S8", "S101"]);
    sp.push(space("two-threads", "two threads with one request each, every interleaving (no preemption bound)", teams(&singles, 2), 1, u32::MAX));
    let singles = one(&["L8", "L101", "S101", "G0", "G3", "E0", "E3"]);
    let with: Vec<String> = teams(&singles, 2).into_iter().filter(|c| c.contains(|k| k == 'G' || k == 'E')).collect();
    sp.push(space("two-threads-functions", "two threads with one request each, at least one for a function using the constants, every schedule with at most 3 (thorough 5) preemptions", with, 1, tier.pick(3, 5)));
    let p2 = sequences(&ops('L', &[8, 40, 101]), 2);
    sp.push(space("two-threads-two-requests", "two threads with two requests for the logarithm of two each, every schedule with at most 4 (thorough 6) preemptions", teams(&p2, 2), 1, tier.pick(4, 6)));
    let p2 = sequences(&["L40".into(), "S40".into(), "S101".into()], 2);
    sp.push(space("two-threads-both-constants", "two threads with two requests for either constant each, at most 2 (thorough 4) preemptions", teams(&p2, 2), 1, tier.pick(2, 4)));
    sp.push(space("three-threads", "three threads with one request each, at most 2 (thorough 3) preemptions", teams(&one(&["L8", "L40", "L101"]), 3), 1, tier.pick(2, 3)));
    sp.push(space("three-threads-mixed", "three threads with one request for either constant or a function using it, at most 1 (thorough 2) preemptions", teams(&one(&["L40", "L101", "S40", "S101", "E3"]), 3), 1, tier.pick(1, 2)));
    if tier == Tier::Thorough {
        sp.push(space("three-threads-two-requests", "three threads with two requests each, at most 2 preemptions", teams(&sequences(&ops('L', &[8, 63, 101]), 2)[..6], 3), 1, 2));
        sp.push(space("four-threads", "four threads with one request each, at most 2 preemptions", teams(&one(&["L8", "L40", "L101"]), 4), 1, 2));
    }
    Property {
        id: "C10",
        spaces: sp,
        assumptions: vec![
            "the library is compiled from /repo/src with std and lazy_static replaced by versions whose locks, once-cells and atomics are scheduling points; atomics are sequentially consistent".into(),
            "every execution starts in a fresh process image, so caches are empty; states counts nodes of the schedule tree, transitions scheduling steps executed, traces complete executions".into(),
        ],
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match a[1].as_str() {
        "run" => {
            let only = a.get(4).map(|s| {
                let c: u64 = a[5].parse().unwrap();
                (s.clone(), c, c + 1)
            });
            let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
            std::process::exit(engine::supervise(c10(tier(&a[3])), tier(&a[3]), std::path::Path::new(&verif), only));
        }
        "worker" => {
            let prog = if a[5] == "-" { None } else { Some(a[5].clone().into()) };
            let only = a.get(6).map(|s| (s.clone(), a[7].parse().unwrap(), a[8].parse().unwrap()));
            engine::worker(c10(tier(&a[3])), only, prog, a[4].parse().unwrap());
        }
        "explore" => explore_main(a[2].parse().unwrap()),
        _ => std::process::exit(2),
    }
}
