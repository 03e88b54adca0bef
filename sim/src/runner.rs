//! Supervisor, workers, shrinking, replay, evidence.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::checks;
use crate::core::*;

// ---------------------------------------------------------------- hash seeds behind a seam

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0x1234_5678) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
/// std's hash-map keys come from here, so hash order is part of the seed.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, _flags: u32) -> isize {
    let mut s = HASH_SEED.try_with(|h| h.get()).unwrap_or(7);
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for c in out.chunks_mut(8) {
        let v = splitmix(&mut s).to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
    let _ = HASH_SEED.try_with(|h| h.set(s));
    len as isize
}

/// So does the clock: code that runs inside a simulation sees virtual time.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    match CLOCK.try_with(|c| c.get()).unwrap_or(0) {
        0 => libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int,
        now => {
            let us = now - 1 + 1_600_000_000_000_000;
            (*ts).tv_sec = (us / 1_000_000) as _;
            (*ts).tv_nsec = (us % 1_000_000 * 1000) as _;
            0
        }
    }
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let _ = PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                if p.is_none() {
                    *p = Some((loc, msg));
                }
            }
        });
    }));
}

#[derive(Debug)]
pub struct RunOut {
    pub rec: Vec<u64>,
    pub violation: Option<Violation>,
    pub harness_error: Option<String>,
    pub counters: BTreeMap<&'static str, u64>,
    pub log_hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub sim_us: u64,
    pub multi: u64,
    pub events: u64,
    pub trace: Vec<String>,
    pub notes: Vec<String>,
}

/// Execute one run on a fresh thread.
pub fn run_one(prop: &'static str, src: Source, trace: bool, record: Option<fs::File>) -> RunOut {
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            install(src, trace);
            set_record(record);
            HASH_SEED.with(|h| h.set(raw64()));
            CLOCK.with(|c| c.set(1));
            PANIC.with(|p| *p.borrow_mut() = None);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| checks::run(prop)));
            crate::alloc::clear_limit();
            drop_events();
            let mut w = take_world().expect("world");
            let mut harness_error = None;
            if r.is_err() {
                let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()));
                if loc.starts_with("src/") && !msg.starts_with("harness:") {
                    // The comparison with the model met a result it has no place for.
                    w.violation = Some(Violation { class: format!("outside-model {}", loc.split(':').next().unwrap_or("?")), msg: format!("a result the model cannot interpret, at {loc}: {msg}") });
                } else if loc.starts_with("src/") {
                    harness_error = Some(format!("panic in the harness at {loc}: {msg}"));
                } else {
                    let file = loc.split(':').next().unwrap_or("?").to_string();
                    w.violation = Some(Violation { class: format!("panic {file}"), msg: format!("panic at {loc}: {msg}") });
                }
            }
            RunOut {
                rec: std::mem::take(&mut w.rec),
                violation: w.violation.take(),
                harness_error,
                counters: std::mem::take(&mut w.counters),
                log_hash: w.log_hash,
                sched_hash: w.sched_hash,
                steps: w.step,
                sim_us: w.now,
                multi: w.multi,
                events: w.log_len,
                trace: w.trace.take().unwrap_or_default(),
                notes: std::mem::take(&mut w.notes),
            }
        })
        .expect("thread")
        .join()
        .expect("run thread")
}

pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    // The mixed output, not the counter, is carried on: neighbouring seeds share no runs.
    let mut s = splitmix(&mut (seed ^ 0xA5A5_0000_5A5A_0001));
    for b in prop.bytes() {
        s = splitmix(&mut (s ^ b as u64));
    }
    splitmix(&mut (s ^ index))
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn root() -> PathBuf {
    PathBuf::from(std::env::var("ATSIM_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub fn main() -> i32 {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("worker") => worker(&a[2..]),
        Some("one") => one(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        Some("exec") => exec(&a[2..]),
        Some("replay") => replay(&a[2]),
        Some("hashes") => hashes(&a[2..]),
        Some("series") => series(&a[2..]),
        _ => {
            eprintln!("usage: atsim check <ID> | one <ID> <seed> <index> | replay <file>");
            2
        }
    }
}

fn prop_of(id: &str) -> &'static str {
    checks::PROPS.iter().map(|p| p.id).find(|p| *p == id).unwrap_or_else(|| {
        eprintln!("HARNESS-ERROR unknown property {id}");
        std::process::exit(2)
    })
}

// ---------------------------------------------------------------- worker

/// worker <ID> <seed> <count> <k> <n> <dir> <deadline seconds>
fn worker(a: &[String]) -> i32 {
    let prop = prop_of(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let count: u64 = a[2].parse().unwrap();
    let k: u64 = a[3].parse().unwrap();
    let n: u64 = a[4].parse().unwrap();
    let dir = PathBuf::from(&a[5]);
    let deadline: f64 = a[6].parse().unwrap();
    let start = Instant::now();
    let cur = fs::File::create(dir.join(format!("cur.{k}"))).unwrap();
    let limit = fs::OpenOptions::new().read(true).write(true).open(dir.join("limit")).unwrap();
    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut runs_with: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: Vec<u8> = vec![];
    let (mut runs, mut steps, mut sim_us, mut multi, mut nontrivial, mut events) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut i = k;
    let mut capped = false;
    // A crashed worker is restarted after the run that crashed.
    if let Some(s) = a.get(7) {
        i = s.parse().unwrap();
    }
    while i < count {
        if start.elapsed().as_secs_f64() > deadline {
            capped = true;
            break;
        }
        let mut lb = [0u8; 8];
        let _ = limit.read_at(&mut lb, 0);
        if i >= u64::from_le_bytes(lb) {
            break;
        }
        cur.write_at(&i.to_le_bytes(), 0).unwrap();
        let out = run_one(prop, Source::Random(Rng::new(run_seed(seed, prop, i))), false, None);
        runs += 1;
        steps += out.steps;
        sim_us += out.sim_us;
        events += out.events;
        multi += out.multi;
        for (c, v) in &out.counters {
            *counters.entry(c).or_insert(0) += v;
            *runs_with.entry(c).or_insert(0) += 1;
        }
        let nt = out.multi > 0 || out.counters.keys().any(|c| c.starts_with("fault.") || c.starts_with("damage."));
        if nt {
            nontrivial += 1;
            hashes.extend(out.log_hash.to_le_bytes());
            hashes.extend(out.sched_hash.to_le_bytes());
        }
        if let Some(e) = out.harness_error {
            let v = json!({"index": i, "error": e});
            fs::write(dir.join(format!("herr.{k}")), v.to_string()).unwrap();
            return 3;
        }
        if let Some(v) = out.violation {
            let mut lb = [0u8; 8];
            let _ = limit.read_at(&mut lb, 0);
            if i < u64::from_le_bytes(lb) {
                limit.write_at(&i.to_le_bytes(), 0).unwrap();
            }
            let v = json!({"index": i, "class": v.class, "msg": v.msg, "choices": out.rec});
            fs::write(dir.join(format!("viol.{k}")), v.to_string()).unwrap();
            break;
        }
        i += n;
    }
    cur.write_at(&u64::MAX.to_le_bytes(), 0).unwrap();
    fs::write(dir.join(format!("hash.{k}.{}", a.get(7).cloned().unwrap_or_default())), &hashes).unwrap();
    let v = json!({
        "runs": runs, "steps": steps, "sim_us": sim_us, "multi": multi, "nontrivial": nontrivial, "capped": capped,
        "events": events, "counters": counters, "runs_with": runs_with,
    });
    fs::write(dir.join(format!("sum.{k}.{}", a.get(7).cloned().unwrap_or_default())), v.to_string()).unwrap();
    0
}

fn one(id: &str, seed: u64, index: u64) -> i32 {
    let prop = prop_of(id);
    let out = run_one(prop, Source::Random(Rng::new(run_seed(seed, prop, index))), true, None);
    for l in &out.trace {
        println!("{l}");
    }
    println!("steps {} sim_us {} choices {} log {:016x} counters {:?}", out.steps, out.sim_us, out.rec.len(), out.log_hash, out.counters);
    for n in &out.notes {
        println!("note: {n}");
    }
    if let Some(e) = out.harness_error {
        println!("HARNESS-ERROR {e}");
        return 2;
    }
    if let Some(v) = out.violation {
        println!("VIOLATED {} {}", v.class, v.msg);
        return 1;
    }
    0
}

/// hashes <ID> <seed> <count> <k> <n>: event-log hashes of the runs k, k+n, ... (determinism proof)
fn hashes(a: &[String]) -> i32 {
    let prop = prop_of(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let count: u64 = a[2].parse().unwrap();
    let k: u64 = a[3].parse().unwrap();
    let n: u64 = a[4].parse().unwrap();
    let mut i = k;
    while i < count {
        let o = run_one(prop, Source::Random(Rng::new(run_seed(seed, prop, i))), false, None);
        println!("{i} {:016x} {:016x} {} {} {}", o.log_hash, o.sched_hash, o.steps, o.sim_us, o.rec.len());
        i += n;
    }
    0
}

// ---------------------------------------------------------------- isolated execution

/// exec <ID> <choices.json | seed:index> <out.json> [record-file]
fn exec(a: &[String]) -> i32 {
    let prop = prop_of(&a[0]);
    let src = if let Some(s) = a[1].strip_prefix("seed:") {
        let (s, i) = s.split_once(':').unwrap();
        Source::Random(Rng::new(run_seed(s.parse().unwrap(), prop, i.parse().unwrap())))
    } else {
        let v: Value = serde_json::from_str(&fs::read_to_string(&a[1]).unwrap()).unwrap();
        let c = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        Source::Replay(c, 0)
    };
    let rec = a.get(3).map(|p| fs::File::create(p).unwrap());
    let out = run_one(prop, src, true, rec);
    let v = json!({
        "class": out.violation.as_ref().map(|v| v.class.clone()),
        "msg": out.violation.as_ref().map(|v| v.msg.clone()),
        "harness_error": out.harness_error, "choices": out.rec, "trace": out.trace,
        "log_hash": format!("{:016x}", out.log_hash),
    });
    fs::write(&a[2], v.to_string()).unwrap();
    0
}

/// series <ID> <seed> <indices, comma separated> <out.json>: several runs in one process, for
/// violations that need what earlier runs left behind in the process. Reports the last run.
fn series(a: &[String]) -> i32 {
    let prop = prop_of(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let list = fs::read_to_string(&a[2]).unwrap();
    let idx: Vec<u64> = list.split(',').map(|x| x.parse().unwrap()).collect();
    for i in &idx[..idx.len() - 1] {
        run_one(prop, Source::Random(Rng::new(run_seed(seed, prop, *i))), false, None);
    }
    let out = run_one(prop, Source::Random(Rng::new(run_seed(seed, prop, idx[idx.len() - 1]))), true, None);
    let v = json!({
        "class": out.violation.as_ref().map(|v| v.class.clone()),
        "msg": out.violation.as_ref().map(|v| v.msg.clone()),
        "trace": out.trace, "log_hash": format!("{:016x}", out.log_hash),
    });
    fs::write(&a[3], v.to_string()).unwrap();
    0
}
fn series_isolated(prop: &str, seed: u64, idx: &[u64], dir: &Path, limit: Duration) -> (Option<String>, String, Vec<String>) {
    let (f, out) = (dir.join("series.in"), dir.join("series.out"));
    fs::write(&f, idx.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",")).unwrap();
    let _ = fs::remove_file(&out);
    let mut p = Command::new(std::env::current_exe().unwrap())
        .args(["series", prop, &seed.to_string()])
        .arg(&f)
        .arg(&out)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let st = Instant::now();
    loop {
        if let Some(s) = p.try_wait().unwrap() {
            return match fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
                Some(v) => {
                    let tr = v["trace"].as_array().map(|t| t.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
                    (v["class"].as_str().map(|s| s.to_string()), v["msg"].as_str().unwrap_or("").to_string(), tr)
                }
                None => (Some("crash".into()), format!("the process died: {s}"), vec![]),
            };
        }
        if st.elapsed() > limit {
            let _ = p.kill();
            let _ = p.wait();
            return (Some("hang".into()), format!("no end within {} s of wall time", limit.as_secs()), vec![]);
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}
/// The shortest list of earlier runs found after which run `index` fails in one process.
fn find_history(prop: &str, seed: u64, index: u64, workers: u64, class: &str, dir: &Path) -> Option<Vec<u64>> {
    let before: Vec<u64> = (index % workers..index).step_by(workers as usize).collect();
    let st = Instant::now();
    let fails = |h: &[u64]| {
        let mut l = h.to_vec();
        l.push(index);
        series_isolated(prop, seed, &l, dir, Duration::from_secs(300)).0.as_deref() == Some(class)
    };
    let mut n = 1;
    let mut cur = loop {
        let h = &before[before.len() - before.len().min(n)..];
        if fails(h) {
            break h.to_vec();
        }
        if n >= before.len() {
            return None;
        }
        n *= 4;
    };
    let mut size = cur.len().div_ceil(2);
    while size > 0 && st.elapsed() < Duration::from_secs(60) {
        let mut at = 0;
        while at < cur.len() && st.elapsed() < Duration::from_secs(60) {
            let mut c = cur.clone();
            c.drain(at..(at + size).min(cur.len()));
            if fails(&c) {
                cur = c;
            } else {
                at += size;
            }
        }
        size = if size == 1 { 0 } else { size.div_ceil(2) };
    }
    Some(cur)
}

enum Ended {
    Done(Value),
    Crashed(String),
    Hung,
}
fn exec_isolated(prop: &str, src: &str, dir: &Path, limit: Duration, record: Option<&Path>) -> Ended {
    let out = dir.join("exec.out");
    let _ = fs::remove_file(&out);
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("exec").arg(prop).arg(src).arg(&out);
    if let Some(r) = record {
        c.arg(r);
    }
    let mut p = c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().unwrap();
    let st = Instant::now();
    loop {
        if let Some(s) = p.try_wait().unwrap() {
            let mut err = String::new();
            let _ = p.stderr.take().unwrap().read_to_string(&mut err);
            if s.success() {
                if let Ok(t) = fs::read_to_string(&out) {
                    return Ended::Done(serde_json::from_str(&t).unwrap());
                }
            }
            let tail: String = err.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
            return Ended::Crashed(format!("{s}: {tail}"));
        }
        if st.elapsed() > limit {
            let _ = p.kill();
            let _ = p.wait();
            return Ended::Hung;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}
const HANG: Duration = Duration::from_secs(40);

/// The violation class a choice list leads to, executed in a process of its own.
fn class_isolated(prop: &str, choices: &[u64], dir: &Path, limit: Duration) -> (Option<String>, String, Vec<String>) {
    let f = dir.join("exec.in");
    fs::write(&f, json!({"choices": choices}).to_string()).unwrap();
    match exec_isolated(prop, f.to_str().unwrap(), dir, limit, None) {
        Ended::Done(v) => {
            let tr = v["trace"].as_array().map(|t| t.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
            (v["class"].as_str().map(|s| s.to_string()), v["msg"].as_str().unwrap_or("").to_string(), tr)
        }
        Ended::Crashed(m) => (Some("crash".into()), format!("the process died: {m}"), vec![]),
        Ended::Hung => (Some("hang".into()), format!("no end within {} s of wall time", limit.as_secs()), vec![]),
    }
}
fn class_inproc(prop: &'static str, choices: &[u64]) -> Option<String> {
    let o = run_one(prop, Source::Replay(choices.to_vec(), 0), false, None);
    if o.harness_error.is_some() {
        return None;
    }
    o.violation.map(|v| v.class)
}

fn shrink(prop: &'static str, mut cur: Vec<u64>, class: &str, dir: &Path, budget: Duration) -> (Vec<u64>, u64) {
    let st = Instant::now();
    let isolated = class == "crash" || class == "hang";
    let mut tries = 0u64;
    let mut same = |c: &[u64]| -> bool {
        if st.elapsed() > budget {
            return false;
        }
        tries += 1;
        if isolated {
            let lim = if class == "hang" { Duration::from_secs(5) } else { HANG };
            class_isolated(prop, c, dir, lim).0.as_deref() == Some(class)
        } else {
            class_inproc(prop, c).as_deref() == Some(class)
        }
    };
    // Cut the tail first: unread and default choices are worth nothing.
    while cur.last() == Some(&0) {
        cur.pop();
    }
    let mut progress = true;
    while progress && st.elapsed() < budget {
        progress = false;
        // truncate
        let mut len = cur.len() / 2;
        while len > 0 {
            if cur.len() > len {
                let c = cur[..cur.len() - len].to_vec();
                if same(&c) {
                    cur = c;
                    progress = true;
                    continue;
                }
            }
            len /= 2;
        }
        // delete chunks
        let mut size = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.len() {
                let mut c = cur.clone();
                c.drain(i..(i + size).min(c.len()));
                if c != cur && same(&c) {
                    cur = c;
                    progress = true;
                } else {
                    i += size;
                }
                if st.elapsed() > budget {
                    break;
                }
            }
            if size == 1 || st.elapsed() > budget {
                break;
            }
            size /= 2;
        }
        // zero chunks, then lower single values
        let mut size = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.len() {
                let e = (i + size).min(cur.len());
                if cur[i..e].iter().any(|x| *x != 0) {
                    let mut c = cur.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if same(&c) {
                        cur = c;
                        progress = true;
                    }
                }
                i += size;
                if st.elapsed() > budget {
                    break;
                }
            }
            if size == 1 || st.elapsed() > budget {
                break;
            }
            size /= 2;
        }
        for i in 0..cur.len() {
            if st.elapsed() > budget {
                break;
            }
            let (mut lo, mut hi) = (0u64, cur[i]);
            if hi == 0 {
                continue;
            }
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = cur.clone();
                c[i] = mid;
                if same(&c) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
                if st.elapsed() > budget {
                    break;
                }
            }
            if hi < cur[i] {
                let mut c = cur.clone();
                c[i] = hi;
                if same(&c) {
                    cur = c;
                    progress = true;
                }
            }
        }
        while cur.last() == Some(&0) {
            cur.pop();
        }
    }
    (cur, tries)
}

fn replay(path: &str) -> i32 {
    let v: Value = match fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => {
            eprintln!("HARNESS-ERROR cannot read {path}");
            return 2;
        }
    };
    let prop = prop_of(v["property"].as_str().unwrap_or(""));
    if let Some(h) = v["runs_in_one_process"].as_array() {
        let h: Vec<u64> = h.iter().map(|x| x.as_u64().unwrap()).collect();
        let dir = scratch();
        let (class, msg, trace) = series_isolated(prop, v["seed"].as_u64().unwrap(), &h, &dir, Duration::from_secs(300));
        let _ = fs::remove_dir_all(&dir);
        for l in &trace {
            println!("{l}");
        }
        return if class.is_some() && class.as_deref() == v["class"].as_str() {
            println!("reproduced: {}: {msg}", class.unwrap());
            println!("VIOLATION property={prop} replay={path}");
            1
        } else {
            println!("not reproduced: {class:?} {msg}");
            0
        };
    }
    let choices: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let dir = scratch();
    let (class, msg, trace) = class_isolated(prop, &choices, &dir, HANG);
    let _ = fs::remove_dir_all(&dir);
    for l in &trace {
        println!("{l}");
    }
    match class {
        Some(c) if Some(c.as_str()) == v["class"].as_str() => {
            println!("reproduced: {c}: {msg}");
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        other => {
            println!("not reproduced: {other:?} {msg}");
            0
        }
    }
}

pub fn scratch() -> PathBuf {
    let base = std::env::temp_dir();
    for i in 0..1000u32 {
        let p = base.join(format!("atsim.{}.{}", std::process::id(), i));
        if fs::create_dir(&p).is_ok() {
            return p;
        }
    }
    panic!("no scratch directory");
}

// ---------------------------------------------------------------- supervisor

fn check(id: &str) -> i32 {
    let prop = prop_of(id);
    let info = checks::PROPS.iter().find(|p| p.id == prop).unwrap();
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    let count = env_u64("ATSIM_RUNS", if thorough { info.quick_runs * 40 } else { info.quick_runs });
    let cap = env_u64("ATSIM_CAP", if thorough { 600 } else { 90 }) as f64;
    let workers = env_u64("ATSIM_WORKERS", std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).clamp(1, 8));
    let dir = scratch();
    let code = check_in(prop, info, seed, tier, count, cap, workers, &dir);
    let _ = fs::remove_dir_all(&dir);
    code
}

#[allow(clippy::too_many_arguments)]
fn check_in(prop: &'static str, info: &checks::Prop, seed: u64, tier: &str, count: u64, cap: f64, workers: u64, dir: &Path) -> i32 {
    let start = Instant::now();
    fs::write(dir.join("limit"), u64::MAX.to_le_bytes()).unwrap();
    struct W {
        p: std::process::Child,
        done: bool,
        last: u64,
        since: Instant,
    }
    let spawn = |k: u64, from: Option<u64>| {
        let mut c = Command::new(std::env::current_exe().unwrap());
        let left = (cap - start.elapsed().as_secs_f64()).max(0.0);
        c.args(["worker", prop, &seed.to_string(), &count.to_string(), &k.to_string(), &workers.to_string()]);
        c.arg(dir).arg(left.to_string());
        if let Some(f) = from {
            c.arg(f.to_string());
        }
        let err = fs::File::create(dir.join(format!("err.{k}"))).unwrap();
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(err).spawn().expect("spawn worker")
    };
    let mut ws: Vec<W> = (0..workers).map(|k| W { p: spawn(k, None), done: false, last: u64::MAX, since: Instant::now() }).collect();
    // (index, class, msg, choices)
    let mut found: Vec<(u64, String, String, Option<Vec<u64>>)> = vec![];
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(10));
        for k in 0..workers {
            let w = &mut ws[k as usize];
            if w.done {
                continue;
            }
            let cur = fs::read(dir.join(format!("cur.{k}"))).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(u64::MAX);
            if cur != w.last {
                w.last = cur;
                w.since = Instant::now();
            }
            if let Some(s) = w.p.try_wait().unwrap() {
                w.done = true;
                if s.code() == Some(3) {
                    let t = fs::read_to_string(dir.join(format!("herr.{k}"))).unwrap_or_default();
                    println!("HARNESS-ERROR property={prop} {t}");
                    for o in &mut ws {
                        let _ = o.p.kill();
                        let _ = o.p.wait();
                    }
                    return 2;
                }
                if !s.success() {
                    if cur == u64::MAX {
                        println!("HARNESS-ERROR property={prop} worker {k} ended with {s} outside a run");
                        return 2;
                    }
                    let err = fs::read_to_string(dir.join(format!("err.{k}"))).unwrap_or_default();
                    let tail: String = err.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
                    found.push((cur, "crash".into(), format!("the process died: {s}: {tail}"), None));
                    lower_limit(dir, cur);
                } else if let Ok(t) = fs::read_to_string(dir.join(format!("viol.{k}"))) {
                    let v: Value = serde_json::from_str(&t).unwrap();
                    found.push((
                        v["index"].as_u64().unwrap(),
                        v["class"].as_str().unwrap().into(),
                        v["msg"].as_str().unwrap().into(),
                        Some(v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()),
                    ));
                }
            } else if cur != u64::MAX && w.since.elapsed() > HANG {
                let _ = w.p.kill();
                let _ = w.p.wait();
                w.done = true;
                found.push((cur, "hang".into(), format!("no end within {} s of wall time", HANG.as_secs()), None));
                lower_limit(dir, cur);
            }
        }
    }
    // Collect coverage.
    let mut tot: BTreeMap<String, u64> = BTreeMap::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut runs_with: BTreeMap<String, u64> = BTreeMap::new();
    let mut logs: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut capped = false;
    for e in fs::read_dir(dir).unwrap().flatten() {
        let name = e.file_name().into_string().unwrap();
        if name.starts_with("sum.") {
            let v: Value = serde_json::from_str(&fs::read_to_string(e.path()).unwrap()).unwrap();
            for k in ["runs", "steps", "sim_us", "multi", "nontrivial", "events"] {
                *tot.entry(k.into()).or_insert(0) += v[k].as_u64().unwrap();
            }
            capped |= v["capped"].as_bool().unwrap();
            for (src, dst) in [("counters", &mut counters), ("runs_with", &mut runs_with)] {
                for (c, x) in v[src].as_object().unwrap() {
                    *dst.entry(c.clone()).or_insert(0) += x.as_u64().unwrap();
                }
            }
        } else if name.starts_with("hash.") {
            for c in fs::read(e.path()).unwrap().chunks_exact(16) {
                logs.insert(u64::from_le_bytes(c[..8].try_into().unwrap()));
                scheds.insert(u64::from_le_bytes(c[8..].try_into().unwrap()));
            }
        }
    }
    found.sort_by_key(|f| f.0);
    let mut code = 0;
    let mut violations = 0;
    let mut report = None;
    if let Some((index, class, msg, choices)) = found.into_iter().next() {
        // Confirm in a fresh process, minimise, confirm the minimised file.
        let choices = match choices {
            Some(c) => c,
            None => {
                let rec = dir.join("record");
                match exec_isolated(prop, &format!("seed:{seed}:{index}"), dir, HANG, Some(&rec)) {
                    Ended::Done(v) if v["class"].is_null() => {
                        println!("HARNESS-ERROR property={prop} run {index}: {class} ({msg}) did not happen again");
                        return 2;
                    }
                    _ => {}
                }
                fs::read(&rec).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
            }
        };
        let (c0, m0, _) = class_isolated(prop, &choices, dir, HANG);
        match c0 {
            Some(c0) => {
                let (min, tries) = shrink(prop, choices.clone(), &c0, dir, Duration::from_secs(if tier == "quick" { 40 } else { 120 }));
                let (mut fin, mut c1, mut m1, mut trace) = {
                    let (c, m, t) = class_isolated(prop, &min, dir, HANG);
                    (min, c, m, t)
                };
                if c1.as_deref() != Some(&c0) {
                    let (c, m, t) = class_isolated(prop, &choices, dir, HANG);
                    (fin, c1, m1, trace) = (choices.clone(), c, m, t);
                }
                let rdir = root().join("replays");
                let _ = fs::create_dir_all(&rdir);
                let path = rdir.join(format!("{prop}-{seed}-{index}.json"));
                let v = json!({
                    "property": prop, "seed": seed, "index": index, "class": c1, "message": m1,
                    "choices_before": choices.len(), "choices": fin, "shrink_executions": tries, "trace": trace,
                    "replay_cmd": format!("sim/target/release/atsim replay {}", path.display()),
                });
                fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                println!("{}: {}", c1.as_deref().unwrap_or("?"), m1);
                println!("seed {seed}, run {index}, {} choices minimised to {} in {} executions", choices.len(), v["choices"].as_array().unwrap().len(), tries);
                for l in trace.iter().rev().take(25).rev() {
                    println!("  {l}");
                }
                println!("VIOLATION property={prop} replay={}", path.display());
                report = Some(path);
                code = 1;
                violations = 1;
            }
            None => {
                // The run fails only after others in the same process (state leaks between them), or
                // depends on something no seam controls; then the whole history is the replay.
                let found = find_history(prop, seed, index, workers, &class, dir);
                let exact = found.is_some();
                let mut runs = found.unwrap_or_else(|| (index % workers..index).step_by(workers as usize).collect());
                runs.push(index);
                let (c1, m1, trace) = if exact { series_isolated(prop, seed, &runs, dir, Duration::from_secs(300)) } else { (Some(class), msg, vec![]) };
                let rdir = root().join("replays");
                let _ = fs::create_dir_all(&rdir);
                let path = rdir.join(format!("{prop}-{seed}-{index}.json"));
                let v = json!({
                    "property": prop, "seed": seed, "index": index, "class": c1, "message": m1,
                    "runs_in_one_process": runs, "reproduced": exact, "choices": choices, "trace": trace,
                    "replay_cmd": format!("sim/target/release/atsim replay {}", path.display()),
                });
                fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                println!("{}: {}", c1.as_deref().unwrap_or("?"), m1);
                if exact {
                    println!("seed {seed}: run {index} fails in a process in which the runs {:?} were executed before, and not on its own", &runs[..runs.len() - 1]);
                } else {
                    println!("seed {seed}: run {index} failed once; neither its choices nor the {} runs before it repeat that, so the outcome depends on something outside the simulation ({m0})", runs.len() - 1);
                }
                for l in trace.iter().rev().take(25).rev() {
                    println!("  {l}");
                }
                println!("VIOLATION property={prop} replay={}", path.display());
                report = Some(path);
                code = 1;
                violations = 1;
            }
        }
    }
    // Known findings: deterministic scenarios recorded in /verif/known_findings.txt.
    let mut known = vec![];
    for line in checks::known_findings(prop, &root()) {
        println!("KNOWN-FINDING: property={prop} {line}");
        known.push(line);
    }
    let wall = start.elapsed().as_secs_f64();
    let samples: Vec<Value> = (0..3u64)
        .filter(|_| code == 0)
        .map(|i| {
            let o = run_one(prop, Source::Random(Rng::new(run_seed(seed, prop, i))), true, None);
            let mut t: Vec<String> = o.trace.iter().take(30).map(|l| l.chars().take(200).collect()).collect();
            if o.trace.len() > 30 {
                t.push(format!("... {} more events", o.trace.len() - 30));
            }
            json!({"run": i, "steps": o.steps, "simulated_us": o.sim_us, "choices": o.rec.len(), "events": t})
        })
        .collect();
    let runs = tot.get("runs").copied().unwrap_or(0);
    let pick = |pre: &str| -> BTreeMap<&str, u64> { counters.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| (&k[pre.len()..], *v)).collect() };
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": logs.len(),
            "rule": format!("one evaluation = one simulated run of: {} Non-trivial: at least one scheduling decision among two or more runnable tasks/events, or at least one injected fault or damage. Distinct: by hash of the complete event log.", info.what),
            "samples": samples,
            "runs_requested": count,
            "stopped_by_wall_cap": capped,
            "nontrivial_runs": tot.get("nontrivial"),
            "runs_per_hour": (runs as f64 / wall * 3600.0) as u64,
            "seeds": format!("VERIF_SEED={seed}; run i uses a 64-bit seed derived from (VERIF_SEED, property, i), i = 0..{count}"),
            "simulated_seconds": tot.get("sim_us").copied().unwrap_or(0) as f64 / 1e6,
            "scheduler_steps": tot.get("steps"),
            "events_logged": tot.get("events"),
            "scheduling_decisions_with_alternatives": tot.get("multi"),
            "distinct_interleavings": {"count": scheds.len(), "measure": "hash of the sequence of (task polled | event fired) decisions of a run"},
            "faults_injected": pick("fault."),
            "damage_injected": pick("damage."),
            "io": pick("io."),
            "readers": pick("reader."),
            "codecs": pick("codec."),
            "operations": pick("op."),
            "probes": pick("probe."),
            "runs_in_which_counter_fired": runs_with,
            "workers": workers,
            "components": {"real": info.real, "stub": info.stub},
        },
        "known_findings": known,
        "assumptions": info.assumptions,
        "wall_s": wall,
        "violations": violations,
        "replay": report.as_ref().map(|p| p.display().to_string()),
    });
    let edir = root().join("evidence");
    let _ = fs::create_dir_all(&edir);
    let mut f = fs::File::create(edir.join(format!("{prop}.json"))).unwrap();
    f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).unwrap();
    println!(
        "{prop} {tier}: {runs} runs, {} distinct non-trivial, {} interleavings, {:.1} simulated s, {:.1} s wall{}",
        logs.len(),
        scheds.len(),
        tot.get("sim_us").copied().unwrap_or(0) as f64 / 1e6,
        wall,
        if capped { " (stopped by the wall cap)" } else { "" }
    );
    if code == 0 {
        println!("OK property={prop}");
    }
    code
}
fn lower_limit(dir: &Path, i: u64) {
    let f = fs::OpenOptions::new().read(true).write(true).open(dir.join("limit")).unwrap();
    let mut b = [0u8; 8];
    let _ = f.read_at(&mut b, 0);
    if i < u64::from_le_bytes(b) {
        let _ = f.write_at(&i.to_le_bytes(), 0);
    }
}
