//! Runtime monitors for netcdf3: see /verif/DESIGN.md.
//!
//! ncmon run --prop C01 --tier quick --seed 1 --out DIR --replays DIR [--count N] [--workers N]
//! ncmon solo --prop C01 --seed 1 --count N        (in one process, for the sanitizers)
//! ncmon replay FILE

mod alloc;
mod drive;
mod gen;
mod model;
mod props;
mod report;
mod rng;
mod spec;
mod sys;

use props::Prop;
use report::{json_str, Ctx, Obs};
use rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const CPU_SECONDS_PER_CASE: i64 = 200;

fn args() -> BTreeMap<String, String> {
    let a: Vec<String> = std::env::args().collect();
    let mut m = BTreeMap::new();
    m.insert("cmd".to_string(), a.get(1).cloned().unwrap_or_default());
    let mut i = 2;
    while i < a.len() {
        if let Some(k) = a[i].strip_prefix("--") {
            m.insert(k.to_string(), a.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            m.insert("file".to_string(), a[i].clone());
            i += 1;
        }
    }
    m
}

fn get(m: &BTreeMap<String, String>, k: &str, default: &str) -> String {
    m.get(k).cloned().unwrap_or_else(|| default.to_string())
}

fn num(m: &BTreeMap<String, String>, k: &str, default: u64) -> u64 {
    m.get(k).and_then(|x| x.parse().ok()).unwrap_or(default)
}

enum Outcome {
    Ok,
    Violation(String),
    Harness(String),
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = std::cell::RefCell::new(None);
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// The location and the message of the last panic of this thread.
pub fn take_panic() -> Option<(String, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

/// Runs one case.
fn run_case(p: &Prop, c: &mut Ctx) -> Outcome {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(c)));
    sys::state().active = false;
    alloc::end(0);
    match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(m)) => Outcome::Violation(m),
        Err(_) => {
            let (loc, msg) = take_panic().unwrap_or_default();
            // the harness is compiled with relative paths, the code under test with absolute ones
            if loc.starts_with("src/") {
                Outcome::Harness(format!("panic in the harness at {}: {}", loc, msg))
            } else {
                Outcome::Violation(format!("panic at {}: {}", loc, msg))
            }
        }
    }
}

#[cfg(not(miri))]
fn arm_timer(seconds: i64) {
    #[repr(C)]
    struct ITimerVal {
        interval: [i64; 2],
        value: [i64; 2],
    }
    extern "C" {
        fn setitimer(which: i32, new: *const ITimerVal, old: *mut ITimerVal) -> i32;
    }
    let t = ITimerVal { interval: [0, 0], value: [seconds, 0] };
    unsafe {
        setitimer(2, &t, std::ptr::null_mut());
    }
}

#[cfg(miri)]
fn arm_timer(_seconds: i64) {}

/// CPU time of the process, in milliseconds.
#[cfg(not(miri))]
fn cpu_ms() -> u64 {
    extern "C" {
        fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    unsafe {
        clock_gettime(2, &mut t);
    }
    (t[0] * 1000 + t[1] / 1_000_000) as u64
}

#[cfg(miri)]
fn cpu_ms() -> u64 {
    0
}

fn context(p: &Prop, idx: u64, seed: u64, thorough: bool, dir: &Path) -> Ctx {
    Ctx { idx, thorough, seed, rng: Rng::of(seed, p.id, idx), dir: dir.to_path_buf(), obs: Obs::default() }
}

fn worker(m: &BTreeMap<String, String>) -> i32 {
    install_panic_hook();
    let p = props::find(&get(m, "prop", "")).expect("unknown property");
    let (seed, n) = (num(m, "seed", 1), num(m, "count", 0));
    let thorough = get(m, "tier", "quick") == "thorough";
    let (me, of) = (num(m, "me", 0), num(m, "of", 1));
    let base = PathBuf::from(get(m, "dir", ""));
    let dir = base.join(format!("w{}", me));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let verbose = m.contains_key("only");
    let progress = std::fs::File::create(base.join(format!("w{}.progress", me))).expect("progress file");
    let mut total = Obs::default();
    let mut evaluations = 0u64;
    let cases: Vec<u64> = match m.get("only") {
        Some(x) => vec![x.parse().expect("case")],
        None => (0..n).filter(|i| i % of == me).collect(),
    };
    let mut code = 0;
    let mut message = String::new();
    let mut bad = 0;
    for idx in cases {
        use std::os::unix::fs::FileExt;
        progress.write_all_at(&(idx + 1).to_le_bytes(), 0).expect("progress");
        arm_timer(CPU_SECONDS_PER_CASE);
        let mut c = context(p, idx, seed, thorough, &dir);
        c.obs = std::mem::take(&mut total);
        c.obs.verbose = verbose;
        let from = cpu_ms();
        let o = run_case(p, &mut c);
        let ms = cpu_ms() - from;
        if let (Some(path), true) = (std::env::var_os("NCMON_SLOW"), ms > 1500) {
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(path) {
                let _ = writeln!(f, "{} case {}: {} ms", p.id, idx, ms);
            }
        }
        c.obs.max("milliseconds of CPU for a case", ms);
        total = c.obs;
        evaluations += 1;
        match o {
            Outcome::Ok => {}
            Outcome::Violation(x) => {
                code = 10;
                message = x;
            }
            Outcome::Harness(x) => {
                code = 11;
                message = x;
            }
        }
        if code != 0 {
            bad = idx;
            break;
        }
    }
    arm_timer(0);
    let mut out = Vec::new();
    let _ = writeln!(out, "E {}", evaluations);
    if code != 0 {
        let _ = writeln!(out, "V {} {}", bad, message.replace('\n', "\\n"));
    }
    for (k, v) in &total.counters {
        let _ = writeln!(out, "C {} {}", v, k);
    }
    for s in &total.samples {
        let _ = writeln!(out, "S {}", s.replace('\n', "\\n"));
    }
    for s in &total.notes {
        let _ = writeln!(out, "N {}", s.replace('\n', "\\n"));
    }
    for h in &total.distinct {
        let _ = writeln!(out, "H {:x}", h);
    }
    std::fs::write(base.join(format!("w{}.result", me)), out).expect("result file");
    code
}

#[derive(Default)]
struct Merged {
    evaluations: u64,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    notes: Vec<String>,
    distinct: HashSet<u64>,
    failure: Option<(u64, String)>,
}

fn merge(m: &mut Merged, text: &str) {
    for line in text.lines() {
        if line.len() < 2 {
            continue;
        }
        let rest = &line[2..];
        match line.as_bytes()[0] {
            b'E' => m.evaluations += rest.parse::<u64>().unwrap_or(0),
            b'C' => {
                if let Some((v, k)) = rest.split_once(' ') {
                    let v: u64 = v.parse().unwrap_or(0);
                    let e = m.counters.entry(k.to_string()).or_insert(0);
                    *e = if k.starts_with("max ") { (*e).max(v) } else { *e + v };
                }
            }
            b'S' => m.samples.push(rest.to_string()),
            b'N' => m.notes.push(rest.to_string()),
            b'H' => {
                m.distinct.insert(u64::from_str_radix(rest, 16).unwrap_or(0));
            }
            b'V' => {
                if let Some((i, msg)) = rest.split_once(' ') {
                    let i: u64 = i.parse().unwrap_or(0);
                    if m.failure.as_ref().map_or(true, |(j, _)| i < *j) {
                        m.failure = Some((i, msg.to_string()));
                    }
                }
            }
            _ => {}
        }
    }
}

struct Scratch(PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn scratch() -> Scratch {
    let name = format!("ncmon-{}-{}", std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_nanos()).unwrap_or(0));
    for base in ["/dev/shm", "/tmp"] {
        let d = Path::new(base).join(&name);
        if std::fs::create_dir(&d).is_ok() && std::fs::write(d.join("probe"), b"x").is_ok() {
            return Scratch(d);
        }
    }
    panic!("no scratch directory");
}

fn spawn(m: &BTreeMap<String, String>, dir: &Path, me: u64, of: u64, count: u64, only: Option<u64>) -> std::io::Result<Child> {
    let mut c = Command::new(std::env::current_exe()?);
    c.arg("worker").args(["--prop", &get(m, "prop", "")]).args(["--tier", &get(m, "tier", "quick")]).args(["--seed", &get(m, "seed", "1")]);
    c.args(["--me", &me.to_string()]).args(["--of", &of.to_string()]).args(["--count", &count.to_string()]).args(["--dir", &dir.to_string_lossy()]);
    if let Some(i) = only {
        c.args(["--only", &i.to_string()]);
    }
    c.stdin(Stdio::null()).stdout(Stdio::null());
    let log = std::fs::File::create(dir.join(format!("w{}.stderr", me)))?;
    c.stderr(log);
    c.spawn()
}

/// How a worker ended: the case of a violation, or an error of the check.
enum End {
    Fine,
    Violation(u64, String),
    Error(String),
}

fn judge(dir: &Path, me: u64, status: std::process::ExitStatus, merged: &mut Merged) -> End {
    use std::os::unix::process::ExitStatusExt;
    let text = std::fs::read_to_string(dir.join(format!("w{}.result", me))).unwrap_or_default();
    let progress = std::fs::read(dir.join(format!("w{}.progress", me))).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])).unwrap_or(0);
    let stderr = std::fs::read_to_string(dir.join(format!("w{}.stderr", me))).unwrap_or_default();
    merge(merged, &text);
    if let Some(sig) = status.signal() {
        if progress == 0 {
            return End::Error(format!("a worker died with signal {} before its first case", sig));
        }
        let case = progress - 1;
        return match sig {
            27 => End::Violation(case, format!("no end after {} s of CPU", CPU_SECONDS_PER_CASE)),
            6 => End::Violation(case, format!("the process aborted: {}", stderr.trim().lines().last().unwrap_or("").chars().take(300).collect::<String>())),
            4 | 7 | 8 | 11 => End::Violation(case, format!("the process crashed with signal {}", sig)),
            _ => End::Error(format!("a worker was ended by signal {} in case {}", sig, case)),
        };
    }
    match status.code() {
        Some(0) => End::Fine,
        Some(10) => match merged.failure.clone() {
            Some((i, m)) => End::Violation(i, m),
            None => End::Error("a violation without description".to_string()),
        },
        Some(11) => End::Error(merged.failure.take().map(|x| format!("case {}: {}", x.0, x.1)).unwrap_or_default()),
        c => End::Error(format!("a worker ended with {:?}: {}", c, stderr.trim().chars().take(600).collect::<String>())),
    }
}

fn supervise(m: &BTreeMap<String, String>) -> i32 {
    let start = Instant::now();
    let p = match props::find(&get(m, "prop", "")) {
        Some(p) => p,
        None => {
            eprintln!("unknown property");
            return 2;
        }
    };
    let tier = get(m, "tier", "quick");
    let seed = num(m, "seed", 1);
    let count = num(m, "count", if tier == "thorough" { p.thorough } else { p.quick });
    let workers = num(m, "workers", std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4)).max(1).min(count.max(1));
    let limit = Duration::from_secs(num(m, "wall", if tier == "thorough" { 3000 } else { 700 }));
    let out_dir = PathBuf::from(get(m, "out", "evidence"));
    let replay_dir = PathBuf::from(get(m, "replays", "replays"));
    let dir = scratch();
    let mut merged = Merged::default();
    let mut children: Vec<(u64, Child)> = vec![];
    for me in 0..workers {
        match spawn(m, &dir.0, me, workers, count, None) {
            Ok(c) => children.push((me, c)),
            Err(e) => {
                eprintln!("cannot start a worker: {}", e);
                return 2;
            }
        }
    }
    let mut violation: Option<(u64, String)> = None;
    let mut error: Option<String> = None;
    while !children.is_empty() {
        let mut i = 0;
        while i < children.len() {
            match children[i].1.try_wait() {
                Ok(Some(status)) => {
                    let me = children[i].0;
                    match judge(&dir.0, me, status, &mut merged) {
                        End::Fine => {}
                        End::Violation(c, msg) => {
                            if violation.as_ref().map_or(true, |(j, _)| c < *j) {
                                violation = Some((c, msg));
                            }
                        }
                        End::Error(e) => error = Some(e),
                    }
                    children.remove(i);
                }
                Ok(None) => i += 1,
                Err(e) => {
                    error = Some(format!("cannot wait for a worker: {}", e));
                    children.remove(i);
                }
            }
        }
        if (violation.is_some() || error.is_some() || start.elapsed() > limit) && !children.is_empty() {
            // let the others, which may meet the same violation earlier, a little time
            std::thread::sleep(Duration::from_millis(200));
            for (_, c) in children.iter_mut() {
                if let Ok(None) = c.try_wait() {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
            if violation.is_none() && error.is_none() {
                error = Some(format!("not finished after {:?}", limit));
            }
            children.clear();
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    if let Some((case, msg)) = violation {
        // once more, alone, to tell what happens and whether it depends on the cases before
        let again = scratch();
        let mut notes = Merged::default();
        let alone = match spawn(m, &again.0, 0, 1, count, Some(case)).and_then(|mut c| c.wait()) {
            Ok(status) => match judge(&again.0, 0, status, &mut notes) {
                End::Violation(_, m2) => format!("reproduced alone: {}", m2),
                End::Fine => "not reproduced when the case runs alone".to_string(),
                End::Error(e) => format!("when run alone: {}", e),
            },
            Err(e) => format!("cannot run it again: {}", e),
        };
        let _ = std::fs::create_dir_all(&replay_dir);
        let file = replay_dir.join(format!("{}-{}-{}.json", p.id, seed, case));
        let text = format!(
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"case\": {}, \"count\": {},\n \"violation\": {},\n \"confirmation\": {},\n \"history\": [\n  {}\n ]\n}}\n",
            json_str(p.id),
            json_str(&tier),
            seed,
            case,
            count,
            json_str(&msg),
            json_str(&alone),
            notes.notes.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n  ")
        );
        let _ = std::fs::write(&file, text);
        println!("case {}: {}", case, msg.chars().take(1500).collect::<String>());
        println!("({})", alone.chars().take(600).collect::<String>());
        let _ = evidence(p, &tier, seed, &merged, start, 1, &out_dir);
        println!("VIOLATION property={} replay={}", p.id, file.display());
        return 1;
    }
    if let Some(e) = error {
        eprintln!("ERROR (inconclusive) property={}: {}", p.id, e);
        return 2;
    }
    // a run which observed nothing decides nothing
    for name in p.required {
        if merged.counters.get(*name).copied().unwrap_or(0) == 0 {
            eprintln!("ERROR (inconclusive) property={}: nothing observed for {:?}", p.id, name);
            return 2;
        }
    }
    if merged.evaluations != count || merged.distinct.is_empty() {
        eprintln!("ERROR (inconclusive) property={}: {} cases instead of {}", p.id, merged.evaluations, count);
        return 2;
    }
    if let Err(e) = evidence(p, &tier, seed, &merged, start, 0, &out_dir) {
        eprintln!("ERROR: cannot write the evidence: {}", e);
        return 2;
    }
    println!("property={} held on {} cases ({} distinct) in {:.1} s", p.id, merged.evaluations, merged.distinct.len(), start.elapsed().as_secs_f64());
    for (k, v) in &merged.counters {
        println!("  {}: {}", k, v);
    }
    0
}

fn evidence(p: &Prop, tier: &str, seed: u64, m: &Merged, start: Instant, violations: u64, dir: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(dir)?;
    let samples: Vec<String> = m.samples.iter().take(5).map(|s| format!("   {}", json_str(s))).collect();
    let counters: Vec<String> = m.counters.iter().map(|(k, v)| format!("   {}: {}", json_str(k), v)).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| format!("  {}", json_str(s))).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [\n{}\n  ],\n  \"observed\": {{\n{}\n  }}\n }},\n \"assumptions\": [\n{}\n ],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(p.id),
        json_str(tier),
        seed,
        json_str(p.level),
        m.evaluations,
        m.distinct.len(),
        json_str(p.rule),
        samples.join(",\n"),
        counters.join(",\n"),
        assumptions.join(",\n"),
        start.elapsed().as_secs_f64(),
        violations
    );
    let tmp = dir.join(format!(".{}.tmp", p.id));
    std::fs::write(&tmp, text)?;
    std::fs::rename(&tmp, dir.join(format!("{}.json", p.id)))
}

/// In one process, one case after the other (for the sanitizers and the interpreter).
fn solo(m: &BTreeMap<String, String>) -> i32 {
    install_panic_hook();
    let seed = num(m, "seed", 1);
    let count = num(m, "count", 1);
    let first = num(m, "first", 0);
    let dir = match m.get("dir") {
        Some(d) => Scratch(PathBuf::from(d)),
        None => scratch(),
    };
    let _ = std::fs::create_dir_all(&dir.0);
    let mut code = 0;
    let limit = Duration::from_secs(num(m, "seconds", 1_000_000));
    for id in get(m, "prop", "").split(',') {
        let begin = Instant::now();
        let p = match props::find(id) {
            Some(p) => p,
            None => {
                eprintln!("unknown property {}", id);
                return 2;
            }
        };
        let mut obs = Obs::default();
        let mut done = 0;
        for k in 0..count {
            if begin.elapsed() > limit {
                break;
            }
            let idx = first + k;
            arm_timer(CPU_SECONDS_PER_CASE * 10);
            let mut c = context(p, idx, seed, false, &dir.0);
            c.obs = std::mem::take(&mut obs);
            let o = run_case(p, &mut c);
            obs = c.obs;
            done += 1;
            match o {
                Outcome::Ok => {}
                Outcome::Violation(x) => {
                    println!("FUNCTIONAL-VIOLATION {} case {}: {}", id, idx, x);
                    code = 10;
                    break;
                }
                Outcome::Harness(x) => {
                    println!("HARNESS-ERROR {} case {}: {}", id, idx, x);
                    code = 11;
                    break;
                }
            }
        }
        let n: u64 = obs.counters.values().sum();
        println!("SOLO {} cases {} distinct {} events {}", id, done, obs.distinct.len(), n);
    }
    code
}

fn replay(m: &BTreeMap<String, String>) -> i32 {
    let text = std::fs::read_to_string(get(m, "file", "")).expect("replay file");
    let field = |k: &str| -> String {
        let key = format!("\"{}\":", k);
        let i = text.find(&key).expect("field") + key.len();
        text[i..].trim_start().trim_start_matches('"').chars().take_while(|c| c.is_ascii_alphanumeric()).collect()
    };
    let mut m = m.clone();
    for k in ["prop", "tier", "seed"] {
        let v = field(if k == "prop" { "property" } else { k });
        m.insert(k.to_string(), v);
    }
    let case: u64 = field("case").parse().expect("case");
    let dir = scratch();
    let mut merged = Merged::default();
    let status = spawn(&m, &dir.0, 0, 1, 0, Some(case)).and_then(|mut c| c.wait()).expect("worker");
    let end = judge(&dir.0, 0, status, &mut merged);
    for n in &merged.notes {
        println!("{}", n);
    }
    match end {
        End::Fine => {
            println!("case {}: no violation", case);
            0
        }
        End::Violation(c, msg) => {
            println!("case {}: {}", c, msg);
            1
        }
        End::Error(e) => {
            println!("error: {}", e);
            2
        }
    }
}

/// Files of the reference encoder with their content as text, to compare them with another implementation.
fn emit(m: &BTreeMap<String, String>) -> i32 {
    use std::fmt::Write;
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{:02x}", x)).collect()
    }
    let dir = PathBuf::from(get(m, "dir", ""));
    std::fs::create_dir_all(&dir).expect("directory");
    for i in 0..num(m, "count", 100) {
        let mut r = Rng::of(num(m, "seed", 1), "emit", i);
        let s = gen::spec(&mut r, &gen::Knobs::default());
        let vals = gen::vals(&mut r, &s);
        let mut l = if r.bool() { spec::Layout::canonical(&s, 0) } else { gen::foreign(&mut r, &s) };
        // (SciPy relies on the redundant sizes)
        l.vsizes = spec::Layout::canonical(&s, 0).vsizes;
        let (bytes, _) = spec::encode(&s, &l, &vals);
        let mut t = String::new();
        let attrs = |t: &mut String, k: &str, l: &[spec::Attr]| {
            for a in l {
                let _ = writeln!(t, "{} {} {} {}", k, hex(a.name.as_bytes()), a.ty.code(), hex(&a.data));
            }
        };
        let _ = writeln!(t, "version {} inorder {} numrecs {} stored {} lone {}", s.version, s.rec_vars().windows(2).all(|w| l.begins[w[0]] <= l.begins[w[1]]) as u8, s.numrecs, (l.numrecs_field != u32::MAX) as u8, s.lone().map_or(0, |v| spec::pad4(s.chunk_bytes(v))));
        for d in &s.dims {
            let _ = writeln!(t, "dim {} {}", hex(d.name.as_bytes()), d.size.map_or("none".to_string(), |n| n.to_string()));
        }
        attrs(&mut t, "gattr", &s.gattrs);
        for (v, x) in s.vars.iter().enumerate() {
            let dims: Vec<String> = x.dims.iter().map(|d| hex(s.dims[*d].name.as_bytes())).collect();
            let _ = writeln!(t, "var {} {} {} {} {}", hex(x.name.as_bytes()), x.ty.code(), s.is_rec(v) as u8, dims.join(","), hex(&vals[v].concat()));
            attrs(&mut t, "vattr", &x.attrs);
        }
        std::fs::write(dir.join(format!("{}.nc", i)), bytes).expect("file");
        std::fs::write(dir.join(format!("{}.txt", i)), t).expect("file");
    }
    0
}

fn main() {
    let m = args();
    let code = match get(&m, "cmd", "").as_str() {
        "run" => supervise(&m),
        "worker" => worker(&m),
        "solo" => solo(&m),
        "replay" => replay(&m),
        "emit" => emit(&m),
        "list" => {
            for p in props::ALL {
                println!("{} quick {} thorough {}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: ncmon run|solo|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
