//! The writer: contract, faults, crash points, limits, life of the file.

use super::files::{any_spec, wide_spec, closed_image, read, rejected};
use super::Prop;
use crate::check;
use crate::drive::*;
use crate::gen::{self, Knobs};
use crate::report::{hash_of, Ctx, Res};
use crate::rng::Rng;
use crate::spec::*;
use crate::sys::{self, Class, Ev, Fault};
use netcdf3::{DataVector, DataSet, FileReader, FileWriter, ReadError, Version, WriteError};
use std::path::Path;

fn refused(e: netcdf3::InvalidDataSet) -> String {
    format!("a valid definition is refused: {:?}", e)
}

fn history(ops: &[WOp]) -> String {
    ops.iter().map(|o| o.brief()).collect::<Vec<_>>().join(" ")
}

// ------------------------------------------------------------------------------------------------

pub const C07: Prop = Prop {
    id: "C07",
    quick: 600000,
    thorough: 3750000,
    level: "exploration",
    rule: "random sequences of calls on a writer, valid ones and ones which break one or several conditions (no definition, definition twice, definition impossible in the classic format, unknown variable, wrong type, wrong record, wrong length); the monitor computes the set of conditions each call breaks, requires success if and only if it is empty, an error naming one of them otherwise, an unchanged file and unchanged accessors after each error, and the expected file at the end; distinct by sequence of calls",
    assumptions: &["if a call breaks several conditions, any of them can be reported"],
    required: &["accepted set_def", "accepted writes", "HeaderNotDefined", "HeaderAlreadyDefined", "ClassicVersionNotPossible", "VariableNotDefined", "VariableMismatchDataType", "VariableMismatchDataLength", "RecordIndexExceeded", "RecordMismatchDataLength", "closed without definition"],
    run: c07,
};

/// What a random call asks for.
struct Ask {
    name: String,
    ty: Ty,
    rec: Option<usize>,
    len: usize,
}

/// A call on a variable, next to the valid ones.
fn ask(r: &mut Rng, s: &Spec) -> Ask {
    if s.vars.is_empty() || r.one_in(10) {
        let mut name = gen::name(r);
        if r.one_in(3) && !s.vars.is_empty() {
            // next to an existing name, or the name of something else
            let v = r.below(s.vars.len());
            name = match r.below(5) {
                0 => s.vars[v].name.to_uppercase(),
                1 => format!("{} ", s.vars[v].name),
                2 => s.dims.first().map(|d| d.name.clone()).unwrap_or_default(),
                3 => s.vars[v].name.chars().skip(1).collect(),
                _ => String::new(),
            };
        }
        let rec = if r.bool() { Some(r.below(3)) } else { None };
        return Ask { name, ty: *r.pick(&TYS), rec, len: r.below(5) };
    }
    let v = r.below(s.vars.len());
    let n = s.nchunks(v);
    let len = s.chunk_len(v) as usize;
    let ty = if r.one_in(6) { *r.pick(&TYS) } else { s.vars[v].ty };
    let rec = if r.bool() {
        Some(if r.one_in(4) { *r.pick(&[n, n + 1, n.wrapping_sub(1), usize::MAX, usize::MAX / 2, 1 << 32, s.numrecs, 0, 1]) } else { r.below(n.max(1)) })
    } else {
        None
    };
    let good = if rec.is_some() { len } else { len * n };
    let len = if r.one_in(4) { *r.pick(&[good + 1, good.saturating_sub(1), 0, 1, len, len * n, good * 2, len * s.numrecs, good + 4]) } else { good };
    Ask { name: s.vars[v].name.clone(), ty, rec, len }
}

/// The errors which name a violated condition.
fn justified(s: &Spec, a: &Ask) -> Vec<WriteError> {
    let v = match s.find_var(&a.name) {
        None => return vec![WriteError::VariableNotDefined(a.name.clone())],
        Some(v) => v,
    };
    let mut no = vec![];
    if s.vars[v].ty != a.ty {
        no.push(WriteError::VariableMismatchDataType { var_name: a.name.clone(), req: dt(s.vars[v].ty), get: dt(a.ty) });
    }
    let (n, len) = (s.nchunks(v), s.chunk_len(v) as usize);
    match a.rec {
        None => {
            if a.len != n * len {
                no.push(WriteError::VariableMismatchDataLength { var_name: a.name.clone(), req: n * len, get: a.len });
            }
        }
        Some(i) => {
            if i >= n {
                no.push(WriteError::RecordIndexExceeded { index: i, num_records: n });
            }
            if a.len != len {
                no.push(WriteError::RecordMismatchDataLength { var_name: a.name.clone(), req: len, get: a.len });
            }
        }
    }
    no
}

fn error_name(e: &WriteError) -> String {
    format!("{:?}", e).chars().take_while(|c| c.is_ascii_alphanumeric()).collect()
}

pub fn c07(c: &mut Ctx) -> Res {
    let k = if c.rng.one_in(5) { Knobs::default() } else { Knobs::small() };
    let mut specs = [gen::spec(&mut c.rng, &k), gen::spec(&mut c.rng, &k)];
    if c.rng.one_in(100) {
        let what = gen::enlarge(&mut c.rng, &mut specs[0], 20_000);
        c.obs.add(&format!("large {}", what), 1);
    }
    let sets = [build(&specs[0], &mut c.rng).map_err(refused)?, build(&specs[1], &mut c.rng).map_err(refused)?];
    let huge = too_large(c.rng.next());
    let path = c.path("w.nc");
    let mut w = if c.rng.bool() {
        FileWriter::open(&path).map_err(|e| format!("open: {:?}", e))?
    } else {
        let _ = std::fs::remove_file(&path);
        FileWriter::create_new(&path).map_err(|e| format!("create_new: {:?}", e))?
    };
    let mut def: Option<(usize, u8, usize)> = None; // which, version, minimum size
    let mut vals: Vals = vec![];
    let mut calls = vec![];
    let mut file = read(&path)?;
    check!(file.is_empty(), "the file is not empty before the definition");
    let steps = 3 + c.rng.below(c.scale(22, 40));
    // some writers never get a definition
    let never = c.rng.one_in(12);
    for _ in 0..steps {
        let mut changed = false;
        if c.rng.pct(if def.is_none() { 45 } else { 8 }) && !never {
            // set_def
            let which = c.rng.below(2);
            let v = if c.rng.bool() { specs[which].version } else { 3 - specs[which].version };
            let impossible = c.rng.one_in(4);
            let min = if impossible && c.rng.bool() { *c.rng.pick(&[1usize << 31, (1 << 31) - 3, 1 << 40]) } else { gen::min_size(&mut c.rng, &specs[which]) };
            let (d, v, no): (&DataSet, u8, Vec<WriteError>) = if !impossible {
                (&sets[which], v, vec![])
            } else if min >= 1 << 30 {
                // no room before the data
                if specs[which].vars.is_empty() && def.is_none() {
                    continue;
                }
                let no = if specs[which].vars.is_empty() { vec![] } else { vec![WriteError::ClassicVersionNotPossible] };
                (&sets[which], 1, no)
            } else {
                (&huge, 1, vec![WriteError::ClassicVersionNotPossible])
            };
            let mut no = no;
            if def.is_some() {
                no.push(WriteError::HeaderAlreadyDefined);
            }
            let got = w.set_def(d, version(v), min);
            calls.push(format!("set_def({}, v{}, {}) {:?}", if impossible { "impossible" } else { "definition" }, v, min, got.is_ok()));
            match got {
                Ok(()) => {
                    check!(no.is_empty(), "set_def succeeds although {:?} (calls {})", no, calls.join("; "));
                    let s = Spec { version: v, ..specs[which].clone() };
                    vals = s.filled();
                    def = Some((which, v, min));
                    changed = true;
                    c.obs.add("accepted set_def", 1);
                }
                Err(e) => {
                    check!(no.contains(&e), "set_def fails with {:?} instead of {:?} ({}; calls {})", e, no, specs[which].brief(), calls.join("; "));
                    c.obs.add(&error_name(&e), 1);
                }
            }
        } else {
            let which = def.map_or(0, |d| d.0);
            let a = ask(&mut c.rng, &specs[which]);
            let no = match def {
                None => vec![WriteError::HeaderNotDefined],
                Some((which, _, _)) => justified(&specs[which], &a),
            };
            let data = gen::values(&mut c.rng, a.ty, a.len);
            let got = match a.rec {
                None => write_var(&mut w, &a.name, a.ty, &data),
                Some(i) => write_record(&mut w, &a.name, i, a.ty, &data),
            };
            calls.push(format!("write_{}_{:?}({:?}, {:?}, {}) {:?}", if a.rec.is_some() { "record" } else { "var" }, a.ty, a.name, a.rec, a.len, got.is_ok()));
            match got {
                Ok(()) => {
                    check!(no.is_empty(), "{:?} succeeds although {:?} ({}; calls {})", calls.last(), no, specs[which].brief(), calls.join("; "));
                    let s = &specs[which];
                    let var = s.find_var(&a.name).unwrap();
                    WOp { var, rec: a.rec, data }.apply(s, &mut vals);
                    changed = true;
                    c.obs.add("accepted writes", 1);
                }
                Err(e) => {
                    check!(no.contains(&e), "{:?} fails with {:?} instead of {:?} ({}; calls {})", calls.last(), e, no, specs[which].brief(), calls.join("; "));
                    c.obs.add(&error_name(&e), 1);
                }
            }
        }
        // the state
        check!(w.file_path() == path.as_path(), "file_path() is {:?}", w.file_path());
        check!(w.header_is_defined() == def.is_some(), "header_is_defined() is {} (calls {})", w.header_is_defined(), calls.join("; "));
        match &def {
            None => check!(w.data_set().is_none() && w.version().is_none() && w.header_min_size().is_none(), "a definition appears (calls {})", calls.join("; ")),
            Some((which, v, min)) => {
                check!(w.data_set().map_or(false, |d| std::ptr::eq(d, &sets[*which])), "data_set() is not the one which was set (calls {})", calls.join("; "));
                check!(w.version() == Some(version(*v)), "version() is {:?} instead of {}", w.version(), v);
                check!(w.header_min_size() == Some(*min), "header_min_size() is {:?} instead of {}", w.header_min_size(), min);
            }
        }
        let now = read(&path)?;
        if !changed {
            if let Some(m) = diff(&now, &file) {
                return Err(format!("a rejected call changed the file: {} (calls {})", m, calls.join("; ")));
            }
            c.obs.add("files unchanged after an error", 1);
        }
        file = now;
    }
    c.obs.distinct(hash_of(&(&specs[0], &calls)));
    c.obs.sample(|| calls.join("; "));
    w.close().map_err(|e| format!("close: {:?} (calls {})", e, calls.join("; ")))?;
    let got = read(&path)?;
    match def {
        None => {
            check!(got.is_empty(), "closing without definition writes {} bytes", got.len());
            c.obs.add("closed without definition", 1);
        }
        Some((which, v, min)) => {
            let s = Spec { version: v, ..specs[which].clone() };
            if let Some(m) = diff(&got, &canonical(&s, min as u64, &vals)) {
                return Err(format!("the closed file is not the expected one: {} ({}; calls {})", m, s.brief(), calls.join("; ")));
            }
            c.obs.add("closed files as expected", 1);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------

pub const C16: Prop = Prop {
    id: "C16",
    quick: 24000,
    thorough: 160000,
    level: "fault_enumeration",
    rule: "a history (set_def, writes, close) is run once to count its write and seek calls, then once per call (all of them up to a limit, otherwise a random sample) and per fault (1-byte transfer, interruption, I/O error, error after a partial transfer, nothing accepted; error of a seek), with and without repetition of the failed call, and with random partial and interrupted writes everywhere; another definition is set, written and closed after one which failed; openings fail or are interrupted; judged on the results of the calls and on the bytes of the file; distinct by history, call and fault",
    assumptions: &["the library reaches the file through the C library functions write, writev, pwrite, lseek, which the harness interposes"],
    required: &["faults absorbed", "faults reported", "failed calls repeated", "failed calls not repeated", "slabs of failed calls filled", "disturbed histories", "failed closes", "other definitions after a fault", "openings failed"],
    run: c16,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum After {
    Repeat,
    GoOn,
}

struct Outcome {
    /// Values the file must hold, `None` for the slabs about which nothing is known
    known: Vec<Vec<Option<Vec<u8>>>>,
    /// Slabs never written with success, and the values which were refused
    refused: Vec<(usize, usize, Vec<u8>)>,
    faulty: Option<String>,
    close_failed: bool,
}

/// Runs the history; each call which meets a fault must return an error (`hard`) or succeed.
fn faulty_history(path: &Path, s: &Spec, d: &DataSet, min: usize, ops: &[WOp], hard: bool, after: After, obs: &mut crate::report::Obs) -> Result<Outcome, String> {
    let mut out = Outcome { known: s.filled().into_iter().map(|v| v.into_iter().map(Some).collect()).collect(), refused: vec![], faulty: None, close_failed: false };
    let mut w = FileWriter::open(path).map_err(|e| format!("open: {:?}", e))?;
    let hit = |before: u64| sys::state().hits > before;
    let judge = |what: &str, r: &Result<(), WriteError>, hit: bool| -> Result<(), String> {
        match r {
            Ok(()) => check!(!hard || !hit, "{} succeeds although one of its writes or seeks failed", what),
            Err(e) => {
                check!(hit, "{} fails without fault: {:?}", what, e);
                check!(hard, "{} fails because of a partial or interrupted write: {:?}", what, e);
                let last = sys::state().last;
                let kind = if last == 0 { std::io::ErrorKind::WriteZero } else { std::io::Error::from_raw_os_error(last).kind() };
                check!(*e == WriteError::IOErrorKind(kind), "{} reports a fault of the system as {:?} instead of {:?}", what, e, kind);
            }
        }
        Ok(())
    };
    let before = sys::state().hits;
    let r = sys::with(|| w.set_def(d, version(s.version), min));
    judge("set_def", &r, hit(before))?;
    if r.is_err() {
        out.faulty = Some("set_def".to_string());
        obs.add("faults reported", 1);
        check!(!w.header_is_defined() && w.data_set().is_none(), "the header is defined although set_def failed");
        if let Some(op) = ops.first() {
            let x = sys::with(|| op.run(s, &mut w));
            check!(x == Err(WriteError::HeaderNotDefined), "after set_def failed a write gives {:?}", x);
        }
        sys::with(|| w.set_def(d, version(s.version), min)).map_err(|e| format!("set_def again after a fault: {:?}", e))?;
        obs.add("failed calls repeated", 1);
    }
    check!(w.header_is_defined(), "the header is not defined after set_def");
    let mut acked = std::collections::HashSet::new();
    for (k, op) in ops.iter().enumerate() {
        let n = s.chunk_bytes(op.var) as usize;
        let before = sys::state().hits;
        let r = sys::with(|| op.run(s, &mut w));
        judge(&format!("write {} ({})", k, op.brief()), &r, hit(before))?;
        let mut stored = r.is_ok();
        if r.is_err() {
            obs.add("faults reported", 1);
            out.faulty = Some(format!("write {} ({})", k, op.brief()));
            if after == After::Repeat {
                sys::with(|| op.run(s, &mut w)).map_err(|e| format!("write {} again after a fault: {:?}", op.brief(), e))?;
                obs.add("failed calls repeated", 1);
                stored = true;
            } else {
                obs.add("failed calls not repeated", 1);
            }
        }
        for (i, (v, x)) in op.slabs(s).into_iter().enumerate() {
            if stored {
                acked.insert((v, x));
                out.refused.retain(|y| (y.0, y.1) != (v, x));
            } else if !acked.contains(&(v, x)) {
                out.refused.push((v, x, op.data[i * n..(i + 1) * n].to_vec()));
            }
            out.known[v][x] = if stored { Some(op.data[i * n..(i + 1) * n].to_vec()) } else { None };
        }
    }
    let before = sys::state().hits;
    let r = sys::with(|| w.close());
    judge("close", &r, hit(before))?;
    if r.is_err() {
        obs.add("faults reported", 1);
        obs.add("failed closes", 1);
        out.close_failed = true;
        out.faulty = Some("close".to_string());
    }
    Ok(out)
}

pub fn c16(c: &mut Ctx) -> Res {
    if c.idx % 8 == 0 && Path::new("/dev/full").exists() {
        full_device(c)?;
    }
    if !sys::available() {
        return Ok(());
    }
    for _ in 0..4 {
        another_definition(c)?;
    }
    failed_opening(c)?;
    let mut s = gen::spec(&mut c.rng, &Knobs::tiny());
    if c.rng.one_in(5) {
        let n = c.rng.below(300);
        gen::stretch_header(&mut c.rng, &mut s, 900 + 4 * n as u64);
    }
    if c.rng.one_in(60) {
        let what = gen::enlarge(&mut c.rng, &mut s, 8_000);
        c.obs.add(&format!("large {}", what), 1);
    }
    let min = if c.rng.one_in(6) { *c.rng.pick(&[20000usize, 8192, 8193, 30001]) } else { gen::min_size(&mut c.rng, &s) };
    let d = build(&s, &mut c.rng).map_err(refused)?;
    let ops = random_history(&mut c.rng, &s, 6);
    let path = c.path("a.nc");
    let text = format!("{}; history {}", s.brief(), history(&ops));
    c.obs.sample(|| text.clone());
    // without fault
    sys::reset(vec![], false);
    faulty_history(&path, &s, &d, min, &ops, false, After::GoOn, &mut c.obs).map_err(|e| format!("{} ({})", e, text))?;
    let (writes, seeks) = (sys::state().count[Class::Write as usize], sys::state().count[Class::Seek as usize]);
    let want = read(&path)?;
    assert!(writes > 0, "the interposition sees no write");
    if let Some(m) = diff(&want, &closed_image(&s, min, &ops)) {
        return Err(format!("without fault the file is not the expected one: {} ({})", m, text));
    }
    c.obs.add("write calls seen", writes);
    c.obs.add("seek calls seen", seeks);
    let begins = s.begins(min as u64);
    let limit = if want.len() > 10_000 && writes > 200 { 8 } else { c.scale(50, 300) as u64 };
    let pick = |r: &mut Rng, n: u64| -> Vec<u64> {
        if n <= limit {
            (0..n).collect()
        } else {
            // the first ones are the header, the last ones the closing
            let mut v: Vec<u64> = (0..limit).map(|_| r.below(n as usize) as u64).collect();
            v.extend([0, 1, n - 2, n - 1]);
            v
        }
    };
    let mut todo: Vec<(Class, u64, Fault, bool)> = vec![];
    for i in pick(&mut c.rng, writes) {
        let n = 1 + c.rng.below(7);
        // the usual ones, or any other
        let e = *c.rng.pick(&[28, 5, 28, 5, 11, 9, 22, 27, 32, 110, 116, 122]);
        for (f, hard) in [(Fault::Short(1), false), (Fault::Short(n), false), (Fault::Eintr, false), (Fault::Err(e), true), (Fault::ShortThenErr(n, e), true), (Fault::Zero, true)] {
            todo.push((Class::Write, i, f, hard));
        }
    }
    for i in pick(&mut c.rng, seeks) {
        let e = *c.rng.pick(&[5, 5, 5, 9, 11, 22, 29, 75, 116]);
        todo.push((Class::Seek, i, Fault::Err(e), true));
    }
    for (class, i, f, hard) in todo {
        for after in [After::Repeat, After::GoOn] {
            if !hard && after == After::GoOn {
                continue;
            }
            let what = format!("{:?} at {:?} {}", f, class, i);
            sys::reset(vec![(class, i, f)], false);
            let o = faulty_history(&path, &s, &d, min, &ops, hard, after, &mut c.obs).map_err(|e| format!("{}: {} ({})", what, e, text))?;
            let got = read(&path)?;
            c.obs.distinct(hash_of(&(c.idx, class as usize, i, format!("{:?}", f), after == After::Repeat)));
            if sys::state().hits > 0 && !hard {
                c.obs.add("faults absorbed", 1);
            }
            if !o.close_failed && (after == After::Repeat || o.faulty.is_none() || o.faulty.as_deref() == Some("set_def")) {
                if let Some(m) = diff(&got, &want) {
                    return Err(format!("{} ({}): the file differs from the one without fault: {} ({})", what, o.faulty.unwrap_or("absorbed".into()), m, text));
                }
                continue;
            }
            // what is known must be there
            let h = s.header_len() as usize;
            check!(got.len() >= h && got[..h] == want[..h], "{} ({:?}): the header differs ({})", what, o.faulty, text);
            // a slab whose writes all failed is not written: the close fills it, unless everything was stored
            if !o.close_failed {
                for (v, x, b) in &o.refused {
                    let (a, n, _) = s.range(&begins, *v, *x);
                    let have = got.get(a as usize..(a + n) as usize).unwrap_or(&[]);
                    let fill = s.vars[*v].ty.fill().repeat(s.chunk_len(*v) as usize);
                    let others = || o.refused.iter().any(|y| (y.0, y.1) == (*v, *x) && y.2 == have);
                    check!(
                        have == &fill[..] || have == &b[..] || others(),
                        "{} ({:?}): chunk {} of variable {}, which could not be written, is neither filled nor complete after a successful close ({})", what, o.faulty, x, v, text
                    );
                    c.obs.add("slabs of failed calls filled", 1);
                }
            }
            let written: std::collections::HashSet<(usize, usize)> = ops.iter().flat_map(|op| op.slabs(&s)).collect();
            for (v, x) in s.slabs() {
                if o.close_failed && !written.contains(&(v, x)) {
                    continue; // to be filled by the close which failed
                }
                if let Some(b) = &o.known[v][x] {
                    let (a, n, _) = s.range(&begins, v, x);
                    check!(
                        got.get(a as usize..(a + n) as usize) == Some(&b[..]),
                        "{} ({:?}): chunk {} of variable {}, acknowledged, is lost or damaged ({})", what, o.faulty, x, v, text
                    );
                    c.obs.add("slabs intact beside a fault", 1);
                }
            }
        }
    }
    for pct in [15, 50, 90] {
        sys::reset(vec![], false);
        sys::noise(Rng::new(c.rng.next()), Class::Write, pct);
        faulty_history(&path, &s, &d, min, &ops, false, After::GoOn, &mut c.obs).map_err(|e| format!("with {} % of the writes partial or interrupted: {} ({})", pct, e, text))?;
        let hits = sys::state().hits;
        if let Some(m) = diff(&read(&path)?, &want) {
            return Err(format!("with {} % of the writes partial or interrupted the file differs: {} ({})", pct, m, text));
        }
        c.obs.add("disturbed histories", 1);
        c.obs.add("faults absorbed", hits);
    }
    // several failures, each call repeated until it succeeds
    {
        sys::reset(vec![], false);
        let mut w = FileWriter::open(&path).map_err(|e| format!("open: {:?}", e))?;
        let mut fails = 0;
        let plan = |r: &mut Rng| {
            let s = sys::state();
            let (a, b) = (s.count[0], s.count[2]);
            s.plan = match r.below(4) {
                0 => vec![(Class::Write, a + r.below(6) as u64, Fault::Err(28))],
                1 => vec![(Class::Write, a + r.below(6) as u64, Fault::ShortThenErr(1, 5))],
                2 => vec![(Class::Seek, b + r.below(2) as u64, Fault::Err(5))],
                _ => vec![],
            };
        };
        let mut tries = 0;
        loop {
            plan(&mut c.rng);
            if sys::with(|| w.set_def(&d, version(s.version), min)).is_ok() {
                break;
            }
            fails += 1;
            tries += 1;
            check!(tries < 200, "set_def never succeeds again ({})", text);
        }
        for op in &ops {
            let mut tries = 0;
            loop {
                plan(&mut c.rng);
                if sys::with(|| op.run(&s, &mut w)).is_ok() {
                    break;
                }
                fails += 1;
                tries += 1;
                check!(tries < 400, "write {} never succeeds again ({})", op.brief(), text);
            }
        }
        sys::state().plan.clear();
        sys::state().pending = None;
        sys::with(|| w.close()).map_err(|e| format!("close after {} failures: {:?} ({})", fails, e, text))?;
        if let Some(m) = diff(&read(&path)?, &want) {
            return Err(format!("after {} failed and repeated calls the file differs: {} ({})", fails, m, text));
        }
        c.obs.add("faults reported", fails);
    }
    sys::reset(vec![], false);
    Ok(())
}

/// After a set_def which failed, another definition: nothing of the first one stays.
fn another_definition(c: &mut Ctx) -> Res {
    let specs = [gen::spec(&mut c.rng, &Knobs::tiny()), gen::spec(&mut c.rng, &Knobs::tiny())];
    let mins = [if c.rng.bool() { c.rng.below(20000) } else { gen::min_size(&mut c.rng, &specs[0]) }, gen::min_size(&mut c.rng, &specs[1])];
    let d = [build(&specs[0], &mut c.rng).map_err(refused)?, build(&specs[1], &mut c.rng).map_err(refused)?];
    let path = c.path("b.nc");
    let s = &specs[1];
    let ops = random_history(&mut c.rng, s, 4);
    let want = closed_image(s, mins[1], &ops);
    let f = match c.rng.below(4) {
        0 => (Class::Seek, 0, Fault::Err(5)),
        1 => (Class::Write, 0, Fault::ShortThenErr(1 + c.rng.below(5000), 28)),
        2 => (Class::Write, 0, Fault::Err(28)),
        _ => (Class::Write, 1 + c.rng.below(3) as u64, Fault::Err(5)),
    };
    let text = format!("{:?}; {} (minimum {}) then {} (minimum {}); history {}", f, specs[0].brief(), mins[0], s.brief(), mins[1], history(&ops));
    let mut w = FileWriter::open(&path).map_err(|e| format!("open: {:?}", e))?;
    sys::reset(vec![f], false);
    if sys::with(|| w.set_def(&d[0], version(specs[0].version), mins[0])).is_ok() {
        return Ok(());
    }
    sys::reset(vec![], false);
    w.set_def(&d[1], version(s.version), mins[1]).map_err(|e| format!("another definition is refused: {:?} ({})", e, text))?;
    for op in &ops {
        op.run(s, &mut w).map_err(|e| format!("write {}: {:?} ({})", op.brief(), e, text))?;
    }
    w.close().map_err(|e| format!("close: {:?} ({})", e, text))?;
    if let Some(m) = diff(&read(&path)?, &want) {
        return Err(format!("the file differs from the one without fault: {} ({})", m, text));
    }
    c.obs.add("other definitions after a fault", 1);
    Ok(())
}

/// The file cannot be opened, or its opening is interrupted.
fn failed_opening(c: &mut Ctx) -> Res {
    let path = c.path("o.nc");
    let _ = std::fs::remove_file(&path);
    let there = c.rng.bool();
    if there {
        std::fs::write(&path, b"as it was").map_err(|e| e.to_string())?;
    }
    let create = !there || c.rng.bool();
    let open = |p: &Path| if create { FileWriter::create_new(p) } else { FileWriter::open(p) };
    let e = *c.rng.pick(&[1, 5, 12, 13, 20, 23, 24, 28, 30, 40, 116]);
    sys::reset(vec![(Class::Open, 0, Fault::Err(e))], false);
    let got = sys::with(|| open(&path));
    let kind = std::io::Error::from_raw_os_error(e).kind();
    check!(matches!(&got, Err(WriteError::IOErrorKind(k)) if *k == kind), "an opening fails with {:?}, the result is {:?}", kind, got.map(|_| ()));
    check!(path.exists() == there && (!there || read(&path)? == b"as it was"), "an opening fails with {:?} and changes the file", kind);
    sys::reset((0..1 + c.rng.below(4) as u64).map(|i| (Class::Open, i, Fault::Eintr)).collect(), false);
    let got = sys::with(|| open(&path));
    check!(got.is_ok() != (there && create), "the result of an interrupted opening is {:?}", got.map(|_| ()));
    sys::reset(vec![], false);
    c.obs.add("openings failed", 1);
    Ok(())
}

/// The real device which is always full.
fn full_device(c: &mut Ctx) -> Res {
    let s = gen::spec(&mut c.rng, &Knobs::tiny());
    let d = build(&s, &mut c.rng).map_err(refused)?;
    let link = c.path("full");
    let _ = std::fs::remove_file(&link);
    std::os::unix::fs::symlink("/dev/full", &link).map_err(|e| e.to_string())?;
    let r = (|| {
        let mut w = match FileWriter::open(&link) {
            Ok(w) => w,
            Err(_) => return Ok(()), // not allowed here
        };
        let x = w.set_def(&d, version(s.version), 0);
        check!(matches!(x, Err(WriteError::IOErrorKind(_))), "set_def on a full device gives {:?}", x);
        check!(!w.header_is_defined(), "the header is defined on a full device");
        c.obs.add("full device", 1);
        Ok(())
    })();
    let _ = std::fs::remove_file(&link);
    r
}

// ------------------------------------------------------------------------------------------------

pub const C18: Prop = Prop {
    id: "C18",
    quick: 120000,
    thorough: 750000,
    level: "fault_enumeration",
    rule: "the writes of a history are logged with the acknowledgements of the calls; for every prefix of the log which contains the acknowledgement of set_def (and a random part of its next write) the image of the file is rebuilt: the definition and every acknowledged slab which is not being rewritten must be there, checked on the bytes and, at every acknowledgement and at random points, by reading the image with the library; the same with a writer dropped without close; distinct by history and prefix",
    assumptions: &["the process stops, not the operating system: what was written by a completed system call survives"],
    required: &["crash points", "images opened", "acknowledged slabs checked", "writers dropped", "crash points inside a call"],
    run: c18,
};

/// The acknowledged values when `n` operations are acknowledged; the slabs of the next one are unknown.
fn acknowledged(s: &Spec, ops: &[WOp], n: usize, in_progress: bool) -> Vec<Vec<Option<Vec<u8>>>> {
    let mut k: Vec<Vec<Option<Vec<u8>>>> = (0..s.vars.len()).map(|v| vec![None; s.nchunks(v)]).collect();
    for op in &ops[..n] {
        let len = s.chunk_bytes(op.var) as usize;
        for (i, (v, x)) in op.slabs(s).into_iter().enumerate() {
            k[v][x] = Some(op.data[i * len..(i + 1) * len].to_vec());
        }
    }
    if in_progress && n < ops.len() {
        for (v, x) in ops[n].slabs(s) {
            k[v][x] = None;
        }
    }
    k
}

fn check_image(path: &Path, s: &Spec, known: &[Vec<Option<Vec<u8>>>], r: &mut Rng, obs: &mut crate::report::Obs) -> Res {
    let mut rd = FileReader::open(path).map_err(|e| format!("the file does not open: {:?}", e))?;
    check_def(&rd, s)?;
    obs.add("images opened", 1);
    for v in 0..s.vars.len() {
        let x = &s.vars[v];
        for (i, k) in known[v].iter().enumerate() {
            if let Some(b) = k {
                let got = if r.bool() { rd.read_record(&x.name, i).map(|g| dv(&g).1) } else { read_record_typed(&mut rd, &x.name, i, x.ty) };
                let got = got.map_err(|e| format!("record {} of {:?}, acknowledged, is not read: {:?}", i, x.name, e))?;
                if let Some(m) = diff(&got, b) {
                    return Err(format!("record {} of {:?}, acknowledged: {}", i, x.name, m));
                }
                obs.add("acknowledged slabs checked", 1);
            }
        }
        if known[v].iter().all(|k| k.is_some()) {
            let want: Vec<u8> = known[v].iter().flat_map(|k| k.clone().unwrap_or_default()).collect();
            let (_, got) = dv(&rd.read_var(&x.name).map_err(|e| format!("variable {:?}, acknowledged, is not read: {:?}", x.name, e))?);
            if let Some(m) = diff(&got, &want) {
                return Err(format!("variable {:?}, acknowledged: {}", x.name, m));
            }
        }
    }
    Ok(())
}

fn c18(c: &mut Ctx) -> Res {
    let k = Knobs { elems: 80, ..Knobs::small() };
    let s = if c.rng.one_in(150) { wide_spec(&mut c.rng, &k, 1, 6_000, &mut c.obs) } else { any_spec(&mut c.rng, &k) };
    let min = gen::min_size(&mut c.rng, &s);
    let d = build(&s, &mut c.rng).map_err(refused)?;
    let ops = random_history(&mut c.rng, &s, 7);
    let path = c.path("a.nc");
    let text = format!("{}; history {}", s.brief(), history(&ops));
    c.obs.sample(|| text.clone());
    // a writer dropped without being closed, with some rejected calls on the way
    {
        let keep = c.rng.below(ops.len() + 1);
        let mut w = open_some(&path, c.rng.next())?;
        w.set_def(&d, version(s.version), min).map_err(|e| format!("set_def: {:?}", e))?;
        for op in &ops[..keep] {
            op.run(&s, &mut w).map_err(|e| format!("write {}: {:?}", op.brief(), e))?;
            if c.rng.one_in(4) {
                rejected(&mut w, &s, &mut c.rng)?;
            }
        }
        // before the end of the writer, then after
        let known = acknowledged(&s, &ops, keep, false);
        check_image(&path, &s, &known, &mut c.rng, &mut c.obs).map_err(|e| format!("with the writer still open after {} writes: {} ({})", keep, e, text))?;
        drop(w);
        check_image(&path, &s, &known, &mut c.rng, &mut c.obs).map_err(|e| format!("writer dropped after {} writes: {} ({})", keep, e, text))?;
        c.obs.add("writers dropped", 1);
    }
    if !sys::available() {
        return Ok(());
    }
    sys::reset(vec![], true);
    {
        let mut w = open_some(&path, c.rng.next())?;
        sys::with(|| w.set_def(&d, version(s.version), min)).map_err(|e| format!("set_def: {:?}", e))?;
        sys::state().log.push(Ev::Mark(0));
        for (k, op) in ops.iter().enumerate() {
            sys::with(|| op.run(&s, &mut w)).map_err(|e| format!("write {}: {:?}", op.brief(), e))?;
            sys::state().log.push(Ev::Mark(k + 1));
        }
        sys::with(|| w.close()).map_err(|e| format!("close: {:?}", e))?;
    }
    let log = std::mem::take(&mut sys::state().log);
    sys::reset(vec![], false);
    let img = c.path("image.nc");
    let mut file: Vec<u8> = vec![];
    fn put(file: &mut Vec<u8>, off: u64, data: &[u8]) {
        let (o, n) = (off as usize, data.len());
        if file.len() < o + n {
            file.resize(o + n, 0);
        }
        file[o..o + n].copy_from_slice(data);
    }
    let mut acked: Option<usize> = None;
    let mut known: Vec<Vec<Option<Vec<u8>>>> = vec![];
    let mut good: Option<(Vec<u8>, Vec<i64>)> = None; // header verified, begin offsets
    let last_mark = ops.len();
    for (p, ev) in log.iter().enumerate() {
        let mut images: Vec<(Vec<u8>, bool)> = vec![];
        match ev {
            Ev::Mark(k) => {
                acked = Some(*k);
                known = acknowledged(&s, &ops, *k, false);
                images.push((file.clone(), true));
                // from now on, the next one is in progress
            }
            Ev::Trunc { len } => {
                file.resize(*len as usize, 0);
                if acked.is_some() {
                    images.push((file.clone(), true));
                }
            }
            Ev::Write { off, data } => {
                if acked.is_some() && data.len() > 1 {
                    // the process may stop inside of the write
                    let mut part = file.clone();
                    put(&mut part, *off, &data[..1 + c.rng.below(data.len() - 1)]);
                    images.push((part, c.rng.one_in(20)));
                }
                put(&mut file, *off, data);
                if acked.is_some() {
                    images.push((file.clone(), c.rng.one_in(20)));
                }
            }
        }
        let at = match acked {
            None => continue,
            Some(k) => k,
        };
        if !matches!(ev, Ev::Mark(_)) {
            c.obs.add("crash points inside a call", images.len() as u64);
            if at < last_mark {
                known = acknowledged(&s, &ops, at, true);
            }
        }
        for (image, open) in images {
            c.obs.add("crash points", 1);
            let place = || format!("stop after event {} of {} ({} of {} calls acknowledged)", p, log.len(), at, last_mark);
            // on the bytes
            let same = match &good {
                Some((h, _)) => image.len() >= h.len() && image[..h.len()] == h[..],
                None => false,
            };
            if !same {
                let dec = decode(&image);
                let h = dec.syntax.map_err(|e| format!("{}: the header is {:?} ({})", place(), e, text))?;
                check!(dec.invalid.is_empty(), "{}: the header breaks {:?} ({})", place(), dec.invalid, text);
                compare_defs(&h.spec, &s).map_err(|e| format!("{}: {} ({})", place(), e, text))?;
                good = Some((image[..h.len].to_vec(), h.begins.clone()));
            }
            let begins: Vec<u64> = good.as_ref().map(|g| g.1.iter().map(|b| *b as u64).collect()).unwrap_or_default();
            for (v, x) in s.slabs() {
                if let Some(b) = &known[v][x] {
                    let (o, n, _) = s.range(&begins, v, x);
                    check!(
                        image.get(o as usize..(o + n) as usize) == Some(&b[..]),
                        "{}: chunk {} of variable {}, acknowledged, is lost or damaged ({})", place(), x, v, text
                    );
                    c.obs.add("acknowledged slabs checked", 1);
                }
            }
            if open {
                std::fs::write(&img, &image).map_err(|e| e.to_string())?;
                check_image(&img, &s, &known, &mut c.rng, &mut c.obs).map_err(|e| format!("{}: {} ({})", place(), e, text))?;
            }
        }
        if c.obs.distinct.len() < 400_000 {
            c.obs.distinct(hash_of(&(c.idx, p)));
        }
    }
    let end = read(&path)?;
    assert!(end == file, "the log of the writes does not give the file: the interposition misses something");
    if let Some(m) = diff(&end, &closed_image(&s, min, &ops)) {
        return Err(format!("the closed file is not the expected one: {} ({})", m, text));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------

pub const C19: Prop = Prop {
    id: "C19",
    quick: 2400,
    thorough: 30000,
    level: "exploration",
    rule: "definitions whose begin offsets lie around 2^31 (through the sizes of the variables, their number, or the minimum header size), whose sizes and record counts lie around 2^31, and sparse files whose data lie beyond 2, 4 and 8 GiB, sizes and positions beyond 2^63, headers and attributes which no file or field can hold, and sparse files of another writer with offsets up to 2^62: acceptance, header bytes compared with the reference encoder, position and value of the data written, and values read by the library; variables of more than 2 GiB (4 GiB when thorough) of each type read by one call; distinct by definition",
    assumptions: &["the scratch file system has sparse files", "variables of more than some MiB are never written as a whole (the library writes them value by value)"],
    required: &["classic accepted", "classic refused", "refused then written in the 64-bit format", "begin offset at the limit", "first begin offset over the limit", "size field 0xFFFFFFFF", "size field at the limit", "record count 0xFFFFFFFF", "record count at the limit", "data beyond 2 GiB", "data beyond 4 GiB", "indeterminate record count read back", "values filled beyond 4 GiB", "huge definitions refused", "positions beyond the largest offset", "foreign data beyond 1 TiB", "attributes too long refused", "headers too long refused", "variables of more than 2 GiB read by one call"],
    run: c19,
};

const LIMIT: u64 = i32::MAX as u64;

/// `total` as a product of dimensions sizes.
fn factor(r: &mut Rng, total: u64) -> Vec<usize> {
    let mut out = vec![];
    let mut left = total;
    while left > 1 {
        let mut p = 2;
        while left % p != 0 && p * p <= left {
            p += 1;
        }
        if left % p != 0 {
            p = left;
        }
        left /= p;
        if !out.is_empty() && r.bool() {
            let n = out.len();
            let k = r.below(n);
            if out[k] as u64 * p <= LIMIT - 3 {
                out[k] *= p as usize;
                continue;
            }
        }
        out.push(p as usize);
    }
    out
}

fn add_dims(s: &mut Spec, sizes: &[usize]) -> Vec<usize> {
    sizes
        .iter()
        .map(|n| {
            s.dims.push(Dim { name: format!("d{}", s.dims.len()), size: Some(*n) });
            s.dims.len() - 1
        })
        .collect()
}

fn scalar(r: &mut Rng, s: &mut Spec, rec: bool) {
    let ty = *r.pick(&TYS);
    let dims = match s.unlim() {
        Some(u) if rec => vec![u],
        _ => vec![],
    };
    let attrs = if r.one_in(4) { gen::attrs(r, 2, 3) } else { vec![] };
    s.vars.push(Var { name: format!("s{}", s.vars.len()), dims, ty, attrs });
}

fn c19(c: &mut Ctx) -> Res {
    let path = c.path("big.nc");
    let r = match c.idx % 4 {
        3 if c.idx % 400 == 103 => c19_whole(c, &path),
        1 if c.idx % 16 == 1 && sys::available() => c19_unstorable(c, &path),
        0 | 1 => c19_limits(c, &path),
        2 if c.idx % 8 == 2 => c19_far(c, &path),
        2 if c.idx % 3 == 0 => far_begins(c, &path),
        2 => c19_fields(c, &path),
        _ => c19_data(c, &path),
    };
    let _ = std::fs::remove_file(&path);
    r
}

/// Sets the definition and compares the outcome and the header with the reference.
fn set_and_compare(c: &mut Ctx, path: &Path, s: &Spec, d: &DataSet, min: usize) -> Result<bool, String> {
    let begins = s.begins(min as u64);
    let over = s.version == 1 && begins.iter().any(|b| *b > LIMIT);
    let not_i64 = begins.iter().any(|b| *b > i64::MAX as u64);
    let mut w = FileWriter::open(path).map_err(|e| format!("open: {:?}", e))?;
    let got = w.set_def(d, version(s.version), min);
    let text = format!("{} minimum {} begins {:?}", s.brief(), min, begins);
    let len = std::fs::metadata(path).map_err(|e| e.to_string())?.len();
    if over || not_i64 {
        if s.version == 1 {
            check!(got == Err(WriteError::ClassicVersionNotPossible), "an impossible classic definition gives {:?} ({})", got, text);
        } else {
            check!(got.is_err(), "an offset over 2^63 is accepted ({})", text);
        }
        check!(len == 0, "{} bytes written for a refused definition ({})", len, text);
        check!(!w.header_is_defined() && w.data_set().is_none(), "a refused definition is set ({})", text);
        if s.version == 1 {
            c.obs.add("classic refused", 1);
            if begins.iter().filter(|b| **b > LIMIT).min() == Some(&(LIMIT + 1)) {
                c.obs.add("first begin offset over the limit", 1);
            }
            if min < 1 << 20 && !not_i64 {
                // the same writer accepts it in the other format
                let o = Spec { version: 2, ..s.clone() };
                w.set_def(d, Version::Offset64Bit, min).map_err(|e| format!("refused in the 64-bit format: {:?} ({})", e, text))?;
                compare_header(path, &o, min, &text)?;
                c.obs.add("refused then written in the 64-bit format", 1);
            }
        }
        return Ok(false);
    }
    check!(got.is_ok(), "a possible definition gives {:?} ({})", got, text);
    if s.version == 1 {
        c.obs.add("classic accepted", 1);
    }
    if begins.iter().any(|b| *b == LIMIT - 3) {
        c.obs.add("begin offset at the limit", 1);
    }
    drop(w);
    compare_header(path, s, min, &text)?;
    Ok(true)
}

fn compare_header(path: &Path, s: &Spec, min: usize, text: &str) -> Res {
    use std::io::Read;
    let (want, _) = encode_header(s, &Layout::canonical(s, min as u64));
    let mut got = vec![];
    let f = std::fs::File::open(path).map_err(|e| e.to_string())?;
    f.take(want.len() as u64).read_to_end(&mut got).map_err(|e| e.to_string())?;
    match diff(&got, &want) {
        None => Ok(()),
        Some(m) => Err(format!("the header differs: {} ({})", m, text)),
    }
}

/// A variable of more than 2 GiB read by one call.
fn c19_whole(c: &mut Ctx, path: &Path) -> Res {
    use std::os::unix::fs::FileExt;
    if cfg!(miri) {
        return Ok(());
    }
    let k = c.idx / 400;
    let r = &mut c.rng;
    let ty = [Ty::U8, Ty::F64, Ty::I8, Ty::I32, Ty::I16, Ty::F32][(k % 6) as usize];
    let mut s = Spec::empty(1 + r.below(2) as u8);
    let goal = if c.thorough && r.one_in(3) { 1usize << 32 } else { 1 << 31 };
    let before = r.bool();
    if before {
        scalar(r, &mut s, false);
    }
    let records = k > 1 && r.one_in(3);
    let n = if records { 2 + r.below(3) } else { 1 };
    if records {
        s.dims.push(Dim { name: "t".into(), size: None });
        s.numrecs = n;
    }
    // the first dimension gives a bit more than the goal
    let y = 1 + r.below(100);
    let x = goal / ty.size() / n / y + 1 + r.below(1000);
    let d = add_dims(&mut s, &[x, y]);
    let dims = if records { vec![s.unlim().unwrap(), d[0], d[1]] } else { d };
    let v = s.vars.len();
    s.vars.push(Var { name: "whole".into(), dims, ty, attrs: vec![] });
    if records && r.bool() {
        scalar(r, &mut s, true);
    }
    let l = Layout::canonical(&s, 0);
    let (header, _) = encode_header(&s, &l);
    let text = s.brief();
    let f = std::fs::File::create(path).map_err(|e| format!("harness: {}", e))?;
    f.write_all_at(&header, 0).and_then(|_| f.set_len(s.padding_end(&l))).map_err(|e| format!("harness: {}", e))?;
    // some elements, the rest is a hole
    let per = s.chunk_len(v) as usize;
    let len = n * per;
    let one = ty.size();
    let mut put: Vec<(usize, Vec<u8>)> = vec![];
    for i in vec![0, len - 1, goal / one - 1, goal / one, per - 1, per, len / 2].into_iter().chain((0..5).map(|_| r.below(len)).collect::<Vec<_>>()) {
        if i < len && put.iter().all(|p| p.0 != i) {
            let b: Vec<u8> = (0..one).map(|_| 1 + r.below(100) as u8).collect();
            f.write_all_at(&b, s.range(&l.begins, v, i / per).0 + (i % per * one) as u64).map_err(|e| format!("harness: {}", e))?;
            put.push((i, b));
        }
    }
    drop(f);
    let mut rd = FileReader::open(path).map_err(|e| format!("open: {:?} ({})", e, text))?;
    for whole in if records { vec![true] } else { vec![true, false] } {
        let got = if whole { rd.read_var("whole") } else { rd.read_record("whole", 0) }.map_err(|e| format!("a variable of {} bytes is not read: {:?} ({})", len * one, e, text))?;
        macro_rules! look {
            ($d:expr, $zero:expr) => {{
                check!($d.len() == len, "{} values are read instead of {} ({})", $d.len(), len, text);
                for (i, b) in &put {
                    check!($d[*i].to_be_bytes()[..] == b[..], "value {} of {} is {:?} instead of {:?} ({})", i, len, $d[*i].to_be_bytes(), b, text);
                }
                let others = $d.iter().filter(|x| **x != $zero).count();
                check!(others == put.len(), "{} values are not zero instead of {} ({})", others, put.len(), text);
            }};
        }
        match &got {
            netcdf3::DataVector::I8(d) => look!(d, 0),
            netcdf3::DataVector::U8(d) => look!(d, 0),
            netcdf3::DataVector::I16(d) => look!(d, 0),
            netcdf3::DataVector::I32(d) => look!(d, 0),
            netcdf3::DataVector::F32(d) => look!(d, 0.0),
            netcdf3::DataVector::F64(d) => look!(d, 0.0),
        }
    }
    c.obs.add("variables of more than 2 GiB read by one call", 1);
    c.obs.max("values read by one call", len as u64);
    c.obs.distinct(hash_of(&s));
    Ok(())
}

/// What no file can hold, or no field of the header: a header of more than 2^63-1 bytes, an
/// attribute of more than 2^31-1 elements. It is refused with no effect.
fn c19_unstorable(c: &mut Ctx, path: &Path) -> Res {
    let r = &mut c.rng;
    let mut s = gen::spec(r, &Knobs::default());
    s.version = 1 + r.below(2) as u8;
    if r.one_in(3) {
        s.vars.clear();
    }
    let d = build(&s, &mut c.rng).map_err(refused)?;
    let r = &mut c.rng;
    let attribute = r.bool();
    let mut big = build(&s, &mut Rng::of(c.seed, "again", c.idx)).map_err(refused)?;
    let mut min = r.below(200);
    let text;
    if attribute {
        let over = *r.pick(&[0usize, 0, 1, 2, 3, 1000]);
        let of = r.below(big.num_vars() + 1);
        let name = "the_largest_attribute";
        let ty = *r.pick(&TYS);
        let n = (*r.pick(&[1usize << 31, 1 << 31, 1 << 32, 3 << 31, 1 << 33]) >> (ty.size() as usize / 4)).max(1 << 31) + over;
        text = format!("attribute of {} {:?}, {}", n, ty, s.brief());
        // (these zeros take no memory unless they are read)
        let data = match ty {
            Ty::I8 => DataVector::I8(vec![0; n]),
            Ty::U8 => DataVector::U8(vec![0; n]),
            Ty::I16 => DataVector::I16(vec![0; n]),
            Ty::I32 => DataVector::I32(vec![0; n]),
            Ty::F32 => DataVector::F32(vec![0.0; n]),
            Ty::F64 => DataVector::F64(vec![0.0; n]),
        };
        if of == 0 {
            match data {
                DataVector::I8(x) => big.add_global_attr_i8(name, x),
                DataVector::U8(x) => big.add_global_attr_u8(name, x),
                DataVector::I16(x) => big.add_global_attr_i16(name, x),
                DataVector::I32(x) => big.add_global_attr_i32(name, x),
                DataVector::F32(x) => big.add_global_attr_f32(name, x),
                DataVector::F64(x) => big.add_global_attr_f64(name, x),
            }
        } else {
            let v = s.vars[of - 1].name.as_str();
            match data {
                DataVector::I8(x) => big.add_var_attr_i8(v, name, x),
                DataVector::U8(x) => big.add_var_attr_u8(v, name, x),
                DataVector::I16(x) => big.add_var_attr_i16(v, name, x),
                DataVector::I32(x) => big.add_var_attr_i32(v, name, x),
                DataVector::F32(x) => big.add_var_attr_f32(v, name, x),
                DataVector::F64(x) => big.add_var_attr_f64(v, name, x),
            }
        }
        .map_err(refused)?;
    } else {
        let top = *r.pick(&[usize::MAX, usize::MAX, 1 << 63, usize::MAX - (1 << 62)]);
        min = if top == 1 << 63 { top - 3 + r.below(1000) } else { top - r.below(16) };
        text = format!("minimum header size {}, {}", min, s.brief());
    }
    c.obs.distinct(hash_of(&text));
    c.obs.sample(|| text.clone());
    let mut w = FileWriter::open(path).map_err(|e| format!("open: {:?}", e))?;
    // (if it were not refused, the writing stops here)
    sys::reset((20..40).map(|k| (sys::Class::Write, k, sys::Fault::Err(28))).collect(), false);
    let start = crate::alloc::begin(64 << 20);
    let got = sys::with(|| w.set_def(&big, version(s.version), min));
    crate::alloc::end(start);
    let writes = sys::state().count[sys::Class::Write as usize];
    check!(got.is_err(), "accepted: {}", text);
    check!(writes == 0 && std::fs::metadata(path).map_err(|e| e.to_string())?.len() == 0, "refused ({:?}) after {} writes: {}", got, writes, text);
    check!(!w.header_is_defined() && w.data_set().is_none(), "refused but set: {}", text);
    c.obs.add(if attribute { "attributes too long refused" } else { "headers too long refused" }, 1);
    w.set_def(&d, version(s.version), 0).map_err(|e| format!("then another definition is refused: {:?} ({})", e, text))?;
    compare_header(path, &s, 0, &text)
}

/// Files of other writers whose variables are anywhere among the offsets of the version.
pub fn far_begins(c: &mut Ctx, path: &Path) -> Res {
    use std::os::unix::fs::FileExt;
    let r = &mut c.rng;
    let mut s = gen::spec(r, &Knobs::default());
    s.version = if r.one_in(4) { 1 } else { 2 };
    let vals = gen::vals(r, &s);
    let mut l = Layout::canonical(&s, 0);
    let top = if s.version == 1 { 31 } else { *r.pick(&[32u32, 33, 40, 41, 42, 43, 48, 56, 62]) };
    // a part of the offsets for each variable, and one for the records
    let fixed: Vec<usize> = (0..s.vars.len()).filter(|v| !s.is_rec(*v)).collect();
    let parts = fixed.len() as u64 + 1;
    let part = (1u64 << top) / parts;
    let mut order: Vec<u64> = (0..parts).collect();
    r.shuffle(&mut order);
    let head = s.header_len() + 4;
    let longest: u64 = (0..s.vars.len()).map(|v| s.vsize(v)).max().unwrap_or(0).max(s.stride() * s.numrecs.max(1) as u64) + 8;
    if part <= longest + head {
        return Ok(());
    }
    let somewhere = |r: &mut Rng, k: u64| {
        let (lo, hi) = (k * part + head, (k + 1) * part - longest);
        let x = match r.below(4) {
            0 => hi,
            1 => lo,
            _ => lo + r.next() % (hi - lo),
        };
        x / 4 * 4
    };
    for (k, v) in fixed.iter().enumerate() {
        l.begins[*v] = somewhere(r, order[k]).max(head / 4 * 4);
    }
    let mut at = somewhere(r, order[fixed.len()]).max(head / 4 * 4);
    for v in s.rec_vars() {
        l.begins[v] = at;
        at += s.vsize(v);
    }
    let f = std::fs::File::create(path).map_err(|e| e.to_string())?;
    f.write_all_at(&encode_header(&s, &l).0, 0).map_err(|e| e.to_string())?;
    let mut far = 0;
    for (v, k) in s.slabs() {
        let (o, _, _) = s.range(&l.begins, v, k);
        if f.write_all_at(&vals[v][k], o).is_err() {
            // more than the file system can do
            return Ok(());
        }
        far = far.max(o);
    }
    if s.padding_end(&l) > f.metadata().map_err(|e| e.to_string())?.len() {
        let _ = f.set_len(s.padding_end(&l));
    }
    drop(f);
    if far > 1 << 40 {
        c.obs.add("foreign data beyond 1 TiB", 1);
    }
    c.obs.max("offset read in a foreign file", far);
    c.obs.distinct(hash_of(&(&s, &l.begins)));
    check_file(path, &s, &vals, &mut c.rng, &mut c.obs).map_err(|e| format!("{} ({} begins {:?})", e, s.brief(), l.begins))
}

/// Sizes and positions beyond the 64-bit integers.
fn c19_far(c: &mut Ctx, path: &Path) -> Res {
    let r = &mut c.rng;
    let mut s = Spec::empty(1 + r.below(2) as u8);
    s.dims.push(Dim { name: "t".into(), size: None });
    s.numrecs = *r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 4 + 1, 1 << 62, 1 << 61, 1 << 60]);
    let n = r.below(3);
    for _ in 0..n {
        let rec = r.bool();
        scalar(r, &mut s, rec);
    }
    let huge = r.bool();
    if huge {
        let n = 2 + r.below(3);
        let sizes: Vec<usize> = (0..n).map(|_| *r.pick(&[LIMIT as usize - 3, 1 << 30, (1 << 31) - 8, 3 << 29, 65536])).collect();
        let mut dims = add_dims(&mut s, &sizes);
        if r.bool() {
            dims.insert(0, 0);
        }
        let ty = *r.pick(&TYS);
        s.vars.push(Var { name: "huge".into(), dims, ty, attrs: vec![] });
    }
    scalar(r, &mut s, true);
    c.obs.distinct(hash_of(&s));
    let d = build(&s, &mut c.rng).map_err(refused)?;
    let ok = set_and_compare(c, path, &s, &d, 0)?;
    if huge {
        c.obs.add(if ok { "huge definitions accepted" } else { "huge definitions refused" }, 1);
    }
    if !ok {
        return Ok(());
    }
    // a record whose position exceeds the offsets of a file cannot be written
    let begins = s.begins(0);
    let stride: u128 = s.rec_vars().iter().map(|v| s.vsize(*v) as u128).sum();
    let stride = if s.lone().is_some() { s.stride() as u128 } else { stride };
    let mut w = FileWriter::open(path).map_err(|e| format!("open: {:?}", e))?;
    w.set_def(&d, version(s.version), 0).map_err(|e| format!("set_def: {:?}", e))?;
    let before = std::fs::read(path).map_err(|e| e.to_string())?;
    for v in s.rec_vars() {
        let x = &s.vars[v];
        if x.dims.len() > 1 {
            continue;
        }
        for _ in 0..6 {
            let at = match c.rng.below(4) {
                0 => s.numrecs - 1,
                1 => s.numrecs - 1 - c.rng.below(1000),
                2 => ((1u128 << 64) / stride).min(s.numrecs as u128 - 1) as usize,
                _ => (((1u128 << 64) + c.rng.below(1000) as u128) / stride + 1).min(s.numrecs as u128 - 1) as usize,
            };
            let position = begins[v] as u128 + stride * at as u128;
            if position <= i64::MAX as u128 {
                continue;
            }
            let data = gen::values(&mut c.rng, x.ty, 1);
            let got = write_record(&mut w, &x.name, at, x.ty, &data);
            check!(got.is_err(), "record {} of {:?}, at {}, is written ({})", at, x.name, position, s.brief());
            let after = std::fs::read(path).map_err(|e| e.to_string())?;
            check!(after == before, "record {} of {:?}, at {}, is refused but the file changes ({})", at, x.name, position, s.brief());
            c.obs.add("positions beyond the largest offset", 1);
        }
    }
    Ok(())
}

fn c19_limits(c: &mut Ctx, path: &Path) -> Res {
    let r = &mut c.rng;
    let mut s = Spec::empty(if r.pct(80) { 1 } else { 2 });
    if r.bool() {
        s.dims.push(Dim { name: "t".into(), size: None });
        s.numrecs = r.below(5);
    }
    if r.one_in(3) {
        s.gattrs = gen::attrs(r, 3, 5);
    }
    // small variables before, big ones in the middle, small ones after, in any order of definition
    let mut min = 0usize;
    let target = *r.pick(&[LIMIT - 3, LIMIT - 3, LIMIT + 1, LIMIT + 1, LIMIT - 7, LIMIT + 5, LIMIT - 11, 1 << 32, (1 << 32) - 4, 1 << 33]);
    for _ in 0..r.below(3) {
        let rec = r.bool();
        scalar(r, &mut s, rec);
    }
    let by_header = r.one_in(5);
    if by_header {
        scalar(r, &mut s, true);
        // the offset of the last variable is the target
        let last: u64 = (0..s.vars.len()).map(|v| s.vsize(v)).sum();
        let order: Vec<usize> = (0..s.vars.len()).filter(|v| !s.is_rec(*v)).chain((0..s.vars.len()).filter(|v| s.is_rec(*v))).collect();
        let before = last - s.vsize(*order.last().unwrap());
        // only the refused ones: the header would be written
        let t = target.max(LIMIT + 1);
        min = (t - before) as usize;
        if r.one_in(4) {
            min -= r.below(4);
        }
        s.version = 1;
    } else {
        let k = 1 + r.below(3);
        let rec = s.unlim().is_some() && r.one_in(3);
        let at = s.vars.len();
        for _ in 0..k {
            s.vars.push(Var { name: format!("big{}", s.vars.len()), dims: vec![], ty: *r.pick(&[Ty::I8, Ty::U8]), attrs: vec![] });
        }
        let after = 1 + r.below(2);
        for _ in 0..after {
            let rec = rec || r.bool();
            scalar(r, &mut s, rec);
        }
        // sizes: dimensions must be there to know the header
        let mut sizes = vec![];
        for i in 0..k {
            let d = add_dims(&mut s, &[4])[0];
            let u = s.unlim();
            s.vars[at + i].dims = if rec { vec![u.unwrap(), d] } else { vec![d] };
            sizes.push(d);
        }
        let order: Vec<usize> = (0..s.vars.len()).filter(|v| !s.is_rec(*v)).chain((0..s.vars.len()).filter(|v| s.is_rec(*v))).collect();
        // the variable whose offset is the target: the first one after the last big one
        let pos = order.iter().position(|v| *v == at + k - 1).unwrap();
        let h = s.begins(0).iter().copied().min().unwrap_or(0);
        let small: u64 = order[..=pos].iter().filter(|v| **v < at || **v >= at + k).map(|v| s.vsize(*v)).sum();
        let mut left = target - h - small;
        for i in 0..k {
            let mut n = if i + 1 == k { left } else { (left / (k - i) as u64 / 4) * 4 };
            n = n.min(LIMIT - 3);
            left -= n;
            // sizes which need padding reach the same offset
            if r.one_in(3) && n > 4 {
                n -= r.below(4) as u64;
            }
            s.dims[sizes[i]].size = Some(n as usize);
        }
        if r.one_in(4) {
            min = r.below(200);
        }
    }
    c.obs.distinct(hash_of(&(&s, min)));
    let d = build(&s, &mut c.rng).map_err(refused)?;
    let b = s.brief();
    c.obs.sample(|| format!("{} begins {:?}", b, s.begins(min as u64)));
    set_and_compare(c, path, &s, &d, min)?;
    Ok(())
}

fn c19_fields(c: &mut Ctx, path: &Path) -> Res {
    let r = &mut c.rng;
    let mut s = Spec::empty(2);
    if r.bool() {
        s.dims.push(Dim { name: "t".into(), size: None });
        let l = i32::MAX as usize;
        s.numrecs = *r.pick(&[l, l, l + 1, l + 1, l - 1, l + 2, u32::MAX as usize, u32::MAX as usize + 1, u32::MAX as usize - 1, 1 << 40, usize::MAX, usize::MAX / 2]);
    }
    // a size around the limit
    let n = 1 + r.below(3);
    for _ in 0..n {
        let ty = *r.pick(&TYS);
        let size = *r.pick(&[LIMIT - 3, LIMIT + 1, LIMIT - 7, LIMIT + 5, LIMIT, LIMIT - 1, LIMIT + 2, u32::MAX as u64, 1 << 32, (1 << 32) - 4, 1 << 40, 12]);
        let elems = size / ty.size() as u64;
        let sizes = factor(r, elems);
        if sizes.iter().any(|x| *x > LIMIT as usize - 3) {
            continue;
        }
        let mut dims = add_dims(&mut s, &sizes);
        if let Some(u) = s.unlim() {
            if r.bool() {
                dims.insert(0, u);
            }
        }
        s.vars.push(Var { name: format!("v{}", s.vars.len()), dims, ty, attrs: vec![] });
    }
    if r.bool() {
        s.version = 1;
    }
    c.obs.distinct(hash_of(&s));
    let d = build(&s, &mut c.rng).map_err(refused)?;
    if set_and_compare(c, path, &s, &d, 0)? {
        for v in 0..s.vars.len() {
            if s.vsize(v) > LIMIT {
                c.obs.add("size field 0xFFFFFFFF", 1);
            } else if s.vsize(v) == LIMIT - 3 {
                c.obs.add("size field at the limit", 1);
            }
        }
        if s.numrecs as u64 > LIMIT {
            c.obs.add("record count 0xFFFFFFFF", 1);
        } else if s.numrecs as u64 == LIMIT {
            c.obs.add("record count at the limit", 1);
        }
        // what is read is the definition, except the number of records which is now given by the file
        match FileReader::open(path) {
            Ok(rd) => {
                let mut want = s.clone();
                if s.numrecs as u64 > LIMIT {
                    want.numrecs = 0;
                }
                let mut got = observe(rd.data_set(), version_num(&rd.version()))?;
                if s.numrecs as u64 > LIMIT {
                    got.numrecs = 0;
                }
                compare_defs(&got, &want)?;
                c.obs.add("headers read back", 1);
            }
            Err(e) => check!(s.numrecs as u64 > LIMIT && e == ReadError::ComputationNumberOfRecords, "the file does not open: {:?} ({})", e, s.brief()),
        }
    }
    Ok(())
}

/// Data far away in sparse files.
fn c19_data(c: &mut Ctx, path: &Path) -> Res {
    use std::os::unix::fs::FileExt;
    let r = &mut c.rng;
    let mut s = Spec::empty(1 + r.below(2) as u8);
    let goal = *r.pick(&[1u64 << 31, 1 << 32, 1 << 33, (1 << 31) + (1 << 20), 3 << 31]);
    let indeterminate = r.one_in(3);
    if indeterminate {
        // more than 2^31-1 records
        s.dims.push(Dim { name: "t".into(), size: None });
        s.numrecs = (LIMIT as usize) + 1 + r.below(1000);
        for _ in 0..1 + r.below(2) {
            scalar(r, &mut s, true);
        }
        if r.bool() {
            scalar(r, &mut s, false);
        }
    } else if r.pct(60) {
        // large records
        s.dims.push(Dim { name: "t".into(), size: None });
        let rec_size = *r.pick(&[1u64 << 20, (1 << 22) + 5, (1 << 24) + 1, (1 << 28) + 3]);
        let d = add_dims(&mut s, &[rec_size as usize])[0];
        s.numrecs = (goal / rec_size) as usize + 1 + r.below(4);
        if r.one_in(5) {
            scalar(r, &mut s, false);
        }
        let at = r.below(2);
        if at == 1 {
            scalar(r, &mut s, true);
        }
        s.vars.push(Var { name: "big".into(), dims: vec![0, d], ty: *r.pick(&[Ty::I8, Ty::U8]), attrs: vec![] });
        scalar(r, &mut s, true);
    } else if r.bool() {
        // huge records: small variables far apart, in records of 2 GiB and more
        s.dims.push(Dim { name: "t".into(), size: None });
        s.numrecs = 2 + r.below(3);
        if r.bool() {
            scalar(r, &mut s, true);
        }
        for _ in 0..1 + r.below(2) {
            let n = *r.pick(&[(1u64 << 31) - 8, 1 << 31, (1 << 31) + 4, 3 << 30, LIMIT - 3, LIMIT - 7]) - r.below(3) as u64;
            let d = add_dims(&mut s, &[n.min(LIMIT - 3) as usize])[0];
            s.vars.push(Var { name: format!("big{}", s.vars.len()), dims: vec![0, d], ty: *r.pick(&[Ty::I8, Ty::U8]), attrs: vec![] });
            scalar(r, &mut s, true);
        }
        s.version = 2;
    } else {
        // large fixed-size variables, then small ones
        let mut left = goal;
        while left > 0 {
            let n = left.min(LIMIT - 3 - r.below(9) as u64);
            let d = add_dims(&mut s, &[n as usize])[0];
            s.vars.push(Var { name: format!("big{}", s.vars.len()), dims: vec![d], ty: Ty::I8, attrs: vec![] });
            left -= n;
        }
        if r.bool() {
            s.dims.push(Dim { name: "t".into(), size: None });
            s.numrecs = 1 + r.below(4);
        }
        for _ in 0..2 {
            let rec = r.bool();
            scalar(r, &mut s, rec);
        }
        s.version = 2;
    }
    c.obs.distinct(hash_of(&s));
    let d = build(&s, &mut c.rng).map_err(refused)?;
    let begins = s.begins(0);
    let text = format!("{} begins {:?} stride {}", s.brief(), begins, s.stride());
    c.obs.sample(|| text.clone());
    let mut w = FileWriter::open(path).map_err(|e| format!("open: {:?}", e))?;
    w.set_def(&d, version(s.version), 0).map_err(|e| format!("set_def: {:?} ({})", e, text))?;
    // the small variables, at some records; the last record of the file is always written
    let mut put: Vec<(usize, usize, Vec<u8>)> = vec![];
    for v in 0..s.vars.len() {
        let small = s.chunk_bytes(v) <= 8;
        let n = s.nchunks(v);
        let mut recs: Vec<usize> = if small { vec![n - 1, n / 2, 0, c.rng.below(n), (((1u64 << 32) / s.stride().max(1)) as usize + 1).min(n - 1), (((1u64 << 31) / s.stride().max(1)) as usize + 1).min(n - 1)] } else { vec![] };
        if !small && s.chunk_bytes(v) < 5 << 20 && c.rng.one_in(3) {
            recs = vec![n - 1];
        }
        recs.sort();
        recs.dedup();
        for i in recs {
            let mut data = gen::values(&mut c.rng, s.vars[v].ty, s.chunk_len(v) as usize);
            if data.iter().all(|b| *b == 0) {
                // not to be confused with a hole
                data[0] = 1;
            }
            put.push((v, i, data));
        }
    }
    c.rng.shuffle(&mut put);
    for (v, i, data) in &put {
        let x = &s.vars[*v];
        let r = if !s.is_rec(*v) && c.rng.bool() { write_var(&mut w, &x.name, x.ty, data) } else { write_record(&mut w, &x.name, *i, x.ty, data) };
        r.map_err(|e| format!("write record {} of {:?}: {:?} ({})", i, x.name, e, text))?;
    }
    drop(w);
    let f = std::fs::File::open(path).map_err(|e| e.to_string())?;
    let mut end = 0;
    for (v, i, data) in &put {
        let (o, n, p) = s.range(&begins, *v, *i);
        end = end.max(o + n + p);
        let mut got = vec![0; n as usize];
        f.read_exact_at(&mut got, o).map_err(|e| format!("record {} of variable {} is not at {}: {} ({})", i, v, o, e, text))?;
        if let Some(m) = diff(&got, data) {
            return Err(format!("record {} of variable {} at {}: {} ({})", i, v, o, m, text));
        }
        if o > 1 << 31 {
            c.obs.add("data beyond 2 GiB", 1);
        }
        if o > 1 << 32 {
            c.obs.add("data beyond 4 GiB", 1);
        }
        c.obs.max("offset written and read", o);
    }
    let len = f.metadata().map_err(|e| e.to_string())?.len();
    check!(len == end.max(s.header_len()), "the file has {} bytes instead of {} ({})", len, end, text);
    let mut rd = FileReader::open(path).map_err(|e| format!("open: {:?} ({})", e, text))?;
    let whole_file = s.rec_vars().last().map_or(true, |v| put.iter().any(|(x, i, _)| x == v && i + 1 == s.numrecs));
    if whole_file || !indeterminate {
        check_def(&rd, &s).map_err(|e| format!("{} ({})", e, text))?;
        if indeterminate {
            c.obs.add("indeterminate record count read back", 1);
        }
    }
    for (v, i, data) in &put {
        let x = &s.vars[*v];
        let got = if c.rng.bool() { rd.read_record(&x.name, *i).map(|g| dv(&g).1) } else { read_record_typed(&mut rd, &x.name, *i, x.ty) };
        let got = got.map_err(|e| format!("record {} of {:?} is not read: {:?} ({})", i, x.name, e, text))?;
        if let Some(m) = diff(&got, data) {
            return Err(format!("record {} of {:?} is read differently: {} ({})", i, x.name, m, text));
        }
    }
    // whole small variables spread over the file
    for v in 0..s.vars.len() {
        if s.chunk_bytes(v) <= 8 && s.nchunks(v) <= 10000 && whole_file {
            let n = s.chunk_bytes(v) as usize;
            let x = &s.vars[v];
            let (_, got) = dv(&rd.read_var(&x.name).map_err(|e| format!("variable {:?} is not read: {:?} ({})", x.name, e, text))?);
            check!(got.len() == n * s.nchunks(v), "variable {:?}: {} bytes ({})", x.name, got.len(), text);
            for (y, i, data) in &put {
                if *y == v {
                    check!(got[i * n..(i + 1) * n] == data[..], "record {} of {:?} differs in the whole variable ({})", i, x.name, text);
                }
            }
            c.obs.add("variables spread over large files read", 1);
            if s.is_rec(v) && s.stride() > 1 << 31 {
                c.obs.add("variables in huge records read", 1);
            }
        }
    }
    if !indeterminate && sys::available() && c.rng.bool() {
        c19_fill(c, path, &s, &d, &begins, &put).map_err(|e| format!("{} ({})", e, text))?;
    }
    // whole small variables written over the file
    if !indeterminate && s.numrecs <= 2100 {
        for v in 0..s.vars.len() {
            if s.is_rec(v) && s.chunk_bytes(v) <= 8 {
                let x = &s.vars[v];
                let data = gen::values(&mut c.rng, x.ty, s.numrecs * s.chunk_len(v) as usize);
                let d2 = &d;
                let mut w = FileWriter::open(path).map_err(|e| format!("open: {:?}", e))?;
                w.set_def(d2, version(s.version), 0).map_err(|e| format!("set_def: {:?}", e))?;
                write_var(&mut w, &x.name, x.ty, &data).map_err(|e| format!("write {:?}: {:?} ({})", x.name, e, text))?;
                drop(w);
                let f = std::fs::File::open(path).map_err(|e| e.to_string())?;
                let n = s.chunk_bytes(v) as usize;
                for i in 0..s.numrecs {
                    let (o, _, _) = s.range(&begins, v, i);
                    let mut got = vec![0; n];
                    f.read_exact_at(&mut got, o).map_err(|e| format!("record {} of variable {} is not at {}: {} ({})", i, v, o, e, text))?;
                    check!(got[..] == data[i * n..(i + 1) * n], "record {} of {:?} at {} differs after the whole variable was written ({})", i, x.name, o, text);
                }
                c.obs.add("variables spread over large files written", 1);
                break;
            }
        }
    }
    Ok(())
}

/// Large files are filled until the disk is full: whatever has been written by then is at its place.
fn c19_fill(c: &mut Ctx, path: &Path, s: &Spec, d: &DataSet, begins: &[u64], put: &[(usize, usize, Vec<u8>)]) -> Res {
    use std::os::unix::fs::FileExt;
    let mut w = FileWriter::open(path).map_err(|e| format!("open: {:?}", e))?;
    w.set_def(d, version(s.version), 0).map_err(|e| format!("set_def: {:?}", e))?;
    let mut kept = vec![];
    for (v, i, data) in put {
        if c.rng.bool() {
            let x = &s.vars[*v];
            write_record(&mut w, &x.name, *i, x.ty, data).map_err(|e| format!("write record {} of {:?}: {:?}", i, x.name, e))?;
            kept.push((*v, *i, data));
        }
    }
    sys::reset(vec![], true);
    sys::state().full = Some(s.numrecs as u64 * s.rec_vars().len() as u64 + 5000);
    let got = sys::with(|| w.close());
    let log = std::mem::take(&mut sys::state().log);
    let hits = sys::state().hits;
    sys::reset(vec![], false);
    check!(hits > 0 || got.is_ok(), "close: {:?}", got);
    check!(hits == 0 || got.is_err(), "close succeeds although the disk is full");
    let header = encode_header(s, &Layout::canonical(s, 0)).0;
    let stride = s.stride();
    for e in &log {
        let (mut at, mut data) = match e {
            sys::Ev::Write { off, data } => (*off, &data[..]),
            _ => continue,
        };
        while !data.is_empty() {
            if at < header.len() as u64 {
                let n = data.len().min(header.len() - at as usize);
                check!(data[..n] == header[at as usize..at as usize + n], "close changes the header at {}", at);
                at += n as u64;
                data = &data[n..];
                continue;
            }
            // the slab which holds this byte
            let mut found = None;
            for v in 0..s.vars.len() {
                let k = if !s.is_rec(v) {
                    0
                } else if at < begins[v] || stride == 0 {
                    continue;
                } else {
                    ((at - begins[v]) / stride) as usize
                };
                if k >= s.nchunks(v) {
                    continue;
                }
                let (o, n, p) = s.range(begins, v, k);
                if o <= at && at < o + n + p {
                    found = Some((v, k, at - o, o + n + p - at, n));
                }
            }
            let (v, k, at_in, left, n) = found.ok_or(format!("close writes at {}, which is no variable", at))?;
            let m = (data.len() as u64).min(left) as usize;
            let fill = s.vars[v].ty.fill();
            let acked = kept.iter().find(|(x, i, _)| *x == v && *i == k).map(|x| x.2);
            for (q, b) in data[..m].iter().enumerate() {
                let z = at_in + q as u64;
                if z >= n {
                    // padding
                    continue;
                }
                let want = match acked {
                    Some(a) => a[z as usize],
                    None => fill[z as usize % fill.len()],
                };
                check!(*b == want, "close writes {} instead of {} at {}, byte {} of record {} of {:?}{}", b, want, at + q as u64, z, k, s.vars[v].name, if acked.is_some() { ", written before" } else { "" });
            }
            c.obs.add("values filled in large files", 1);
            if at > 1 << 32 {
                c.obs.add("values filled beyond 4 GiB", 1);
            }
            at += m as u64;
            data = &data[m..];
        }
    }
    let f = std::fs::File::open(path).map_err(|e| e.to_string())?;
    for (v, i, data) in kept {
        let (o, n, _) = s.range(begins, v, i);
        let mut got = vec![0; n as usize];
        f.read_exact_at(&mut got, o).map_err(|e| format!("after close, record {} of variable {} is not at {}: {}", i, v, o, e))?;
        check!(got[..] == data[..], "after close, record {} of variable {} at {} is {:?} instead of {:?}", i, v, o, got, data);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------

pub const C25: Prop = Prop {
    id: "C25",
    quick: 120000,
    thorough: 1500000,
    level: "exploration",
    rule: "sequences of open, create_new, read, failed calls, close and drop in a directory with files, missing names, names which are not UTF-8, directories, symbolic links and unreachable paths; the monitor compares results, the content of the whole directory and the open descriptors with what each call may do; distinct by sequence",
    assumptions: &["the process is the only one in its scratch directory"],
    required: &["create_new on an existing file", "create_new of a new file", "open over an existing file", "missing files", "unreachable paths", "descriptors released", "identities compared", "readers leave the file", "paths which are not UTF-8"],
    run: c25,
};

#[cfg(not(miri))]
fn descriptors(dir: &Path) -> Vec<std::path::PathBuf> {
    let mut out = vec![];
    if let Ok(l) = std::fs::read_dir("/proc/self/fd") {
        for e in l.flatten() {
            if let Ok(t) = std::fs::read_link(e.path()) {
                if t.starts_with(dir) {
                    out.push(t);
                }
            }
        }
    }
    out.sort();
    out
}

#[cfg(miri)]
fn descriptors(_dir: &Path) -> Vec<std::path::PathBuf> {
    vec![]
}

/// Identity of a file: a writer which opens an existing file writes in this file, and a new file has
/// the permissions any new file has.
#[cfg(not(miri))]
fn identity(p: &Path) -> Option<(u64, u64, u32, u32, u32)> {
    use std::os::unix::fs::MetadataExt;
    std::fs::symlink_metadata(p).ok().map(|m| (m.ino(), m.nlink(), m.mode(), m.uid(), m.gid()))
}

/// Times of the last changes of the content and of the attributes of a file.
#[cfg(not(miri))]
fn times_of(p: &Path) -> Option<(i64, i64, i64, i64)> {
    use std::os::unix::fs::MetadataExt;
    std::fs::symlink_metadata(p).ok().map(|m| (m.mtime(), m.mtime_nsec(), m.ctime(), m.ctime_nsec()))
}

/// Stand for a name which is too long, a name with a NUL byte and no name at all.
const LONG: &str = "<300 letters>";
const NUL: &str = "nul\0byte.nc";
const EMPTY: &str = "<no name>";

/// Stand for names which are not valid UTF-8.
const NOT_UTF8: &str = "<\\xff\\xfe>.nc";
const NOT_UTF8_NEW: &str = "<a\\x80>.nc";

#[cfg(not(miri))]
fn os_name(name: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    match name {
        NOT_UTF8 => std::ffi::OsString::from_vec(b"\xff\xfe.nc".to_vec()),
        NOT_UTF8_NEW => std::ffi::OsString::from_vec(b"a\x80.nc".to_vec()),
        x => x.into(),
    }
}

#[cfg(miri)]
fn os_name(name: &str) -> std::ffi::OsString {
    name.into()
}

/// The inverse of `os_name()`.
fn shown(p: &Path) -> String {
    for n in [NOT_UTF8, NOT_UTF8_NEW].iter() {
        if p.as_os_str() == os_name(n) {
            return n.to_string();
        }
    }
    format!("{}", p.to_str().map_or_else(|| format!("{:?}", p), |x| x.to_string()))
}

/// Names and contents of everything in the directory.
fn snapshot(dir: &Path) -> std::collections::BTreeMap<String, Option<Vec<u8>>> {
    let mut m = std::collections::BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        if let Ok(l) = std::fs::read_dir(&d) {
            for e in l.flatten() {
                let p = e.path();
                let name = shown(p.strip_prefix(dir).unwrap_or(&p));
                match std::fs::symlink_metadata(&p) {
                    Ok(x) if x.is_dir() => {
                        m.insert(name, None);
                        todo.push(p);
                    }
                    Ok(x) if x.file_type().is_symlink() => {
                        let t = std::fs::read_link(&p).map(|t| t.to_string_lossy().into_owned()).unwrap_or_default();
                        m.insert(name, Some(format!("link to {}", t).into_bytes()));
                    }
                    _ => {
                        m.insert(name, std::fs::read(&p).ok());
                    }
                }
            }
        }
    }
    m
}

/// The two names of one file.
fn mirror(m: &mut std::collections::BTreeMap<String, Option<Vec<u8>>>) {
    if m.contains_key("hard") {
        let b = m.get("sub/valid.nc").cloned().unwrap_or(None);
        m.insert("hard".into(), b);
    }
}

/// Acts on files as a user who is not the superuser, until it is dropped.
#[cfg(not(miri))]
struct Nobody(i32);

#[cfg(not(miri))]
extern "C" {
    fn setfsuid(uid: u32) -> i32;
}

#[cfg(not(miri))]
impl Nobody {
    fn new() -> Option<Nobody> {
        unsafe {
            let was = setfsuid(65534);
            let ok = setfsuid(u32::MAX) == 65534;
            let n = Nobody(was);
            if ok { Some(n) } else { None }
        }
    }
}

#[cfg(not(miri))]
impl Drop for Nobody {
    fn drop(&mut self) {
        unsafe {
            setfsuid(self.0 as u32);
        }
    }
}

/// What the permissions of the files and of the directories allow.
#[cfg(not(miri))]
fn c25_permissions(c: &mut Ctx) -> Res {
    use std::io::ErrorKind;
    use std::os::unix::fs::PermissionsExt;
    let dir = c.path("box");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let s = gen::spec(&mut c.rng, &Knobs::tiny());
    let d = build(&s, &mut c.rng).map_err(refused)?;
    let vals = gen::vals(&mut c.rng, &s);
    let ops = full_history(&mut c.rng, &s, &vals);
    let valid = canonical(&s, 0, &vals);
    let set = |p: &Path, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).map_err(|e| e.to_string());
    set(&dir, 0o755)?;
    for _ in 0..6 {
        let exists = c.rng.pct(80);
        let fmode = *c.rng.pick(&[0o444u32, 0o444, 0o000, 0o222, 0o666, 0o644, 0o600, 0o555]);
        let dmode = *c.rng.pick(&[0o755u32, 0o755, 0o777, 0o711]);
        let path = dir.join("f.nc");
        let _ = std::fs::remove_file(&path);
        if exists {
            std::fs::write(&path, &valid).map_err(|e| e.to_string())?;
            set(&path, fmode)?;
        }
        set(&dir, dmode)?;
        let act = c.rng.below(3);
        let text = format!("{} of {} in a directory of mode {:o}", ["reader", "open", "create_new"][act], if exists { format!("a file of mode {:o}", fmode) } else { "a missing file".into() }, dmode);
        let fail = |m: String| format!("as another user, {}: {}", text, m);
        let may = |bit: u32| fmode & bit != 0;
        let expect = match (act, exists) {
            (0, true) => if may(4) { None } else { Some(ErrorKind::PermissionDenied) },
            (0, false) => Some(ErrorKind::NotFound),
            (2, true) => Some(ErrorKind::AlreadyExists),
            (_, true) => if may(2) { None } else { Some(ErrorKind::PermissionDenied) },
            (_, false) => if dmode & 2 != 0 { None } else { Some(ErrorKind::PermissionDenied) },
        };
        let was = identity(&path);
        let nobody = match Nobody::new() {
            // (the scratch directory is out of the reach of this user)
            Some(_) if std::fs::metadata(&dir).is_err() => return Ok(()),
            Some(n) => n,
            None => return Ok(()),
        };
        let mut wrote = false;
        if act == 0 {
            match (FileReader::open(&path), &expect) {
                (Ok(mut rd), None) => {
                    check_def(&rd, &s).map_err(|e| fail(e))?;
                    check_reads(&mut rd, &s, &vals, &mut c.rng, &mut c.obs).map_err(|e| fail(e))?;
                }
                (Err(ReadError::IOErrorKind(k)), Some(e)) if k == *e => {}
                (x, e) => return Err(fail(format!("{:?} instead of {:?}", x.err(), e))),
            }
        } else {
            let got = if act == 1 { FileWriter::open(&path) } else { FileWriter::create_new(&path) };
            match (got, &expect) {
                (Ok(mut w), None) => {
                    w.set_def(&d, version(s.version), 0).map_err(|e| fail(format!("set_def: {:?}", e)))?;
                    for op in &ops {
                        op.run(&s, &mut w).map_err(|e| fail(format!("{:?}", e)))?;
                    }
                    w.close().map_err(|e| fail(format!("close: {:?}", e)))?;
                    wrote = true;
                }
                (Err(WriteError::IOErrorKind(k)), Some(e)) if k == *e => {}
                (x, e) => return Err(fail(format!("{:?} instead of {:?}", x.err(), e))),
            }
        }
        drop(nobody);
        if exists || wrote {
            let b = std::fs::read(&path).map_err(|e| fail(e.to_string()))?;
            check!(b == valid, "{}", fail("the content of the file is not the expected one".into()));
        }
        check!(!exists || identity(&path) == was, "{}", fail("the file has been replaced, or its permissions have changed".into()));
        let n = std::fs::read_dir(&dir).map_err(|e| e.to_string())?.count();
        check!(n == (exists || wrote) as usize, "{}", fail(format!("{} files in the directory", n)));
        c.obs.add("permissions respected", 1);
        c.obs.distinct(hash_of(&(&s, &text)));
    }
    set(&dir, 0o755)?;
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

pub fn c25(c: &mut Ctx) -> Res {
    use std::io::ErrorKind;
    #[cfg(not(miri))]
    {
        if c.idx % 8 == 3 {
            return c25_permissions(c);
        }
    }
    let dir = c.path("box");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("sub")).map_err(|e| e.to_string())?;
    let s = gen::spec(&mut c.rng, &Knobs::tiny());
    let d = build(&s, &mut c.rng).map_err(refused)?;
    let vals = gen::vals(&mut c.rng, &s);
    let ops = full_history(&mut c.rng, &s, &vals);
    let valid = canonical(&s, 0, &vals);
    let n = c.rng.below(3000);
    let junk = c.rng.bytes(n);
    let file = |p: &str, b: &[u8]| std::fs::write(dir.join(p), b).map_err(|e| e.to_string());
    file("junk", &junk)?;
    file("valid.nc", &valid)?;
    file("empty", b"")?;
    file("sub/valid.nc", &valid)?;
    #[cfg(not(miri))]
    {
        std::fs::write(dir.join(os_name(NOT_UTF8)), &valid).map_err(|e| e.to_string())?;
        std::os::unix::fs::symlink("valid.nc", dir.join("link")).map_err(|e| e.to_string())?;
        std::os::unix::fs::symlink("nowhere", dir.join("dangling")).map_err(|e| e.to_string())?;
        std::os::unix::fs::symlink("loop", dir.join("loop")).map_err(|e| e.to_string())?;
        std::fs::create_dir(dir.join("sub/deep")).map_err(|e| e.to_string())?;
        std::os::unix::fs::symlink("sub/deep", dir.join("dirlink")).map_err(|e| e.to_string())?;
    }
    #[cfg(not(miri))]
    let new_mode = {
        std::fs::hard_link(dir.join("sub/valid.nc"), dir.join("hard")).map_err(|e| e.to_string())?;
        let mode = identity(&dir.join("junk")).map(|i| i.2);
        use std::os::unix::fs::PermissionsExt;
        let p = std::fs::Permissions::from_mode(*c.rng.pick(&[0o600, 0o644, 0o666, 0o640]));
        std::fs::set_permissions(dir.join(c.rng.pick(&["junk", "empty", "valid.nc"])), p).map_err(|e| e.to_string())?;
        mode
    };
    check!(descriptors(&dir).is_empty(), "a file is still open: {:?}", descriptors(&dir));
    let mut trace: Vec<String> = vec![];
    // readers opened along the way; they keep reading what they opened
    let mut open_readers: Vec<FileReader> = vec![];
    let mut model = snapshot(&dir);
    let names = ["junk", "valid.nc", "empty", "sub/valid.nc", "new.nc", "sub", "sub/none/x.nc", "junk/x.nc", "link", "dangling", "hard", "sub/new.nc", "missing", NOT_UTF8, NOT_UTF8_NEW, "new file, \u{e9}\u{e8} %41\n.nc", " .nc", "./valid.nc", "sub/../junk", "dirlink/../valid.nc", "dirlink/../new.nc", "dirlink/in.nc", "sub//.//valid.nc", LONG, NUL, EMPTY, "loop"];
    for _ in 0..4 + c.rng.below(8) {
        let name = *c.rng.pick(&names);
        if cfg!(miri) && (name == "link" || name == "dangling" || name == "hard" || name == NOT_UTF8 || name == "loop" || name.starts_with("dirlink")) {
            continue;
        }
        let path = match name {
            EMPTY => std::path::PathBuf::new(),
            LONG => dir.join("n".repeat(300)),
            _ => dir.join(os_name(name)),
        };
        if name == NOT_UTF8 || name == NOT_UTF8_NEW {
            c.obs.add("paths which are not UTF-8", 1);
        }
        let target = match name {
            "link" => "valid.nc",
            "dangling" => "nowhere",
            "hard" => "sub/valid.nc",
            "./valid.nc" => "valid.nc",
            "sub//.//valid.nc" | "dirlink/../valid.nc" => "sub/valid.nc",
            "dirlink/../new.nc" => "sub/new.nc",
            "dirlink/in.nc" => "sub/deep/in.nc",
            "sub/../junk" => "junk",
            x => x,
        };
        #[cfg(not(miri))]
        let before = identity(&dir.join(os_name(target)));
        #[cfg(not(miri))]
        let times = times_of(&dir.join(os_name(target)));
        let exists = model.contains_key(target);
        let is_dir = target == "sub";
        let strange = target == LONG || target == NUL || target == EMPTY || target == "loop";
        let unreachable = target == "sub/none/x.nc" || target == "junk/x.nc" || strange;
        let reach = if strange {
            // what the system itself says
            std::fs::File::open(&path).err().map_or(ErrorKind::Other, |e| e.kind())
        } else if target == "junk/x.nc" {
            ErrorKind::NotADirectory
        } else {
            ErrorKind::NotFound
        };
        let act = c.rng.below(3);
        let (text, expect): (String, Option<Vec<ErrorKind>>) = match act {
            0 => (
                format!("reader of {}", name),
                if unreachable {
                    Some(vec![reach])
                } else if !exists {
                    Some(vec![ErrorKind::NotFound])
                } else if is_dir {
                    Some(vec![ErrorKind::IsADirectory])
                } else {
                    None
                },
            ),
            1 => (
                format!("open {}", name),
                if unreachable {
                    Some(vec![reach])
                } else if is_dir {
                    Some(vec![ErrorKind::IsADirectory])
                } else {
                    None
                },
            ),
            _ => (
                format!("create_new {}", name),
                if target == "loop" {
                    Some(vec![ErrorKind::AlreadyExists])
                } else if unreachable {
                    Some(vec![reach])
                } else if exists || name == "dangling" || is_dir {
                    // the link itself exists
                    Some(vec![ErrorKind::AlreadyExists])
                } else {
                    None
                },
            ),
        };
        trace.push(text.clone());
        c.obs.note(|| text.clone());
        let fail = |m: String| format!("{}: {} (after {})", text, m, trace.join(", "));
        if act == 0 {
            let got = FileReader::open(&path);
            match (expect, got) {
                (Some(k), Err(ReadError::IOErrorKind(e))) => {
                    check!(k.contains(&e), "{}", fail(format!("{:?} instead of {:?}", e, k)));
                    c.obs.add(if unreachable { "unreachable paths" } else { "missing files" }, 1);
                }
                (Some(k), x) => return Err(fail(format!("{:?} instead of {:?}", x.err(), k))),
                (None, got) => {
                    let content = model.get(target).cloned().flatten().unwrap_or_default();
                    if content == valid {
                        let mut rd = got.map_err(|e| fail(format!("{:?}", e)))?;
                        check!(rd.file_path() == path.as_path(), "{}", fail(format!("file_path() is {:?}", rd.file_path())));
                        if c.rng.bool() {
                            check_reads(&mut rd, &s, &vals, &mut c.rng, &mut c.obs).map_err(|e| fail(e))?;
                        }
                        let _ = rd.read_var("no such variable");
                        c.obs.add("readers leave the file", 1);
                        if c.rng.bool() && name != "valid.nc" && name != "link" {
                            let (d2, _) = rd.close();
                            compare_defs(&observe(&d2, s.version)?, &s)?;
                        } else if name == "sub/valid.nc" && c.rng.bool() {
                            open_readers.push(rd);
                        }
                    } else {
                        check!(got.is_err() || content.starts_with(b"CDF"), "{}", fail("a file which is not NetCDF is accepted".into()));
                    }
                }
            }
        } else {
            let got = if act == 1 { FileWriter::open(&path) } else { FileWriter::create_new(&path) };
            match (expect, got) {
                (Some(k), Err(WriteError::IOErrorKind(e))) => {
                    check!(k.contains(&e), "{}", fail(format!("{:?} instead of {:?}", e, k)));
                    c.obs.add(if unreachable { "unreachable paths" } else if act == 2 { "create_new on an existing file" } else { "directories" }, 1);
                }
                (Some(k), x) => return Err(fail(format!("{:?} instead of {:?}", x.err(), k))),
                (None, Err(e)) => return Err(fail(format!("{:?}", e))),
                (None, Ok(mut w)) => {
                    c.obs.add(if act == 2 { "create_new of a new file" } else if exists { "open over an existing file" } else { "open of a new file" }, 1);
                    check!(w.file_path() == path.as_path(), "{}", fail(format!("file_path() is {:?}", w.file_path())));
                    // the previous content is gone at once
                    model.insert(target.to_string(), Some(vec![]));
                    mirror(&mut model);
                    check!(snapshot(&dir) == model, "{}", fail("the directory is not as expected right after the opening".into()));
                    check!(cfg!(miri) || descriptors(&dir).len() == 1 + open_readers.len(), "{}", fail(format!("{:?} are open", descriptors(&dir))));
                    let content = match c.rng.below(5) {
                        0 => {
                            drop(w);
                            Some(vec![])
                        }
                        1 => {
                            w.close().map_err(|e| fail(format!("close: {:?}", e)))?;
                            Some(vec![])
                        }
                        2 => {
                            // refused, then closed
                            let x = write_var(&mut w, "x", Ty::I8, &[1]);
                            check!(x == Err(WriteError::HeaderNotDefined), "{}", fail(format!("{:?}", x)));
                            w.close().map_err(|e| fail(format!("close: {:?}", e)))?;
                            Some(vec![])
                        }
                        3 => {
                            w.set_def(&d, version(s.version), 0).map_err(|e| fail(format!("set_def: {:?}", e)))?;
                            for op in &ops {
                                op.run(&s, &mut w).map_err(|e| fail(format!("{:?}", e)))?;
                            }
                            if c.rng.bool() {
                                w.close().map_err(|e| fail(format!("close: {:?}", e)))?;
                                Some(valid.clone())
                            } else {
                                drop(w);
                                None
                            }
                        }
                        _ => {
                            w.set_def(&d, version(s.version), 0).map_err(|e| fail(format!("set_def: {:?}", e)))?;
                            w.close().map_err(|e| fail(format!("close: {:?}", e)))?;
                            Some(canonical(&s, 0, &s.filled()))
                        }
                    };
                    match content {
                        Some(b) => {
                            model.insert(target.to_string(), Some(b));
                        }
                        None => {
                            // everything was written except maybe the end of the header's reserve
                            let b = read(&path)?;
                            check!(b.len() <= valid.len() && b == valid[..b.len()], "{}", fail("unexpected content after a drop".into()));
                            model.insert(target.to_string(), Some(b));
                        }
                    }
                }
            }
        }
        mirror(&mut model);
        #[cfg(not(miri))]
        {
            let after = identity(&dir.join(os_name(target)));
            match before {
                Some(_) => check!(after == before, "{}", fail(format!("the file has been replaced: inode, links, mode, owner {:?} instead of {:?}", after, before))),
                None => check!(after.is_none() || after.map(|i| i.2) == new_mode, "{}", fail(format!("the mode of the new file is {:o} instead of {:o}", after.map_or(0, |i| i.2), new_mode.unwrap_or(0)))),
            }
            if act == 0 {
                check!(times_of(&dir.join(os_name(target))) == times, "{}", fail("the times of the file have changed".into()));
            }
            c.obs.add("identities compared", 1);
        }
        let now = snapshot(&dir);
        if now != model {
            let changed: Vec<String> = now.keys().chain(model.keys()).filter(|k| now.get(*k) != model.get(*k)).map(|k| k.to_string()).collect();
            return Err(fail(format!("{:?} changed unexpectedly", changed)));
        }
        let fds = descriptors(&dir);
        check!(cfg!(miri) || fds.len() == open_readers.len(), "{}", fail(format!("{:?} are still open", fds)));
        c.obs.add("descriptors released", 1);
    }
    drop(open_readers);
    check!(descriptors(&dir).is_empty(), "a file is still open at the end: {:?}", descriptors(&dir));
    c.obs.distinct(hash_of(&(&s, &trace)));
    c.obs.sample(|| trace.join(", "));
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}
