//! Independent sessions at the same time; memory.

use super::files::{copy, read, rejected};
use super::reader::hostile;
use super::Prop;
use crate::check;
use crate::drive::*;
use crate::gen::{self, Knobs};
use crate::report::{hash_of, Ctx, Obs, Res};
use crate::rng::Rng;
use crate::spec::*;
use crate::sys;
use netcdf3::{DataSet, FileReader, FileWriter};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};

pub const C23: Prop = Prop {
    id: "C23",
    quick: 20000,
    thorough: 500000,
    level: "exploration",
    rule: "2 to 8 sessions (write a file with a random history, read it back, copy it, read hostile files, read one shared file) in as many threads started together with random yields, or with their calls interleaved at random in one thread (writers sharing one data set, several readers of one file, files renamed, removed or replaced under their old name while they are open, or being opened), or one after the other in one thread on definitions which look alike; each result is compared with the one the model gives for the session alone; distinct by set of sessions and interleaving",
    assumptions: &["the schedules are the ones the system produces under random yields and pauses"],
    required: &["threads", "calls in threads", "calls interleaved", "overlapping calls", "files renamed while open", "sessions in succession", "files compared", "sessions with relative paths", "files replaced while being opened", "files replaced while open"],
    run: c23,
};

/// Library calls in progress, to show that they overlap.
static BUSY: AtomicU64 = AtomicU64::new(0);

struct Call<'a>(&'a mut Obs);

fn call<T>(r: &mut Rng, obs: &mut Obs, f: impl FnOnce() -> T) -> T {
    match r.below(12) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..r.below(2000) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
    let c = Call(obs);
    if BUSY.fetch_add(1, Ordering::SeqCst) > 0 {
        c.0.add("overlapping calls", 1);
    }
    c.0.add("calls in threads", 1);
    let x = f();
    BUSY.fetch_sub(1, Ordering::SeqCst);
    x
}

/// A session in a thread.
fn session(dir: &Path, shared: &(Spec, Vals, PathBuf), mut r: Rng, obs: &mut Obs) -> Res {
    let own = dir.join("own.nc");
    let other = dir.join("copy.nc");
    for _ in 0..1 + r.below(2) {
        match r.below(5) {
            0..=2 => {
                let s = gen::spec(&mut r, &Knobs::small());
                let d = call(&mut r.clone(), obs, || build(&s, &mut r)).map_err(|e| format!("a valid definition is refused: {:?}", e))?;
                let min = gen::min_size(&mut r, &s);
                let ops = random_history(&mut r, &s, 10);
                let mut vals = s.filled();
                let mut w = call(&mut r, obs, || FileWriter::open(&own)).map_err(|e| format!("FileWriter::open: {:?}", e))?;
                call(&mut r, obs, || w.set_def(&d, version(s.version), min)).map_err(|e| format!("set_def: {:?}", e))?;
                for op in &ops {
                    call(&mut r, obs, || op.run(&s, &mut w)).map_err(|e| format!("write {}: {:?}", op.brief(), e))?;
                    op.apply(&s, &mut vals);
                    if r.one_in(5) {
                        let mut q = r.clone();
                        call(&mut r, obs, || rejected(&mut w, &s, &mut q))?;
                    }
                }
                call(&mut r, obs, || w.close()).map_err(|e| format!("close: {:?}", e))?;
                if let Some(m) = diff(&read(&own)?, &canonical(&s, min as u64, &vals)) {
                    return Err(format!("the file differs: {} ({})", m, s.brief()));
                }
                obs.add("files compared", 1);
                let mut q = r.clone();
                let mut mine = Obs::default();
                call(&mut r, obs, || check_file(&own, &s, &vals, &mut q, &mut mine))?;
                call(&mut r, obs, || copy(&own, &other, min, &mut q))?;
                if let Some(m) = diff(&read(&other)?, &read(&own)?) {
                    return Err(format!("the copy differs: {} ({})", m, s.brief()));
                }
            }
            3 => {
                let (s, vals, path) = shared;
                let mut rd = call(&mut r, obs, || FileReader::open(path)).map_err(|e| format!("open of the shared file: {:?}", e))?;
                check_def(&rd, s)?;
                for _ in 0..3 {
                    let mut q = r.clone();
                    let mut mine = Obs::default();
                    call(&mut r, obs, || check_reads(&mut rd, s, vals, &mut q, &mut mine))?;
                }
            }
            _ => {
                let (b, _) = hostile(&mut r, &Knobs::tiny());
                std::fs::write(&own, &b).map_err(|e| e.to_string())?;
                let d = decode(&b);
                let mut mine = Obs::default();
                let got = call(&mut r, obs, || FileReader::open(&own));
                super::reader::judge_open(&b, &d, &got, &mut mine)?;
            }
        }
    }
    Ok(())
}

fn c23(c: &mut Ctx) -> Res {
    // the shared file
    let s = gen::spec(&mut c.rng, &Knobs::small());
    let vals = gen::vals(&mut c.rng, &s);
    let l = gen::foreign(&mut c.rng, &s);
    let path = c.path("shared.nc");
    std::fs::write(&path, encode(&s, &l, &vals).0).map_err(|e| e.to_string())?;
    let t = s.brief();
    c.obs.distinct(hash_of(&(&s, c.idx)));
    if c.idx % 7 == 5 {
        c.obs.sample(|| format!("one after the other; first {}", t));
        return successive(c, &s);
    }
    if c.idx % 2 == 0 {
        c.obs.sample(|| format!("threads; shared file {}", t));
        return threads(c, Arc::new((s, vals, path)));
    }
    replaced_while_opening(c)?;
    c.obs.sample(|| format!("interleaved; shared file {}", t));
    interleaved(c, &s, &vals, &path)
}

/// Another process gives the name of the file to another file, or to nothing, while it is opened:
/// the reader shows one of the files.
fn replaced_while_opening(c: &mut Ctx) -> Res {
    if !sys::available() {
        return Ok(());
    }
    let (p, q) = (c.path("now.nc"), c.path("next.nc"));
    let mut files: Vec<(Spec, Vals)> = vec![];
    for path in [&p, &q] {
        let mut s = gen::spec(&mut c.rng, &Knobs::tiny());
        if c.rng.one_in(12) {
            gen::enlarge(&mut c.rng, &mut s, 60_000);
        }
        if c.rng.bool() {
            if let Some((first, _)) = files.first() {
                s = first.clone();
                s.numrecs = c.rng.below(5);
            }
        }
        let vals = gen::vals(&mut c.rng, &s);
        let l = gen::foreign(&mut c.rng, &s);
        std::fs::write(path, encode(&s, &l, &vals).0).map_err(|e| e.to_string())?;
        files.push((s, vals));
    }
    let what = c.rng.below(3);
    let text = format!("{} by {}", files[0].0.brief(), ["another file", "nothing (removed)", "nothing (renamed)"][what]);
    let to = c.path("old.nc");
    let from = (p.clone(), q.clone());
    sys::reset(vec![], false);
    let change = move || {
        let (p, q) = from;
        let _ = match what {
            0 => std::fs::rename(q, p),
            1 => std::fs::remove_file(p),
            _ => std::fs::rename(p, to),
        };
    };
    if c.rng.one_in(3) {
        // later
        let mut rd = FileReader::open(&p).map_err(|e| format!("{:?} ({})", e, text))?;
        change();
        let mut mine = Obs::default();
        check_def(&rd, &files[0].0)?;
        check_reads(&mut rd, &files[0].0, &files[0].1, &mut c.rng, &mut mine).map_err(|m| format!("a file replaced while it is open is misread: {} ({})", m, text))?;
        c.obs.add("files replaced while open", 1);
        return Ok(());
    }
    sys::state().opened = Some(Box::new(change));
    let got = sys::with(|| FileReader::open(&p));
    check!(sys::state().opened.is_none(), "no opening was seen");
    sys::reset(vec![], false);
    let mut rd = got.map_err(|e| format!("a file replaced while it is opened is refused: {:?} ({})", e, text))?;
    let mut mine = Obs::default();
    let mut see = |rd: &mut FileReader, r: &mut Rng, k: usize| -> Res {
        check_def(rd, &files[k].0)?;
        check_reads(rd, &files[k].0, &files[k].1, r, &mut mine)
    };
    if let Err(m) = see(&mut rd, &mut c.rng, 0) {
        if what != 0 || see(&mut rd, &mut c.rng, 1).is_err() {
            return Err(format!("a file replaced while it is opened is misread: {} ({})", m, text));
        }
    }
    c.obs.add("files replaced while being opened", 1);
    Ok(())
}

fn threads(c: &mut Ctx, shared: Arc<(Spec, Vals, PathBuf)>) -> Res {
    let n = 2 + c.rng.below(if cfg!(miri) { 2 } else { 7 });
    if !cfg!(miri) {
        std::env::set_current_dir(&c.dir).map_err(|e| e.to_string())?;
    }
    let start = Arc::new(Barrier::new(n));
    let mut handles = vec![];
    for i in 0..n {
        let dir = c.path(&format!("t{}", i));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        // some sessions name their files from the current directory
        let dir = if !cfg!(miri) && c.rng.bool() {
            c.obs.add("sessions with relative paths", 1);
            PathBuf::from(format!("t{}", i))
        } else {
            dir
        };
        let r = Rng::new(c.rng.next());
        let (start, shared) = (start.clone(), shared.clone());
        handles.push(std::thread::spawn(move || {
            start.wait();
            let mut obs = Obs::default();
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| session(&dir, &shared, r, &mut obs)));
            let x: Result<Res, String> = match x {
                Ok(x) => Ok(x),
                Err(_) => {
                    let (at, what) = crate::take_panic().unwrap_or_default();
                    let m = format!("panic at {}: {}", at, what);
                    if at.starts_with("src/") { Err(m) } else { Ok(Err(m)) }
                }
            };
            (x, obs.counters)
        }));
    }
    let mut bad = None;
    for (i, h) in handles.into_iter().enumerate() {
        let (x, counters) = h.join().expect("session thread");
        for (k, v) in counters {
            c.obs.add(&k, v);
        }
        c.obs.add("threads", 1);
        match x {
            Ok(Ok(())) => {}
            Ok(Err(m)) => bad = Some(format!("session {} of {}: {}", i, n, m)),
            Err(m) => panic!("in a session: {}", m),
        }
    }
    bad.map_or(Ok(()), Err)
}

/// A definition which looks like another one: same numbers of elements, often the same names.
fn variant(r: &mut Rng, s: &Spec) -> Spec {
    let mut s = s.clone();
    for _ in 0..1 + r.below(3) {
        match r.below(6) {
            0 if s.unlim().is_some() => s.numrecs = r.below(5),
            1 => s.version = 3 - s.version,
            2 if !s.dims.is_empty() => {
                let i = r.below(s.dims.len());
                if s.dims[i].size.is_some() {
                    s.dims[i].size = Some(1 + r.below(4));
                }
            }
            3 if !s.vars.is_empty() => {
                let (i, j) = (r.below(s.vars.len()), r.below(s.vars.len()));
                let d = s.vars[i].dims.clone();
                s.vars[i].dims = std::mem::replace(&mut s.vars[j].dims, d);
            }
            4 if !s.vars.is_empty() => {
                let i = r.below(s.vars.len());
                for a in s.vars[i].attrs.iter_mut() {
                    a.data = gen::values(r, a.ty, a.data.len() / a.ty.size());
                }
            }
            _ => {
                for v in s.vars.iter_mut() {
                    if r.bool() {
                        v.ty = *r.pick(&TYS);
                    }
                }
            }
        }
    }
    s
}

/// Sessions one after the other, in one thread, on definitions which look alike: what a session
/// leaves behind (memory, addresses, files, positions) is found by the next one.
fn successive(c: &mut Ctx, first: &Spec) -> Res {
    let mut k = Knobs::small();
    let base = if c.rng.bool() {
        first.clone()
    } else {
        k.vars = 16;
        k.elems = 200;
        gen::spec(&mut c.rng, &k)
    };
    let mut mine = Obs::default();
    let mut kept: Vec<(DataSet, Spec)> = vec![];
    let paths = [c.path("s0.nc"), c.path("s1.nc")];
    let mut last: Option<(Spec, Vals, PathBuf)> = None;
    let mut slot = DataSet::new();
    for i in 0..if cfg!(miri) { 3 } else { 8 } {
        let s = if i == 0 || c.rng.one_in(4) { base.clone() } else { variant(&mut c.rng, &base) };
        let d = build(&s, &mut c.rng).map_err(|e| format!("a valid definition is refused: {:?}", e))?;
        // the data sets follow each other at one address, or are kept and die in any order
        let at = |m: String| format!("session {} of a thread: {} ({})", i, m, s.brief());
        slot = d;
        super::defs::check_spec_sizes(&slot, &s, &mut mine).map_err(at)?;
        compare_defs(&observe(&slot, s.version)?, &s).map_err(at)?;
        if c.rng.bool() {
            let path = c.rng.pick(&paths).clone();
            let ops = random_history(&mut c.rng, &s, 8);
            let min = gen::min_size(&mut c.rng, &s);
            write_file(&path, &s, &slot, min, &ops).map_err(at)?;
            let mut vals = s.filled();
            for op in &ops {
                op.apply(&s, &mut vals);
            }
            if let Some(m) = diff(&read(&path)?, &canonical(&s, min as u64, &vals)) {
                return Err(at(format!("the file differs: {}", m)));
            }
            check_file(&path, &s, &vals, &mut c.rng, &mut mine).map_err(at)?;
            last = Some((s.clone(), vals, path));
            c.obs.add("files compared", 1);
        } else if let Some((s, vals, path)) = &last {
            check_file(path, s, vals, &mut c.rng, &mut mine).map_err(at)?;
        }
        if c.rng.one_in(3) {
            kept.push((std::mem::replace(&mut slot, DataSet::new()), s.clone()));
        }
        if !kept.is_empty() && c.rng.bool() {
            let j = c.rng.below(kept.len());
            let (d, s) = &kept[j];
            super::defs::check_spec_sizes(d, s, &mut mine).map_err(at)?;
            compare_defs(&observe(d, s.version)?, s).map_err(at)?;
            if c.rng.bool() {
                kept.remove(j);
            }
        }
        c.obs.add("sessions in succession", 1);
    }
    drop(slot);
    Ok(())
}

struct Writing<'a> {
    w: Option<FileWriter<'a>>,
    defined: bool,
    spec: &'a Spec,
    data: &'a DataSet,
    min: usize,
    ops: Vec<WOp>,
    next: usize,
    path: PathBuf,
}

fn interleaved(c: &mut Ctx, shared: &Spec, shared_vals: &Vals, path: &Path) -> Res {
    let n = 2 + c.rng.below(4);
    let mut specs: Vec<Spec> = vec![];
    for _ in 0..n {
        // often the same names in all of them
        if !specs.is_empty() && c.rng.bool() {
            let mut s = specs[0].clone();
            s.version = 1 + c.rng.below(2) as u8;
            if c.rng.bool() && s.unlim().is_some() {
                s.numrecs = c.rng.below(5);
            }
            specs.push(s);
        } else {
            specs.push(gen::spec(&mut c.rng, &Knobs::small()));
        }
    }
    let mut sets: Vec<DataSet> = vec![];
    for s in &specs {
        sets.push(build(s, &mut c.rng).map_err(|e| format!("a valid definition is refused: {:?}", e))?);
    }
    let mut ws: Vec<Writing> = vec![];
    for i in 0..n {
        // two writers for some of the data sets
        for k in 0..1 + c.rng.below(2) {
            let path = c.path(&format!("i{}_{}.nc", i, k));
            let ops = random_history(&mut c.rng, &specs[i], 10);
            let min = gen::min_size(&mut c.rng, &specs[i]);
            ws.push(Writing { w: None, defined: false, spec: &specs[i], data: &sets[i], min, ops, next: 0, path });
        }
    }
    let mut rds: Vec<FileReader> = vec![];
    let mut mine = Obs::default();
    let mut trace: Vec<u8> = vec![];
    let mut open: Vec<usize> = (0..ws.len()).collect();
    let mut path = path.to_path_buf();
    let mut decoys: Vec<(PathBuf, Vec<u8>)> = vec![];
    while !open.is_empty() {
        if c.rng.one_in(25) {
            // an open file gets another name, and its old name is given to nothing, or to another file
            let i = open[c.rng.below(open.len())];
            let old = if c.rng.bool() && ws[i].w.is_some() { &mut ws[i].path } else { &mut path };
            let new = c.path(&format!("moved{}.nc", decoys.len()));
            std::fs::rename(&*old, &new).map_err(|e| e.to_string())?;
            let b = match c.rng.below(3) {
                0 => None,
                1 => Some(b"another file".to_vec()),
                _ => {
                    // like the one which is read
                    let other = gen::vals(&mut c.rng, shared);
                    Some(canonical(shared, 0, &other))
                }
            };
            let gone = std::mem::replace(old, new);
            if let Some(b) = &b {
                std::fs::write(&gone, b).map_err(|e| e.to_string())?;
            }
            decoys.push((gone, b.unwrap_or_default()));
            c.obs.add("files renamed while open", 1);
        }
        let k = c.rng.below(open.len() + 2);
        trace.push(k as u8);
        c.obs.add("calls interleaved", 1);
        if k < open.len() {
            let i = open[k];
            let x = &mut ws[i];
            match x.w.as_mut() {
                None => x.w = Some(FileWriter::open(&x.path).map_err(|e| format!("FileWriter::open: {:?}", e))?),
                Some(w) if !x.defined => {
                    w.set_def(x.data, version(x.spec.version), x.min).map_err(|e| format!("set_def: {:?}", e))?;
                    x.defined = true;
                }
                Some(w) if x.next < x.ops.len() => {
                    x.ops[x.next].run(x.spec, w).map_err(|e| format!("write {} in an interleaved session: {:?}", x.ops[x.next].brief(), e))?;
                    x.next += 1;
                }
                Some(_) => {
                    x.w.take().unwrap().close().map_err(|e| format!("close of an interleaved session: {:?}", e))?;
                    open.remove(k);
                }
            }
        } else if rds.len() < 3 && c.rng.bool() {
            rds.push(FileReader::open(&path).map_err(|e| format!("open of the shared file: {:?}", e))?);
        } else if !rds.is_empty() {
            let j = c.rng.below(rds.len());
            if c.rng.one_in(6) {
                let (d, v) = rds.remove(j).close();
                compare_defs(&observe(&d, version_num(&v))?, shared)?;
            } else if !shared.vars.is_empty() {
                // one call only, so that the calls on the readers alternate
                let v = c.rng.below(shared.vars.len());
                let x = &shared.vars[v];
                let chunks = shared.nchunks(v);
                let (got, want, what) = if chunks > 0 && c.rng.bool() {
                    let i = c.rng.below(chunks);
                    (read_record_typed(&mut rds[j], &x.name, i, x.ty), shared_vals[v][i].clone(), format!("record {} of {:?}", i, x.name))
                } else {
                    (read_var_typed(&mut rds[j], &x.name, x.ty), shared_vals[v].concat(), format!("{:?}", x.name))
                };
                let got = got.map_err(|e| format!("{} with reader {} of {}: {:?}", what, j, rds.len(), e))?;
                if let Some(m) = diff(&got, &want) {
                    return Err(format!("{} with reader {} of {}: {}", what, j, rds.len(), m));
                }
            }
        }
    }
    for (p, b) in &decoys {
        check!(std::fs::read(p).unwrap_or_default() == *b, "a session changes the file which has now the name its file had");
    }
    for x in &ws {
        let mut vals = x.spec.filled();
        for op in &x.ops {
            op.apply(x.spec, &mut vals);
        }
        if let Some(m) = diff(&read(&x.path)?, &canonical(x.spec, x.min as u64, &vals)) {
            return Err(format!("the file of an interleaved session differs: {} ({}; {} sessions)", m, x.spec.brief(), ws.len()));
        }
        check_file(&x.path, x.spec, &vals, &mut c.rng, &mut mine)?;
        c.obs.add("files compared", 1);
    }
    c.obs.distinct(hash_of(&trace));
    Ok(())
}

// ------------------------------------------------------------------------------------------------

pub const C24: Prop = Prop {
    id: "C24",
    quick: 100000,
    thorough: 2500000,
    level: "exploration",
    rule: "sessions on valid and hostile inputs, run twice under a counting allocator (the second run must give back all the memory it took); distinct by session",
    assumptions: &["memory kept by a first run and reused by the next is not a leak"],
    required: &["sessions", "allocations balanced"],
    run: c24,
};

/// A bit of everything, with the library only (the harness releases what it takes).
fn anything(dir: &Path, mut r: Rng) -> Res {
    let mut obs = Obs::default();
    let path = dir.join("m.nc");
    let other = dir.join("n.nc");
    match r.below(4) {
        0 => {
            let (b, _) = hostile(&mut r, &Knobs::tiny());
            std::fs::write(&path, &b).map_err(|e| e.to_string())?;
            let _ = FileReader::open(&path).map(|mut rd| {
                let names = rd.data_set().get_var_names();
                for n in &names {
                    let small = rd.data_set().var_len(n).map_or(false, |x| x < if cfg!(miri) { 200 } else { 1 << 20 });
                    if small {
                        let _ = rd.read_var(n);
                    }
                    let _ = rd.read_record(n, 0);
                    let _ = rd.read_record(n, usize::MAX);
                }
            });
            Ok(())
        }
        1 => {
            let s = gen::spec(&mut r, &Knobs::small());
            let d = build_detour(&s, &mut r).map_err(|e| format!("{:?}", e))?;
            let mut w = FileWriter::open(&path).map_err(|e| format!("{:?}", e))?;
            w.set_def(&d, version(s.version), 0).map_err(|e| format!("{:?}", e))?;
            for op in random_history(&mut r, &s, 6) {
                op.run(&s, &mut w).map_err(|e| format!("{:?}", e))?;
                rejected(&mut w, &s, &mut r)?;
            }
            if r.one_in(4) {
                drop(w);
                return Ok(());
            }
            w.close().map_err(|e| format!("{:?}", e))?;
            copy(&path, &other, 0, &mut r)
        }
        2 => {
            let s = gen::spec(&mut r, &Knobs::small());
            let vals = gen::vals(&mut r, &s);
            let l = gen::foreign(&mut r, &s);
            std::fs::write(&path, encode(&s, &l, &vals).0).map_err(|e| e.to_string())?;
            check_file(&path, &s, &vals, &mut r, &mut obs)
        }
        _ => {
            let mut m = crate::model::Model::default();
            let mut d = DataSet::new();
            let names: Vec<String> = vec!["a".into(), "b".into(), "c".into()];
            for _ in 0..if cfg!(miri) { 8 } else { 30 } {
                let e = super::defs::any_edit(&mut r, &m, &names);
                crate::model::step(&mut m, &mut d, &e, &mut r, &mut obs)?;
            }
            Ok(())
        }
    }
}

fn c24(c: &mut Ctx) -> Res {
    let dir = c.dir.clone();
    let r = Rng::new(c.rng.next());
    c.obs.add("sessions", 1);
    anything(&dir, r.clone())?;
    if cfg!(feature = "monalloc") {
        let before = crate::alloc::live();
        let x = anything(&dir, r.clone());
        let ok = x.is_ok();
        drop(x);
        let after = crate::alloc::live();
        check!(ok, "the second run of the session fails");
        check!(after <= before, "{} bytes are not given back by a session", after - before);
    }
    c.obs.add("allocations balanced", 1);
    c.obs.distinct(hash_of(&format!("{:?}", r.clone().next())));
    c.obs.sample(|| format!("session {:?}", r.clone().next()));
    Ok(())
}
