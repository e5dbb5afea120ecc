//! What a call costs: bytes transferred and memory, whatever else the file holds.

use super::Prop;
use crate::check;
use crate::drive::*;
use crate::gen;
use crate::report::{hash_of, Ctx, Obs, Res};
use crate::rng::Rng;
use crate::spec::*;
use crate::{alloc, sys};
use netcdf3::{FileReader, FileWriter};
use std::os::unix::fs::FileExt;
use std::path::Path;

pub const C26: Prop = Prop {
    id: "C26",
    quick: 5000,
    thorough: 60000,
    level: "exploration",
    rule: "files of 1 MiB to 16 GiB (sparse) where small and large variables, fixed and with records, lie together; the monitor counts the bytes every call transfers and the peak of memory it takes, and compares them with what the call addresses; during sessions of 40000 calls the memory held grows by at most 128 KiB, and 512 KiB while 16 MiB or more are crossed slab by slab; distinct by definition and calls",
    assumptions: &["the scratch file system has sparse files", "a call may transfer 4 times the bytes it addresses, and 64 KiB, and as much again for each record it crosses; it may take 8 times the memory of these bytes, and 1 MiB"],
    required: &["files opened", "small variables read in large files", "records read in large files", "calls refused at no cost", "slabs written", "files closed", "complete files closed", "calls of long sessions", "bytes crossed slab by slab"],
    run: c26,
};

const SLACK: u64 = 64 << 10;
const MEM: u64 = 1 << 20;

struct Cost {
    read: u64,
    written: u64,
    peak: u64,
}

/// Runs one call of the library under the counters.
fn measure<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    sys::reset(vec![], false);
    let start = alloc::begin(4 << 30);
    let r = sys::with(f);
    let peak = alloc::end(start) as u64;
    let b = sys::state().bytes;
    (r, Cost { read: b[sys::Class::Read as usize], written: b[sys::Class::Write as usize], peak })
}

/// `addressed` bytes in `jumps` places; `own` is the memory the caller gave or gets.
fn judge(what: &str, c: &Cost, read: u64, written: u64, jumps: u64, memory: u64, text: &str, obs: &mut Obs) -> Res {
    let allowed = |n: u64| if n == 0 { SLACK } else { n.saturating_mul(4).saturating_add(SLACK).saturating_add(jumps.saturating_mul(16 << 10)) };
    check!(c.read <= allowed(read), "{} reads {} bytes of the file to address {} bytes ({})", what, c.read, read, text);
    check!(c.written <= allowed(written), "{} writes {} bytes in the file to address {} bytes ({})", what, c.written, written, text);
    let m = memory.saturating_mul(8).saturating_add(MEM);
    check!(c.peak <= m, "{} takes {} bytes of memory for {} bytes ({})", what, c.peak, memory, text);
    obs.add("calls measured", 1);
    obs.max("bytes transferred by a call", c.read + c.written);
    obs.max("memory of a call", c.peak);
    Ok(())
}

fn dim(s: &mut Spec, n: usize) -> usize {
    s.dims.push(Dim { name: format!("d{}", s.dims.len()), size: Some(n) });
    s.dims.len() - 1
}

/// Small, medium and large variables; `huge`: also some no call could handle as a whole.
fn definition(r: &mut Rng, huge: bool) -> Spec {
    let mut s = Spec::empty(2);
    if r.pct(70) {
        s.dims.push(Dim { name: "t".into(), size: None });
        let most = if r.one_in(4) { 200 } else { 6 };
        s.numrecs = 1 + r.below(most);
    }
    if r.one_in(4) {
        s.gattrs = gen::attrs(r, 3, 2000);
    }
    let n = 2 + r.below(5);
    for i in 0..n {
        let ty = *r.pick(&TYS);
        let rec = !s.dims.is_empty() && s.dims[0].size.is_none() && r.pct(60);
        let most = if huge { 31 } else { 18 };
        let bytes = match r.below(4) {
            0 => 1 + r.below(64),
            1 => 1 + r.below(20_000),
            2 => (100_000 + r.below(200_000)).min(1 << most),
            _ => (1usize << (17 + r.below(most - 16))) - r.below(9),
        };
        let len = (bytes / ty.size()).max(1).min(i32::MAX as usize - 8);
        let mut dims = vec![];
        if rec {
            dims.push(0);
        }
        if len > 1 || r.bool() {
            dims.push(dim(&mut s, len));
        }
        let attrs = if r.one_in(4) { gen::attrs(r, 2, 20) } else { vec![] };
        s.vars.push(Var { name: format!("v{}", i), dims, ty, attrs });
    }
    s
}

fn c26(c: &mut Ctx) -> Res {
    if !sys::available() {
        return Ok(());
    }
    let path = c.path("cost.nc");
    if c.idx % 125 == 3 {
        return steady(c, &path);
    }
    if c.idx % 125 == 64 {
        let r = march(c, &path);
        std::fs::remove_file(&path).ok();
        return r;
    }
    let r = if c.rng.pct(70) { reading(c, &path) } else { writing(c, &path) };
    sys::reset(vec![], false);
    std::fs::remove_file(&path).ok();
    r
}

fn reading(c: &mut Ctx, path: &Path) -> Res {
    let s = definition(&mut c.rng, true);
    let min = if c.rng.one_in(3) { 1u64 << c.rng.below(24) } else { 0 };
    let l = Layout::canonical(&s, min);
    let (header, _) = encode_header(&s, &l);
    let mut end = l.data_start;
    for v in 0..s.vars.len() {
        if let Some(last) = s.nchunks(v).checked_sub(1) {
            let (o, n, p) = s.range(&l.begins, v, last);
            end = end.max(o + n + p);
        }
    }
    let text = format!("{} of {} bytes", s.brief(), end);
    let f = std::fs::File::create(path).map_err(|e| format!("harness: {}", e))?;
    f.write_all_at(&header, 0).and_then(|_| f.set_len(end)).map_err(|e| format!("harness: {}", e))?;
    // some values, the rest is a hole
    let mut put: Vec<(usize, usize, Vec<u8>)> = vec![];
    for v in 0..s.vars.len() {
        if s.chunk_bytes(v) <= 1 << 20 {
            for _ in 0..2 {
                let i = c.rng.below(s.nchunks(v));
                if put.iter().all(|(x, y, _)| (*x, *y) != (v, i)) {
                    let b = gen::values(&mut c.rng, s.vars[v].ty, s.chunk_len(v) as usize);
                    f.write_all_at(&b, s.range(&l.begins, v, i).0).map_err(|e| format!("harness: {}", e))?;
                    put.push((v, i, b));
                }
            }
        }
    }
    drop(f);
    c.obs.max("file size", end);
    c.obs.sample(|| text.clone());
    let (rd, cost) = measure(|| FileReader::open(path));
    let mut rd = rd.map_err(|e| format!("open: {:?} ({})", e, text))?;
    judge("open", &cost, header.len() as u64, 0, 0, header.len() as u64 * 16, &text, &mut c.obs)?;
    c.obs.add("files opened", 1);
    check_def(&rd, &s)?;
    let large = end > 4 << 20;
    let mut trace: Vec<(usize, usize, usize)> = vec![];
    for _ in 0..6 + c.rng.below(8) {
        let v = c.rng.below(s.vars.len());
        let x = &s.vars[v];
        let n = s.nchunks(v);
        let i = if c.rng.one_in(6) { n + c.rng.below(3) } else { c.rng.below(n) };
        let kind = c.rng.below(6);
        trace.push((v, i, kind));
        let chunk = s.chunk_bytes(v);
        match kind {
            0 => {
                // a call which is refused
                let t = *c.rng.pick(&TYS);
                let (r, cost) = match c.rng.below(3) {
                    _ if t != x.ty => measure(|| read_var_typed(&mut rd, &x.name, t)),
                    0 => measure(|| read_record_typed(&mut rd, "?", i, t)),
                    _ => measure(|| read_record_typed(&mut rd, &x.name, n + i, t)),
                };
                check!(r.is_err(), "an invalid read is accepted ({})", text);
                judge("a refused read", &cost, 0, 0, 0, 0, &text, &mut c.obs)?;
                c.obs.add("calls refused at no cost", 1);
            }
            1 | 2 if n as u64 * chunk <= 8 << 20 => {
                let (r, cost) = if kind == 1 { measure(|| rd.read_var(&x.name).map(|d| dv(&d).1)) } else { measure(|| read_var_typed(&mut rd, &x.name, x.ty)) };
                let got = r.map_err(|e| format!("read_var({:?}): {:?} ({})", x.name, e, text))?;
                let total = n as u64 * chunk;
                judge(&format!("reading {:?}", x.name), &cost, total, 0, n as u64, total, &text, &mut c.obs)?;
                let mut want = vec![0; total as usize];
                for (y, k, b) in put.iter().filter(|p| p.0 == v) {
                    let _ = y;
                    want[k * chunk as usize..][..chunk as usize].copy_from_slice(b);
                }
                if let Some(m) = diff(&got, &want) {
                    return Err(format!("{:?} is read differently: {} ({})", x.name, m, text));
                }
                if large {
                    c.obs.add("small variables read in large files", 1);
                }
            }
            _ if i < n && chunk <= 8 << 20 => {
                let (r, cost) = if kind < 4 { measure(|| rd.read_record(&x.name, i).map(|d| dv(&d).1)) } else { measure(|| read_record_typed(&mut rd, &x.name, i, x.ty)) };
                let got = r.map_err(|e| format!("read_record({:?}, {}): {:?} ({})", x.name, i, e, text))?;
                judge(&format!("reading record {} of {:?}", i, x.name), &cost, chunk, 0, 1, chunk, &text, &mut c.obs)?;
                let zero = vec![0; chunk as usize];
                let want = put.iter().find(|p| (p.0, p.1) == (v, i)).map_or(&zero, |p| &p.2);
                if let Some(m) = diff(&got, want) {
                    return Err(format!("record {} of {:?} is read differently: {} ({})", i, x.name, m, text));
                }
                if large {
                    c.obs.add("records read in large files", 1);
                }
            }
            _ => {}
        }
    }
    c.obs.distinct(hash_of(&(&s, &trace)));
    let (_, cost) = measure(|| rd.close());
    judge("close", &cost, 0, 0, 0, 0, &text, &mut c.obs)
}

fn writing(c: &mut Ctx, path: &Path) -> Res {
    let mut s = definition(&mut c.rng, false);
    s.version = 1 + c.rng.below(2) as u8;
    let min = if c.rng.one_in(3) { 1u64 << c.rng.below(20) } else { 0 };
    let total: u64 = (0..s.vars.len()).map(|v| s.chunk_bytes(v) * s.nchunks(v) as u64).sum();
    while s.numrecs > 2 && (0..s.vars.len()).map(|v| s.chunk_bytes(v) * s.nchunks(v) as u64).sum::<u64>() > 2 << 20 {
        s.numrecs /= 2;
    }
    let begins = s.begins(min);
    let text = format!("{} of {} bytes", s.brief(), total);
    c.obs.sample(|| text.clone());
    let d = build(&s, &mut c.rng).map_err(|e| format!("a valid definition is refused: {:?}", e))?;
    let (w, cost) = measure(|| FileWriter::open(path));
    let mut w = w.map_err(|e| format!("open: {:?}", e))?;
    judge("FileWriter::open", &cost, 0, 0, 0, 0, &text, &mut c.obs)?;
    let (r, cost) = measure(|| w.set_def(&d, version(s.version), min as usize));
    r.map_err(|e| format!("set_def: {:?} ({})", e, text))?;
    let h = s.header_len().max(min);
    judge("set_def", &cost, 0, h, 0, h, &text, &mut c.obs)?;
    let complete = c.rng.one_in(3);
    let mut done = vec![vec![false; s.numrecs.max(1)]; s.vars.len()];
    let mut ops: Vec<(usize, usize, bool)> = vec![];
    if complete {
        for v in 0..s.vars.len() {
            if c.rng.bool() {
                ops.push((v, 0, true));
            } else {
                ops.extend((0..s.nchunks(v)).map(|i| (v, i, false)));
            }
        }
        c.rng.shuffle(&mut ops);
    } else {
        for _ in 0..c.rng.below(8) {
            let v = c.rng.below(s.vars.len());
            ops.push((v, c.rng.below(s.nchunks(v)), c.rng.bool()));
        }
    }
    let mut last: Vec<(usize, usize, Vec<u8>)> = vec![];
    for (v, i, whole) in &ops {
        let (v, i) = (*v, *i);
        let x = &s.vars[v];
        let n = if *whole { s.nchunks(v) } else { 1 };
        let data = gen::values(&mut c.rng, x.ty, n * s.chunk_len(v) as usize);
        let (r, cost) = if *whole { measure(|| write_var(&mut w, &x.name, x.ty, &data)) } else { measure(|| write_record(&mut w, &x.name, i, x.ty, &data)) };
        r.map_err(|e| format!("write {:?}: {:?} ({})", x.name, e, text))?;
        // (write_var converts the bytes of the harness before it calls the library)
        judge(&format!("writing {} of {:?}", if *whole { "all".to_string() } else { format!("record {}", i) }, x.name), &cost, 0, data.len() as u64, n as u64, data.len() as u64 + 128 * s.numrecs as u64, &text, &mut c.obs)?;
        c.obs.add("slabs written", 1);
        for k in if *whole { 0..n } else { i..i + 1 } {
            done[v][k] = true;
        }
        if !*whole {
            last.retain(|p| (p.0, p.1) != (v, i));
            last.push((v, i, data));
        } else {
            last.retain(|p| p.0 != v);
        }
    }
    c.obs.distinct(hash_of(&(&s, &ops)));
    let mut missing = 0;
    let mut places = 0;
    for (v, i) in s.slabs() {
        if !done[v][i] {
            missing += s.vsize(v);
            places += 1;
        }
    }
    let (r, cost) = measure(|| w.close());
    r.map_err(|e| format!("close: {:?} ({})", e, text))?;
    // (close may list the records of each variable)
    judge("close", &cost, 0, missing, places, missing + 128 * (s.numrecs as u64 + 1) * s.vars.len() as u64, &text, &mut c.obs)?;
    c.obs.add(if missing == 0 { "complete files closed" } else { "files closed" }, 1);
    let f = std::fs::File::open(path).map_err(|e| e.to_string())?;
    for (v, i, b) in &last {
        let mut got = vec![0; b.len()];
        f.read_exact_at(&mut got, s.range(&begins, *v, *i).0).map_err(|e| format!("record {} of variable {}: {} ({})", i, v, e, text))?;
        if let Some(m) = diff(&got, b) {
            return Err(format!("record {} of variable {}: {} ({})", i, v, m, text));
        }
    }
    Ok(())
}

/// What a reader or a writer holds does not depend on the number of its calls.
fn steady(c: &mut Ctx, path: &Path) -> Res {
    const CALLS: usize = 40_000;
    const GROWTH: usize = 128 << 10;
    let mut s = gen::spec(&mut c.rng, &gen::Knobs::tiny());
    while s.slabs().is_empty() {
        s = gen::spec(&mut c.rng, &gen::Knobs::tiny());
    }
    let d = build(&s, &mut c.rng).map_err(|e| format!("a valid definition is refused: {:?}", e))?;
    let vals = gen::vals(&mut c.rng, &s);
    let slabs = s.slabs();
    let text = s.brief();
    let whole: Vec<Vec<u8>> = vals.iter().map(|v| v.concat()).collect();
    let mut w = FileWriter::open(path).map_err(|e| format!("open: {:?}", e))?;
    w.set_def(&d, version(s.version), 0).map_err(|e| format!("set_def: {:?} ({})", e, text))?;
    let mut r = c.rng.clone();
    let kinds = 1 + c.rng.below(4);
    let mut write = |k: usize| -> Res {
        let (v, i) = slabs[k % slabs.len()];
        let x = &s.vars[v];
        match r.below(kinds) {
            0 => write_record(&mut w, &x.name, i, x.ty, &vals[v][i]).map_err(|e| format!("{:?} ({})", e, text)),
            1 => write_var(&mut w, &x.name, x.ty, &whole[v]).map_err(|e| format!("{:?} ({})", e, text)),
            2 => {
                check!(write_record(&mut w, &x.name, s.nchunks(v) + i, x.ty, &vals[v][i]).is_err(), "an invalid write is accepted ({})", text);
                Ok(())
            }
            _ => {
                check!(w.set_def(&d, version(s.version), 0).is_err(), "a second set_def is accepted ({})", text);
                Ok(())
            }
        }
    };
    // everything is met once before the measure
    for k in 0..16 * slabs.len() {
        write(k)?;
    }
    let before = alloc::live();
    for k in 0..CALLS {
        write(k)?;
    }
    let after = alloc::live();
    check!(after <= before + GROWTH, "after {} calls more the writer holds {} bytes more ({})", CALLS, after - before, text);
    w.close().map_err(|e| format!("close: {:?} ({})", e, text))?;
    let mut rd = FileReader::open(path).map_err(|e| format!("open: {:?} ({})", e, text))?;
    let mut r = c.rng.clone();
    let mut read = |k: usize| -> Res {
        let (v, i) = slabs[k % slabs.len()];
        let x = &s.vars[v];
        match r.below(kinds) {
            0 => drop(rd.read_record(&x.name, i).map_err(|e| format!("{:?} ({})", e, text))?),
            1 => drop(rd.read_var(&x.name).map_err(|e| format!("{:?} ({})", e, text))?),
            2 => check!(rd.read_record(&x.name, s.nchunks(v) + k).is_err(), "an invalid read is accepted ({})", text),
            _ => check!(rd.read_var(&format!("?{}", k)).is_err(), "an invalid read is accepted ({})", text),
        }
        Ok(())
    };
    for k in 0..16 * slabs.len() {
        read(k)?;
    }
    let before = alloc::live();
    for k in 0..CALLS {
        read(k)?;
    }
    let after = alloc::live();
    check!(after <= before + GROWTH, "after {} calls more the reader holds {} bytes more ({})", CALLS, after - before, text);
    c.obs.add("calls of long sessions", 2 * CALLS as u64);
    c.obs.distinct(hash_of(&(&s, kinds)));
    Ok(())
}

/// Files much larger than what a reader or a writer may hold, crossed slab by slab.
fn march(c: &mut Ctx, path: &Path) -> Res {
    const GROWTH: usize = 512 << 10;
    let mut s = Spec::empty(1 + c.rng.below(2) as u8);
    let many = c.rng.bool();
    let vars = if many { 200 + c.rng.below(200) } else { 1 + c.rng.below(4) };
    s.numrecs = if many { 1 + c.rng.below(4) } else { 400 + c.rng.below(800) };
    s.dims.push(Dim { name: "t".into(), size: None });
    for k in 0..vars {
        let ty = *c.rng.pick(&TYS);
        let rec = !many || c.rng.bool();
        let len = ((32 << 10) + c.rng.below(64 << 10)) / ty.size();
        let d = dim(&mut s, len);
        s.vars.push(Var { name: format!("v{}", k), dims: if rec { vec![0, d] } else { vec![d] }, ty, attrs: vec![] });
    }
    let text = s.brief();
    let mut order = s.slabs();
    if c.rng.bool() {
        c.rng.shuffle(&mut order);
    }
    // one value for each slab; the data given and got are dropped after each call
    let byte = |v: usize, i: usize| b'a' + ((v * 7 + i) % 26) as u8;
    let written = if c.rng.one_in(3) { order.len() } else { 40.min(order.len()) };
    if written == order.len() {
        let d = build(&s, &mut c.rng).map_err(|e| format!("a valid definition is refused: {:?}", e))?;
        let mut w = FileWriter::open(path).map_err(|e| format!("open: {:?}", e))?;
        w.set_def(&d, version(s.version), 0).map_err(|e| format!("set_def: {:?} ({})", e, text))?;
        let before = alloc::live();
        for &(v, i) in &order {
            let x = &s.vars[v];
            let b = vec![byte(v, i); s.chunk_bytes(v) as usize];
            write_record(&mut w, &x.name, i, x.ty, &b).map_err(|e| format!("{:?} ({})", e, text))?;
        }
        let held = alloc::live().saturating_sub(before);
        // (the writer notes which slabs were written)
        check!(held <= GROWTH + 64 * written, "after {} slabs were written the writer holds {} bytes more ({})", written, held, text);
        w.close().map_err(|e| format!("close: {:?} ({})", e, text))?;
    } else {
        let l = Layout::canonical(&s, 0);
        let (header, _) = encode_header(&s, &l);
        let end = s.slabs().iter().map(|&(v, i)| s.range(&l.begins, v, i)).map(|(o, n, p)| o + n + p).max().unwrap_or(0);
        let f = std::fs::File::create(path).map_err(|e| format!("harness: {}", e))?;
        f.write_all_at(&header, 0).and_then(|_| f.set_len(end)).map_err(|e| format!("harness: {}", e))?;
        for &(v, i) in &order[..written] {
            let b = vec![byte(v, i); s.chunk_bytes(v) as usize];
            f.write_all_at(&b, s.range(&l.begins, v, i).0).map_err(|e| format!("harness: {}", e))?;
        }
    }
    let mut rd = FileReader::open(path).map_err(|e| format!("open: {:?} ({})", e, text))?;
    let before = alloc::live();
    let typed = c.rng.bool();
    let put: std::collections::HashSet<(usize, usize)> = order[..written].iter().cloned().collect();
    let mut crossed = 0;
    let mut step = |rd: &mut FileReader, v: usize, i: usize, k: usize| -> Res {
        let x = &s.vars[v];
        let got = if many && x.dims.len() == 1 && k % 2 == 1 {
            rd.read_var(&x.name).map(|d| dv(&d).1)
        } else if typed {
            read_record_typed(rd, &x.name, i, x.ty)
        } else {
            rd.read_record(&x.name, i).map(|d| dv(&d).1)
        };
        let got = got.map_err(|e| format!("record {} of {:?}: {:?} ({})", i, x.name, e, text))?;
        let want = vec![if put.contains(&(v, i)) { byte(v, i) } else { 0 }; got.len()];
        check!(got == want && got.len() as u64 == s.chunk_bytes(v), "record {} of {:?} is read differently ({})", i, x.name, text);
        crossed += got.len() as u64;
        Ok(())
    };
    for (k, &(v, i)) in order.iter().rev().enumerate() {
        step(&mut rd, v, i, k)?;
    }
    let held = alloc::live().saturating_sub(before);
    check!(held <= GROWTH, "after {} slabs of {} bytes in all were read the reader holds {} bytes more ({})", order.len(), crossed, held, text);
    c.obs.add("bytes crossed slab by slab", crossed);
    c.obs.distinct(hash_of(&(&s, written)));
    Ok(())
}
