//! Written files: round trips, exact bytes, fill values, isolation, confluence, copies.

use super::Prop;
use crate::check;
use crate::drive::*;
use crate::gen::{self, Knobs};
use crate::report::{hash_of, Ctx, Res};
use crate::rng::Rng;
use crate::spec::*;
use netcdf3::{DataSet, DataType, FileReader, FileWriter, Version, WriteError};
use std::path::Path;

fn has_nan(s: &Spec) -> bool {
    let nan = |a: &Attr| match a.ty {
        Ty::F32 => to_f32(&a.data).iter().any(|x| x.is_nan()),
        Ty::F64 => to_f64(&a.data).iter().any(|x| x.is_nan()),
        _ => false,
    };
    s.gattrs.iter().chain(s.vars.iter().flat_map(|v| v.attrs.iter())).any(nan)
}

fn count_spec(c: &mut Ctx, s: &Spec) {
    c.obs.add("definitions", 1);
    c.obs.add("attributes defined", (s.gattrs.len() + s.vars.iter().map(|v| v.attrs.len()).sum::<usize>()) as u64);
    c.obs.add("variables defined", s.vars.len() as u64);
    if s.lone().is_some() {
        c.obs.add("definitions with a lone record variable", 1);
    }
    if s.rec_vars().len() > 1 {
        c.obs.add("definitions with several record variables", 1);
    }
    if s.header_len() > 1024 {
        c.obs.add("headers over 1024 bytes", 1);
    }
    c.obs.max("header length", s.header_len());
    let b = s.brief();
    c.obs.sample(|| b);
}

/// A definition which is sometimes stretched to a header size next to a limit of the reader.
pub fn any_spec(r: &mut Rng, k: &Knobs) -> Spec {
    let mut s = gen::spec(r, k);
    if r.one_in(4) {
        let base = *r.pick(&[1024u64, 1024, 2048, 3072]);
        let d = *r.pick(&[0u64, 4, 8, 12]);
        let t = if r.bool() { base + d } else { base - d };
        gen::stretch_header(r, &mut s, t);
    }
    s
}

const SIZES: [usize; 17] = [65535, 65536, 65537, 70000, 100000, 131071, 131072, 131073, 200000, 262144, 262145, 300000, 1 << 19, (1 << 20) + 1, (1 << 21) + 3, (1 << 22) + 1, 4_500_000];

/// A definition with one very large variable, or very many records.
pub fn huge_spec(r: &mut Rng, k: &Knobs, top: usize, obs: &mut crate::report::Obs) -> Spec {
    let mut s = any_spec(r, k);
    s.vars.retain(|v| v.dims.len() < 2);
    s.vars.truncate(3);
    let name = |s: &Spec, n: &str| (0..).map(|i| format!("{}{}", n, i)).find(|n| s.dims.iter().all(|d| d.name != *n) && s.vars.iter().all(|v| v.name != *n)).unwrap();
    if s.vars.is_empty() {
        let name = name(&s, "v");
        s.vars.push(Var { name, dims: vec![], ty: *r.pick(&TYS), attrs: vec![] });
    }
    let v = r.below(s.vars.len());
    let n = loop {
        let n = *r.pick(if top < 5_000_000 { &SIZES } else { &SIZES[15..] });
        if n <= top {
            break n;
        }
    };
    if top >= 5_000_000 {
        s.vars[v].ty = TYS[top - 5_000_000];
    }
    let n = n + r.below(3);
    let records = n < 140_000 && top < 5_000_000 && r.bool();
    if records {
        if s.unlim().is_none() {
            let name = name(&s, "d");
            s.dims.push(Dim { name, size: None });
        }
        s.vars[v].dims = vec![s.unlim().unwrap()];
        s.numrecs = n;
        for d in s.dims.iter_mut() {
            d.size = d.size.map(|x| x.min(3));
        }
    } else {
        let name = name(&s, "d");
        s.numrecs = s.numrecs.min(2);
        s.dims.push(Dim { name, size: Some(n) });
        s.vars[v].dims = vec![s.dims.len() - 1];
        if r.one_in(3) && s.unlim().is_some() {
            let u = s.unlim().unwrap();
            s.vars[v].dims.insert(0, u);
        }
    }
    obs.add(if records { "very many records" } else { "very large chunks" }, 1);
    obs.max("number of records", s.numrecs as u64);
    obs.max("values in a chunk", (0..s.vars.len()).map(|v| s.chunk_len(v)).max().unwrap_or(0));
    s
}

/// The cases which are given a huge definition.
pub fn huge_turn(c: &Ctx, period: u64) -> Option<usize> {
    if cfg!(miri) {
        return None;
    }
    let k = c.idx / period;
    match c.idx % period {
        // (more than 5 millions: with one of the types in turn)
        11 => Some(if k % 6 == 0 { 5_000_000 + (k / 6 % 6) as usize } else { 1 << 20 }),
        _ => None,
    }
}

/// The same, and once in a while something is large.
pub fn wide_spec(r: &mut Rng, k: &Knobs, one_in: usize, room: usize, obs: &mut crate::report::Obs) -> Spec {
    let mut s = any_spec(r, k);
    if cfg!(miri) || !r.one_in(one_in) {
        return s;
    }
    let what = gen::enlarge(r, &mut s, room);
    obs.add(&format!("large {}", what), 1);
    if r.one_in(6) {
        let base = *r.pick(&[4096u64, 5120, 8192, 16384, 32768, 65536, 66560, 131072, 262144]);
        let d = *r.pick(&[0u64, 4, 8, 12]);
        let t = if r.bool() { base + d } else { base - d };
        gen::stretch_header(r, &mut s, t);
    }
    obs.max("header length", s.header_len());
    obs.max("number of records", s.numrecs as u64);
    obs.max("values in a chunk", (0..s.vars.len()).map(|v| s.chunk_len(v)).max().unwrap_or(0));
    obs.max("variables in a definition", s.vars.len() as u64);
    s
}

fn refused(e: netcdf3::InvalidDataSet) -> String {
    format!("a valid definition is refused: {:?}", e)
}

// ------------------------------------------------------------------------------------------------

pub const C01: Prop = Prop {
    id: "C01",
    quick: 200000,
    thorough: 5000000,
    level: "exploration",
    rule: "random definition (dimensions, attributes and variables of every type, versions, minimum header sizes, headers stretched around the 1024-byte blocks) built directly and through a detour of temporary elements, written, reopened and observed through the public interface; a case is non-trivial if the definition is not empty, distinct by definition and minimum header size",
    assumptions: &["the file system returns the bytes written"],
    required: &["definitions read back", "headers over 1024 bytes", "attributes defined", "lists with more elements than a 16-bit count"],
    run: c01,
};

/// Lists with more elements than a 16-bit count can tell: dimensions, attributes or variables.
fn c01_counts(c: &mut Ctx, what: u64) -> Res {
    let n = if c.thorough && what == 1 { 65_540 } else { 32_771 } + c.rng.below(7);
    let mut d = DataSet::new();
    let name = |i: usize| format!("e{}", i);
    let bad = |m: &str| Err(format!("{} elements of kind {}: {}", n, what, m));
    match what {
        0 => {
            for i in 0..n {
                d.add_fixed_dim(name(i), 1 + i % 2).map_err(refused)?;
            }
            d.add_var("v", &[name(n - 2), name(1), name(n - 1)], DataType::I16).map_err(refused)?;
        }
        1 => {
            d.add_var_i8::<&str>("v", &[]).map_err(refused)?;
            for i in 0..n {
                if i % 2 == 0 { d.add_global_attr_i8(&name(i), vec![i as i8]) } else { d.add_var_attr_i16("v", &name(i), vec![i as i16]) }.map_err(refused)?;
            }
            for i in n..n + n / 2 {
                d.add_global_attr_string(&name(i), "").map_err(refused)?;
            }
        }
        _ => {
            d.add_fixed_dim("d", 3).map_err(refused)?;
            for i in 0..n {
                if i % 7 == 0 { d.add_var_i16(&name(i), &["d"]) } else { d.add_var_u8::<&str>(&name(i), &[]) }.map_err(refused)?;
            }
        }
    }
    let path = c.path("counts.nc");
    let mut w = FileWriter::open(&path).map_err(|e| format!("open: {:?}", e))?;
    w.set_def(&d, Version::Offset64Bit, 0).map_err(|e| format!("set_def: {:?}", e))?;
    w.close().map_err(|e| format!("close: {:?}", e))?;
    let r = FileReader::open(&path).map_err(|e| format!("{} elements of kind {}: open: {:?}", n, what, e))?;
    let x = r.data_set();
    if x.num_dims() != d.num_dims() || x.num_vars() != d.num_vars() || x.num_global_attrs() != d.num_global_attrs() {
        return bad("the numbers of elements differ once read back");
    }
    if x.dim_names() != d.dim_names() || x.get_var_names() != d.get_var_names() || x.get_global_attr_names() != d.get_global_attr_names() {
        return bad("the names of the elements differ once read back");
    }
    if !x.get_vars().iter().zip(d.get_vars()).all(|(a, b)| a.dim_names() == b.dim_names() && a.data_type() == b.data_type() && a.len() == b.len() && a.get_attrs() == b.get_attrs()) {
        return bad("the variables differ once read back");
    }
    if x.get_global_attrs() != d.get_global_attrs() || x.get_dims().iter().zip(d.get_dims()).any(|(a, b)| a.size() != b.size()) {
        return bad("the elements differ once read back");
    }
    c.obs.max("elements in a list", n as u64);
    c.obs.add("lists with more elements than a 16-bit count", 1);
    c.obs.distinct(hash_of(&(n, what)));
    Ok(())
}

fn c01(c: &mut Ctx) -> Res {
    if !cfg!(miri) && (50_000..50_003).contains(&c.idx) {
        return c01_counts(c, c.idx - 50_000);
    }
    let k = if c.rng.one_in(12) {
        Knobs { dims: 20, vars: 40, attrs: 8, attr_len: 40, ..Knobs::default() }
    } else {
        Knobs::default()
    };
    let s = wide_spec(&mut c.rng, &k, 50, 100_000, &mut c.obs);
    let min = gen::min_size(&mut c.rng, &s);
    count_spec(c, &s);
    if !s.vars.is_empty() || !s.dims.is_empty() || !s.gattrs.is_empty() {
        c.obs.distinct(hash_of(&(&s, min)));
    }
    let d = if c.rng.bool() { build(&s, &mut c.rng) } else { build_detour(&s, &mut c.rng) }.map_err(refused)?;
    compare_defs(&observe(&d, s.version)?, &s)?;
    let path = c.path("a.nc");
    write_file(&path, &s, &d, min, &[])?;
    let rd = FileReader::open(&path).map_err(|e| format!("open: {:?} ({})", e, s.brief()))?;
    check_def(&rd, &s)?;
    if !has_nan(&s) {
        check!(*rd.data_set() == d, "the data set read is not equal (PartialEq) to the one written: {}", s.brief());
        c.obs.add("data sets compared with PartialEq", 1);
    }
    check!(rd.file_path() == path.as_path(), "FileReader::file_path is {:?}", rd.file_path());
    let (d2, v2) = rd.close();
    compare_defs(&observe(&d2, version_num(&v2))?, &s)?;
    c.obs.add("definitions read back", 1);
    // the data set read is a data set like any other: it can be written again
    if c.rng.one_in(3) {
        let again = c.path("b.nc");
        write_file(&again, &s, &d2, min, &[])?;
        let (x, y) = (read(&path)?, read(&again)?);
        if let Some(m) = diff(&y, &x) {
            return Err(format!("the data set read back is written differently: {}", m));
        }
        c.obs.add("definitions written again", 1);
    }
    Ok(())
}

pub fn read(p: &Path) -> Result<Vec<u8>, String> {
    std::fs::read(p).map_err(|e| format!("cannot read {:?}: {}", p, e))
}

// ------------------------------------------------------------------------------------------------

pub const C02: Prop = Prop {
    id: "C02",
    quick: 300000,
    thorough: 3750000,
    level: "exploration",
    rule: "random definition and history of whole-variable and record writes with overwrites, values with NaN payloads, infinities, extremes and fill patterns; the closed file is read with every reading method, in random order, against a map of the last values written; distinct by definition and history",
    assumptions: &["the file system returns the bytes written"],
    required: &["values read", "records read", "slabs overwritten", "definitions with a lone record variable", "definitions with several record variables"],
    run: c02,
};

fn c02(c: &mut Ctx) -> Res {
    let k = if c.rng.one_in(15) { Knobs { elems: 20000, records: 40, ..Knobs::default() } } else { Knobs::default() };
    let turn = huge_turn(c, 2503);
    let largest = turn.map_or(false, |top| top >= 5_000_000);
    let s = match turn {
        Some(top) => huge_spec(&mut c.rng, &Knobs::tiny(), top, &mut c.obs),
        None => wide_spec(&mut c.rng, &k, 80, 300_000, &mut c.obs),
    };
    let min = gen::min_size(&mut c.rng, &s);
    count_spec(c, &s);
    let d = build(&s, &mut c.rng).map_err(refused)?;
    let mut ops = if largest { vec![] } else { random_history(&mut c.rng, &s, 12) };
    if largest || c.rng.bool() {
        let v = gen::vals(&mut c.rng, &s);
        ops.extend(full_history(&mut c.rng, &s, &v));
        if !largest && c.rng.bool() {
            ops.extend(random_history(&mut c.rng, &s, 3));
        }
    }
    // (a value costs a system call)
    let mut left = 10_000_000usize;
    ops.retain(|o| {
        left = left.saturating_sub(o.data.len() / s.vars[o.var].ty.size());
        left > 0
    });
    let mut vals = s.filled();
    let mut seen = std::collections::HashSet::new();
    for op in &ops {
        op.apply(&s, &mut vals);
        for x in op.slabs(&s) {
            if !seen.insert(x) {
                c.obs.add("slabs overwritten", 1);
            }
        }
    }
    if !ops.is_empty() {
        c.obs.distinct(hash_of(&(&s, ops.iter().map(|o| (o.var, o.rec, &o.data)).collect::<Vec<_>>())));
    }
    c.obs.add("writes", ops.len() as u64);
    for o in &ops {
        let b = o.brief();
        c.obs.note(|| b);
    }
    let path = c.path("a.nc");
    write_file(&path, &s, &d, min, &ops)?;
    check_file(&path, &s, &vals, &mut c.rng, &mut c.obs).map_err(|e| format!("{} ({}; history {})", e, s.brief(), ops.iter().map(|o| o.brief()).collect::<Vec<_>>().join(" ")))
}

// ------------------------------------------------------------------------------------------------

pub const C03: Prop = Prop {
    id: "C03",
    quick: 600000,
    thorough: 5000000,
    level: "exploration",
    rule: "random definition, minimum header size and (partial or complete) history of writes; the bytes of the closed file are compared with an independent encoder of the file format; distinct by file content",
    assumptions: &["the reference encoder, cross-checked with SciPy's netcdf_file, is the file format"],
    required: &["bytes compared", "definitions with a lone record variable", "definitions with several record variables", "padding bytes compared", "unwritten slabs"],
    run: c03,
};

fn c03(c: &mut Ctx) -> Res {
    let s = match huge_turn(c, 10007) {
        Some(top) => huge_spec(&mut c.rng, &Knobs::tiny(), top, &mut c.obs),
        None => wide_spec(&mut c.rng, &Knobs::default(), 60, 300_000, &mut c.obs),
    };
    let min = gen::min_size(&mut c.rng, &s);
    count_spec(c, &s);
    let d = if c.rng.one_in(4) { build_detour(&s, &mut c.rng) } else { build(&s, &mut c.rng) }.map_err(refused)?;
    let mut ops = random_history(&mut c.rng, &s, 8);
    if c.rng.bool() {
        let v = gen::vals(&mut c.rng, &s);
        ops.extend(full_history(&mut c.rng, &s, &v));
    }
    let mut vals = s.filled();
    let mut written = std::collections::HashSet::new();
    for op in &ops {
        op.apply(&s, &mut vals);
        written.extend(op.slabs(&s));
    }
    c.obs.add("unwritten slabs", (s.slabs().len() - written.len()) as u64);
    let path = c.path("a.nc");
    write_file(&path, &s, &d, min, &ops)?;
    let got = read(&path)?;
    let want = canonical(&s, min as u64, &vals);
    if let Some(m) = diff(&got, &want) {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("the file is not the encoding of its content, in {}: {} ({}; min {}; history {})", locate(&s, &s.begins(min as u64), at as u64), m, s.brief(), min, ops.iter().map(|o| o.brief()).collect::<Vec<_>>().join(" ")));
    }
    c.obs.add("bytes compared", got.len() as u64);
    c.obs.add("padding bytes compared", s.slabs().iter().map(|(v, _)| s.padding(*v)).sum());
    c.obs.distinct(hash_of(&got));
    Ok(())
}

/// The content of a closed file. The bytes reserved before the data are in the file.
/// The closed file a history leaves.
pub fn closed_image(s: &Spec, min: usize, ops: &[WOp]) -> Vec<u8> {
    let mut vals = s.filled();
    for op in ops {
        op.apply(s, &mut vals);
    }
    canonical(s, min as u64, &vals)
}

// ------------------------------------------------------------------------------------------------

pub const C05: Prop = Prop {
    id: "C05",
    quick: 180000,
    thorough: 1500000,
    level: "exploration",
    rule: "small random definitions; every subset of the slabs (variable, record) up to 7 slabs (9 when thorough), random subsets beyond, is written and the rest left; after close, the bytes and the values read must be the ones written or the fill values; one evaluation is one definition with all its subsets, distinct by definition",
    assumptions: &["the file system returns the bytes written"],
    required: &["subsets of slabs", "slabs filled", "slabs kept", "definitions with several record variables"],
    run: c05,
};

fn c05(c: &mut Ctx) -> Res {
    let k = Knobs { records: 4, ..Knobs::tiny() };
    let s = match huge_turn(c, 1009) {
        Some(top) => huge_spec(&mut c.rng, &k, top.min(1 << 20), &mut c.obs),
        None if c.rng.one_in(20) => wide_spec(&mut c.rng, &k, 1, 100_000, &mut c.obs),
        None => gen::spec(&mut c.rng, &k),
    };
    if s.vars.is_empty() {
        return Ok(());
    }
    count_spec(c, &s);
    c.obs.distinct(hash_of(&s));
    let d = build(&s, &mut c.rng).map_err(refused)?;
    let slabs = s.slabs();
    let large = s.slabs().len() > 100 || s.vars.iter().enumerate().any(|(v, _)| s.chunk_len(v) > 100);
    let limit = if large { 0 } else { c.scale(7, 9) };
    let subsets: Vec<Vec<bool>> = if slabs.len() <= limit {
        (0..1u32 << slabs.len()).map(|m| (0..slabs.len()).map(|i| m >> i & 1 == 1).collect()).collect()
    } else {
        let n = if large { 3 } else { c.scale(40, 150) };
        (0..n).map(|_| {
            if c.rng.bool() {
                let p = *c.rng.pick(&[10usize, 50, 90]);
                return slabs.iter().map(|_| c.rng.pct(p)).collect();
            }
            // of each variable a few slabs are written, or are not, or the written ones follow a pattern
            (0..s.vars.len()).flat_map(|v| {
                let (n, p) = (s.nchunks(v), c.rng.below(6));
                if n == 0 {
                    return vec![];
                }
                let few: Vec<usize> = (0..1 + c.rng.below(8)).map(|_| match c.rng.below(3) {
                    0 => c.rng.below(n.min(9)),
                    1 => n - 1 - c.rng.below(n.min(9)),
                    _ => c.rng.below(n),
                }).collect();
                let (a, b, m) = (c.rng.below(n + 1), c.rng.below(n + 1), 2 + c.rng.below(9));
                (0..n).map(|i| match p {
                    0 | 1 => !few.contains(&i),
                    2 => few.contains(&i),
                    3 => i < a,
                    4 => i < a.min(b) || i >= a.max(b),
                    _ => i % m == a % m,
                }).collect()
            }).collect()
        }).collect()
    };
    let path = c.path("a.nc");
    // the place of the first slab of each variable
    let first: Vec<usize> = (0..s.vars.len()).map(|v| (0..v).map(|x| s.nchunks(x)).sum()).collect();
    for sub in subsets {
        let mut vals = s.filled();
        let mut ops: Vec<WOp> = vec![];
        for v in 0..s.vars.len() {
            let mine: Vec<usize> = (0..s.nchunks(v)).filter(|i| sub[first[v] + i]).collect();
            let n = s.nchunks(v);
            let fresh = |r: &mut Rng, n: usize| gen::values(r, s.vars[v].ty, s.chunk_len(v) as usize * n);
            if mine.len() == n && c.rng.bool() {
                // written as a whole, sometimes after or before some of its records
                if n > 0 && c.rng.one_in(3) {
                    let i = c.rng.below(n);
                    let data = fresh(&mut c.rng, 1);
                    ops.push(WOp { var: v, rec: Some(i), data });
                }
                let data = fresh(&mut c.rng, n);
                ops.push(WOp { var: v, rec: None, data });
                if n > 0 && c.rng.one_in(3) {
                    let i = c.rng.below(n);
                    let data = fresh(&mut c.rng, 1);
                    ops.push(WOp { var: v, rec: Some(i), data });
                }
            } else {
                let mut mine = mine;
                c.rng.shuffle(&mut mine);
                for i in mine {
                    let data = fresh(&mut c.rng, 1);
                    ops.push(WOp { var: v, rec: Some(i), data });
                }
            }
        }
        // variables in any order, the operations of one variable in theirs
        if c.rng.bool() {
            ops.sort_by_key(|o| std::cmp::Reverse(o.var));
        }
        for op in &ops {
            op.apply(&s, &mut vals);
        }
        write_file(&path, &s, &d, 0, &ops)?;
        c.obs.add("subsets of slabs", 1);
        let kept = sub.iter().filter(|x| **x).count() as u64;
        c.obs.add("slabs kept", kept);
        c.obs.add("slabs filled", slabs.len() as u64 - kept);
        let got = read(&path)?;
        let begins = s.begins(0);
        for (v, i) in &slabs {
            let (o, n, _) = s.range(&begins, *v, *i);
            let have = got.get(o as usize..(o + n) as usize);
            if have != Some(&vals[*v][*i][..]) {
                let w = sub[first[*v] + i];
                let m = have.map_or("nothing".to_string(), |h| diff(h, &vals[*v][*i]).unwrap_or_default());
                return Err(format!("slab {} of variable {} ({}) is not as expected: {} ({}; history {})", i, v, if w { "written" } else { "not written" }, m, s.brief(), ops.iter().take(40).map(|o| o.brief()).collect::<Vec<_>>().join(" ")));
            }
        }
        if c.rng.one_in(8) {
            check_file(&path, &s, &vals, &mut c.rng, &mut c.obs)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------

pub const C06: Prop = Prop {
    id: "C06",
    quick: 240000,
    thorough: 1500000,
    level: "exploration",
    rule: "random history of writes; for each of its writes, the closed file with and without this write, and with rejected writes added, may differ only in the bytes of the slabs it addresses; distinct by definition and history",
    assumptions: &["the file system returns the bytes written"],
    required: &["writes removed", "rejected writes added", "bytes changed inside the slab", "bytes compared outside"],
    run: c06,
};

fn c06(c: &mut Ctx) -> Res {
    let s = if c.rng.one_in(25) { wide_spec(&mut c.rng, &Knobs::small(), 1, 100_000, &mut c.obs) } else { gen::spec(&mut c.rng, &Knobs::small()) };
    if s.vars.is_empty() {
        return Ok(());
    }
    count_spec(c, &s);
    let min = gen::min_size(&mut c.rng, &s);
    let d = build(&s, &mut c.rng).map_err(refused)?;
    let ops = random_history(&mut c.rng, &s, 9);
    if ops.is_empty() {
        return Ok(());
    }
    c.obs.distinct(hash_of(&(&s, ops.iter().map(|o| (o.var, o.rec, &o.data)).collect::<Vec<_>>())));
    let (a, b) = (c.path("a.nc"), c.path("b.nc"));
    write_file(&a, &s, &d, min, &ops)?;
    let whole = read(&a)?;
    let begins = s.begins(min as u64);
    for k in 0..ops.len() {
        let mut less = ops.clone();
        let gone = less.remove(k);
        write_file(&b, &s, &d, min, &less)?;
        let other = read(&b)?;
        check!(other.len() == whole.len(), "without write {} ({}) the file has {} bytes instead of {}", k, gone.brief(), other.len(), whole.len());
        let mut inside = vec![false; whole.len()];
        for (v, i) in gone.slabs(&s) {
            let (o, n, _) = s.range(&begins, v, i);
            for x in o..o + n {
                if (x as usize) < inside.len() {
                    inside[x as usize] = true;
                }
            }
        }
        for x in 0..whole.len() {
            if whole[x] != other[x] {
                check!(inside[x], "write {} ({}) changes byte {} ({}), outside of what it addresses ({}; history {})", k, gone.brief(), x, locate(&s, &begins, x as u64), s.brief(), ops.iter().map(|o| o.brief()).collect::<Vec<_>>().join(" "));
                c.obs.add("bytes changed inside the slab", 1);
            }
        }
        c.obs.add("bytes compared outside", inside.iter().filter(|x| !**x).count() as u64);
        c.obs.add("writes removed", 1);
    }
    // rejected writes
    {
        let mut w = open_some(&b, c.rng.next())?;
        w.set_def(&d, version(s.version), min).map_err(|e| format!("set_def: {:?}", e))?;
        for op in &ops {
            for _ in 0..c.rng.below(3) {
                let what = rejected(&mut w, &s, &mut c.rng)?;
                c.obs.add("rejected writes added", 1);
                c.obs.note(|| format!("rejected {}", what));
            }
            op.run(&s, &mut w).map_err(|e| format!("write {} after rejected ones: {:?}", op.brief(), e))?;
        }
        rejected(&mut w, &s, &mut c.rng)?;
        w.close().map_err(|e| format!("close: {:?}", e))?;
    }
    if let Some(m) = diff(&read(&b)?, &whole) {
        return Err(format!("rejected writes change the file: {} ({})", m, s.brief()));
    }
    Ok(())
}

/// A write which must be rejected.
pub fn rejected(w: &mut FileWriter, s: &Spec, r: &mut Rng) -> Result<String, String> {
    let v = r.below(s.vars.len());
    let (name, t, n) = (s.vars[v].name.clone(), s.vars[v].ty, s.chunk_len(v) as usize);
    let chunks = s.nchunks(v);
    let bytes = |r: &mut Rng, t: Ty, n: usize| gen::values(r, t, n);
    let (what, ok) = match r.below(6) {
        0 => {
            let data = bytes(r, t, n * chunks + 1 + r.clone().below(3));
            (format!("longer {:?}", name), write_var(w, &name, t, &data).is_ok())
        }
        1 if n * chunks > 0 => {
            let data = bytes(r, t, n * chunks - 1);
            (format!("shorter {:?}", name), write_var(w, &name, t, &data).is_ok())
        }
        2 => {
            let i = chunks + r.below(3);
            let data = bytes(r, t, n);
            (format!("record {} of {:?}", i, name), write_record(w, &name, i, t, &data).is_ok())
        }
        3 if chunks > 0 => {
            let i = r.below(chunks);
            let more = r.bool();
            let data = bytes(r, t, if more { n + 1 } else { n - 1 });
            (format!("record {} of {:?} with another length", i, name), write_record(w, &name, i, t, &data).is_ok())
        }
        4 => {
            let data = bytes(r, t, n * chunks);
            let mut other = format!("{}x", name);
            while s.find_var(&other).is_some() {
                other.push('x');
            }
            (format!("{:?} (undefined)", other), write_var(w, &other, t, &data).is_ok())
        }
        _ => {
            let mut u = *r.pick(&TYS);
            while u == t {
                u = *r.pick(&TYS);
            }
            let data = bytes(r, u, n * chunks);
            (format!("{:?} with type {:?}", name, u), write_var(w, &name, u, &data).is_ok())
        }
    };
    check!(!ok, "accepted: {} ({})", what, s.brief());
    Ok(what)
}

// ------------------------------------------------------------------------------------------------

pub const C20: Prop = Prop {
    id: "C20",
    quick: 240000,
    thorough: 2000000,
    level: "exploration",
    rule: "pairs of histories which leave the same last values (shuffled, split into records or whole, with overwrites, with rejected calls in one of them, with the definition built directly or through a detour, on a new file or over an old one): the closed files must be identical byte for byte; distinct by definition, values and history",
    assumptions: &["the file system returns the bytes written"],
    required: &["pairs of histories", "overwritten in one history", "definitions with several record variables"],
    run: c20,
};

fn c20(c: &mut Ctx) -> Res {
    let k = Knobs { elems: 400, ..Knobs::default() };
    let s = if c.rng.one_in(40) { wide_spec(&mut c.rng, &k, 1, 100_000, &mut c.obs) } else { gen::spec(&mut c.rng, &k) };
    count_spec(c, &s);
    let min = gen::min_size(&mut c.rng, &s);
    let goal = gen::vals(&mut c.rng, &s);
    // the slabs which are never written
    let skip: std::collections::HashSet<(usize, usize)> = s.slabs().into_iter().filter(|_| c.rng.one_in(5)).collect();
    let mut first: Option<Vec<u8>> = None;
    let n = c.scale(3, 6);
    for k in 0..n {
        let mut ops: Vec<WOp> = vec![];
        for v in 0..s.vars.len() {
            let all = (0..s.nchunks(v)).all(|i| !skip.contains(&(v, i)));
            if all && c.rng.bool() {
                ops.push(WOp { var: v, rec: None, data: goal[v].concat() });
            } else {
                for i in 0..s.nchunks(v) {
                    if !skip.contains(&(v, i)) {
                        ops.push(WOp { var: v, rec: Some(i), data: goal[v][i].clone() });
                    }
                }
            }
        }
        c.rng.shuffle(&mut ops);
        // earlier writes of the same slabs with other values
        let mut early: Vec<WOp> = vec![];
        if c.rng.pct(70) {
            for _ in 0..c.rng.below(6) {
                if let Some(o) = random_op(&mut c.rng, &s) {
                    if o.slabs(&s).iter().all(|x| !skip.contains(x)) {
                        c.obs.add("overwritten in one history", 1);
                        early.push(o);
                    }
                }
            }
        }
        early.extend(ops);
        let d = if c.rng.bool() { build(&s, &mut c.rng) } else { build_detour(&s, &mut c.rng) }.map_err(refused)?;
        let path = c.path(&format!("f{}.nc", k));
        if c.rng.one_in(3) {
            // over an old, longer, file
            let n = c.rng.below(20000);
            let old = c.rng.bytes(n);
            std::fs::write(&path, old).map_err(|e| e.to_string())?;
        }
        let noisy = !s.vars.is_empty() && c.rng.bool();
        let huge = too_large(c.rng.next());
        let mut w = open_some(&path, c.rng.next())?;
        while c.rng.one_in(4) {
            // a definition which is refused leaves nothing behind
            let other = *c.rng.pick(&[0, min / 2, min + 40, min + 5000]);
            let got = w.set_def(&huge, Version::Classic, other);
            check!(got == Err(WriteError::ClassicVersionNotPossible), "set_def of a definition too large for the classic format: {:?}", got);
            c.obs.add("definitions refused before", 1);
        }
        w.set_def(&d, version(s.version), min).map_err(|e| format!("set_def: {:?}", e))?;
        for op in &early {
            if noisy && c.rng.one_in(3) {
                rejected(&mut w, &s, &mut c.rng)?;
            }
            op.run(&s, &mut w).map_err(|e| format!("write {}: {:?}", op.brief(), e))?;
        }
        w.close().map_err(|e| format!("close: {:?}", e))?;
        let got = read(&path)?;
        c.obs.distinct(hash_of(&(&s, early.iter().map(|o| (o.var, o.rec, &o.data)).collect::<Vec<_>>())));
        match &first {
            None => first = Some(got),
            Some(f) => {
                if let Some(m) = diff(&got, f) {
                    return Err(format!("two histories with the same final values give different files: {} ({}; second history {})", m, s.brief(), early.iter().map(|o| o.brief()).collect::<Vec<_>>().join(" ")));
                }
                c.obs.add("pairs of histories", 1);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------

pub const C21: Prop = Prop {
    id: "C21",
    quick: 300000,
    thorough: 2500000,
    level: "exploration",
    rule: "files encoded by the reference encoder, in the canonical layout or in any conforming one, are read and written again with the public interface only; the copy of a canonical file must be identical, the copy of any other must have the same definition and values and be a fixed point; distinct by source file",
    assumptions: &["the reference encoder, cross-checked with SciPy's netcdf_file, is the file format"],
    required: &["canonical files copied", "foreign files copied", "copies of copies"],
    run: c21,
};

/// Copies a file with the public interface.
pub fn copy(src: &Path, dst: &Path, min: usize, r: &mut Rng) -> Result<(), String> {
    let mut rd = FileReader::open(src).map_err(|e| format!("open: {:?}", e))?;
    let mut data: Vec<(String, Option<usize>, netcdf3::DataVector)> = vec![];
    let names = rd.data_set().get_var_names();
    if r.one_in(3) {
        let all = rd.read_all_vars().map_err(|e| format!("read_all_vars: {:?}", e))?;
        for (n, v) in all {
            data.push((n, None, v));
        }
    } else {
        for n in names {
            let var = rd.data_set().get_var(&n).ok_or("variable lost")?;
            let chunks = var.num_chunks();
            if chunks > 0 && r.bool() {
                for i in 0..chunks {
                    let v = rd.read_record(&n, i).map_err(|e| format!("read_record({:?}, {}): {:?}", n, i, e))?;
                    data.push((n.clone(), Some(i), v));
                }
            } else {
                let v = rd.read_var(&n).map_err(|e| format!("read_var({:?}): {:?}", n, e))?;
                data.push((n, None, v));
            }
        }
    }
    let (d, v) = rd.close();
    let mut w = open_some(dst, r.next())?;
    w.set_def(&d, v, min).map_err(|e| format!("set_def: {:?}", e))?;
    for (n, i, x) in data {
        let (t, b) = dv(&x);
        match i {
            None => write_var(&mut w, &n, t, &b),
            Some(i) => write_record(&mut w, &n, i, t, &b),
        }
        .map_err(|e| format!("write {:?} {:?}: {:?}", n, i, e))?;
    }
    w.close().map_err(|e| format!("close: {:?}", e))
}

fn c21(c: &mut Ctx) -> Res {
    let s = wide_spec(&mut c.rng, &Knobs::default(), 60, 200_000, &mut c.obs);
    count_spec(c, &s);
    let vals = gen::vals(&mut c.rng, &s);
    let (a, b, e) = (c.path("a.nc"), c.path("b.nc"), c.path("c.nc"));
    if c.rng.bool() {
        let min = gen::min_size(&mut c.rng, &s);
        let src = canonical(&s, min as u64, &vals);
        c.obs.distinct(hash_of(&src));
        std::fs::write(&a, &src).map_err(|e| e.to_string())?;
        copy(&a, &b, min, &mut c.rng).map_err(|e| format!("{} ({})", e, s.brief()))?;
        if let Some(m) = diff(&read(&b)?, &src) {
            return Err(format!("the copy differs: {} ({})", m, s.brief()));
        }
        check!(read(&a)? == src, "copying modified the source");
        c.obs.add("canonical files copied", 1);
    } else {
        let l = gen::foreign(&mut c.rng, &s);
        let src = encode(&s, &l, &vals).0;
        c.obs.distinct(hash_of(&src));
        std::fs::write(&a, &src).map_err(|e| e.to_string())?;
        let min = gen::min_size(&mut c.rng, &s);
        copy(&a, &b, min, &mut c.rng).map_err(|e| format!("{} ({}; begins {:?})", e, s.brief(), l.begins))?;
        check_file(&b, &s, &vals, &mut c.rng, &mut c.obs)?;
        if let Some(m) = diff(&read(&b)?, &canonical(&s, min as u64, &vals)) {
            return Err(format!("the copy of a foreign file is not canonical: {} ({})", m, s.brief()));
        }
        c.obs.add("foreign files copied", 1);
        copy(&b, &e, min, &mut c.rng)?;
        if let Some(m) = diff(&read(&e)?, &read(&b)?) {
            return Err(format!("the copy of the copy differs: {} ({})", m, s.brief()));
        }
        c.obs.add("copies of copies", 1);
    }
    Ok(())
}
