//! Files which come from elsewhere: decoding, hostile content, truncation, read faults.

use super::files::{any_spec, wide_spec, read};
use super::Prop;
use crate::alloc;
use crate::check;
use crate::drive::*;
use crate::gen::{self, Knobs};
use crate::report::{hash_of, Ctx, Res};
use crate::rng::Rng;
use crate::spec::*;
use crate::sys::{self, Class, Fault};
use netcdf3::error::parse_header_error::ParseHeaderErrorKind as K;
use netcdf3::{FileReader, FileWriter, InvalidDataSet, ReadError, Version};
use std::path::Path;

fn put(p: &Path, b: &[u8]) -> Result<(), String> {
    std::fs::write(p, b).map_err(|e| format!("cannot write {:?}: {}", p, e))
}

// ------------------------------------------------------------------------------------------------

pub const C04: Prop = Prop {
    id: "C04",
    quick: 600000,
    thorough: 5000000,
    level: "exploration",
    rule: "files encoded by an independent encoder in any conforming layout (order of the fixed-size and record data, gaps, larger headers, arbitrary redundant sizes, tagged empty lists, arbitrary padding bytes, stored or indeterminate number of records, trailing bytes), plus the files of the repository written by the C library; definition and every value read by every method are compared; distinct by file content",
    assumptions: &["the reference encoder, cross-checked with SciPy's netcdf_file, is the file format"],
    required: &["foreign files read", "golden files read", "indeterminate number of records", "values read", "lone record variables"],
    run: c04,
};

const GOLDEN: &[(&str, &[u8])] = &[
    ("containing_default_fill_values.nc", include_bytes!("../../golden/containing_default_fill_values.nc")),
    ("empty_data_set.nc", include_bytes!("../../golden/empty_data_set.nc")),
    ("nc_fill_values.nc", include_bytes!("../../golden/nc_fill_values.nc")),
    ("scalar_vars.nc", include_bytes!("../../golden/scalar_vars.nc")),
    ("temp_3D_64bit_offset.nc", include_bytes!("../../golden/temp_3D_64bit_offset.nc")),
    ("temp_3D_classic.nc", include_bytes!("../../golden/temp_3D_classic.nc")),
    ("temp_3D_classic_light.nc", include_bytes!("../../golden/temp_3D_classic_light.nc")),
    ("zero_sized_unlimited_dim.nc", include_bytes!("../../golden/zero_sized_unlimited_dim.nc")),
];

fn golden_vals(h: &Header, b: &[u8]) -> Option<Vals> {
    let s = &h.spec;
    (0..s.vars.len()).map(|v| (0..s.nchunks(v)).map(|k| h.chunk(b, v, k).map(|x| x.to_vec())).collect::<Option<Vec<_>>>()).collect()
}

fn c04(c: &mut Ctx) -> Res {
    let path = c.path("a.nc");
    if (c.idx as usize) < GOLDEN.len() {
        let (name, b) = GOLDEN[c.idx as usize];
        let d = decode(b);
        let h = d.syntax.as_ref().expect("golden file");
        let vals = golden_vals(h, b).expect("golden values");
        put(&path, b)?;
        check_file(&path, &h.spec, &vals, &mut c.rng, &mut c.obs).map_err(|e| format!("{}: {}", name, e))?;
        c.obs.add("golden files read", 1);
        c.obs.distinct(hash_of(&b));
        return Ok(());
    }
    if !cfg!(miri) && c.idx % 300 == 7 {
        return super::writer::far_begins(c, &path);
    }
    let s = match super::files::huge_turn(c, 3001) {
        Some(top) => super::files::huge_spec(&mut c.rng, &Knobs::tiny(), top, &mut c.obs),
        None => wide_spec(&mut c.rng, &Knobs::default(), 60, 300_000, &mut c.obs),
    };
    let vals = gen::vals(&mut c.rng, &s);
    let l = gen::foreign(&mut c.rng, &s);
    let b = encode(&s, &l, &vals).0;
    // the two halves of the reference agree
    let dec = decode(&b);
    match &dec.syntax {
        Ok(h) if dec.invalid.is_empty() && !dec.no_numrecs => {
            let mut want = s.clone();
            if l.numrecs_field == u32::MAX && s.rec_vars().is_empty() {
                want.numrecs = 0;
            }
            assert_eq!(h.spec, want, "the reference decoder disagrees with the encoder");
        }
        _ => panic!("the reference decoder rejects the encoder: {:?} {}", dec, s.brief()),
    }
    put(&path, &b)?;
    c.obs.distinct(hash_of(&b));
    c.obs.add("foreign files read", 1);
    if l.numrecs_field == u32::MAX {
        c.obs.add("indeterminate number of records", 1);
    }
    if s.lone().is_some() {
        c.obs.add("lone record variables", 1);
    }
    let t = s.brief();
    c.obs.sample(|| format!("{} begins {:?}", t, l.begins));
    check_file(&path, &s, &vals, &mut c.rng, &mut c.obs).map_err(|e| format!("{} ({}; begins {:?}, sizes {:x?}, numrecs field {:x})", e, s.brief(), l.begins, l.vsizes, l.numrecs_field))
}

// ------------------------------------------------------------------------------------------------

pub const C08: Prop = Prop {
    id: "C08",
    quick: 600000,
    thorough: 3750000,
    level: "exploration",
    rule: "one reader on a conforming file performs a long random sequence of valid and invalid reads (all generic and typed methods, unknown names, wrong types, records out of range); every result is compared with the stateless reference, and the file and the definition must be unchanged at the end; distinct by file and sequence",
    assumptions: &["the reference encoder is the file format"],
    required: &["valid reads", "unknown variables", "wrong types", "records out of range"],
    run: c08,
};

/// One random read compared with the reference.
pub fn one_read(rd: &mut FileReader, s: &Spec, vals: &Vals, r: &mut Rng, obs: &mut crate::report::Obs) -> Result<(), String> {
    let known = !s.vars.is_empty() && !r.one_in(8);
    if !known {
        let mut n = if s.vars.is_empty() || r.bool() {
            r.pick(&["", "nope", "é", "\0", "a b"]).to_string()
        } else {
            let b = r.pick(&s.vars).name.clone();
            match r.below(4) {
                0 => format!("{} ", b),
                1 => b.to_uppercase(),
                2 => b[..b.char_indices().last().unwrap().0].to_string(),
                _ => format!("{}{}", b, b),
            }
        };
        if let (true, true) = (r.one_in(3), !s.dims.is_empty()) {
            n = r.pick(&s.dims).name.clone();
        }
        if s.find_var(&n).is_some() {
            return Ok(());
        }
        let t = *r.pick(&TYS);
        let e = match r.below(4) {
            0 => rd.read_var(&n).err(),
            1 => rd.read_record(&n, r.below(3)).err(),
            2 => read_var_typed(rd, &n, t).err(),
            _ => read_record_typed(rd, &n, r.below(3), t).err(),
        };
        obs.add("unknown variables", 1);
        check!(e == Some(ReadError::VariableNotDefined(n.clone())), "reading the undefined variable {:?} gives {:?}", n, e);
        return Ok(());
    }
    let v = r.below(s.vars.len());
    let (name, t) = (s.vars[v].name.as_str(), s.vars[v].ty);
    let n = s.nchunks(v);
    let typed = r.bool();
    let u = if typed && r.one_in(5) { *r.pick(&TYS) } else { t };
    if r.bool() {
        let i = if r.one_in(5) {
            *r.pick(&[n, n + 1, n + 7, usize::MAX, i32::MAX as usize, 1 << 32])
        } else if n > 0 {
            r.below(n)
        } else {
            0
        };
        let got = if typed { read_record_typed(rd, name, i, u).map(|b| (u, b)) } else { rd.read_record(name, i).map(|d| dv(&d)) };
        let mut no = vec![];
        if u != t {
            no.push(ReadError::VariableMismatchDataType { var_name: name.to_string(), req: dt(t), get: dt(u) });
            obs.add("wrong types", 1);
        }
        if i >= n {
            no.push(ReadError::RecordIndexExceeded { index: i, num_records: n });
            obs.add("records out of range", 1);
        }
        match got {
            Ok((gt, b)) => {
                check!(no.is_empty(), "record {} of {:?} read as {:?} is accepted instead of {:?}", i, name, u, no);
                check!(gt == t && b == vals[v][i], "record {} of {:?}: {:?} {}", i, name, gt, diff(&b, &vals[v][i]).unwrap_or_default());
                obs.add("valid reads", 1);
            }
            Err(e) => check!(no.contains(&e), "record {} of {:?} ({} records of {:?}) read as {:?}: {:?}", i, name, n, t, u, e),
        }
    } else {
        let got = if typed { read_var_typed(rd, name, u).map(|b| (u, b)) } else { rd.read_var(name).map(|d| dv(&d)) };
        let whole = vals[v].concat();
        match got {
            Ok((gt, b)) => {
                check!(u == t, "{:?} of type {:?} is read as {:?}", name, t, u);
                check!(gt == t && b == whole, "{:?}: {:?} {}", name, gt, diff(&b, &whole).unwrap_or_default());
                obs.add("valid reads", 1);
            }
            Err(e) => {
                if u != t {
                    obs.add("wrong types", 1);
                }
                check!(u != t && e == ReadError::VariableMismatchDataType { var_name: name.to_string(), req: dt(t), get: dt(u) }, "{:?} of type {:?} read as {:?}: {:?}", name, t, u, e)
            }
        }
    }
    Ok(())
}

pub fn c08(c: &mut Ctx) -> Res {
    let s = wide_spec(&mut c.rng, &Knobs::small(), 80, 100_000, &mut c.obs);
    let vals = gen::vals(&mut c.rng, &s);
    let l = gen::foreign(&mut c.rng, &s);
    let b = encode(&s, &l, &vals).0;
    let path = c.path("a.nc");
    put(&path, &b)?;
    c.obs.distinct(hash_of(&(&b, c.idx)));
    let mut rd = FileReader::open(&path).map_err(|e| format!("open: {:?} ({})", e, s.brief()))?;
    let n = c.scale(80, 200);
    for k in 0..n {
        one_read(&mut rd, &s, &vals, &mut c.rng, &mut c.obs).map_err(|e| format!("read {}: {} ({})", k, e, s.brief()))?;
        if c.rng.one_in(40) {
            let all = rd.read_all_vars().map_err(|e| format!("read_all_vars: {:?}", e))?;
            check!(all.len() == s.vars.len() && s.vars.iter().enumerate().all(|(v, x)| all.get(&x.name).map(dv) == Some((x.ty, vals[v].concat()))), "read {}: read_all_vars differs ({})", k, s.brief());
            c.obs.add("valid reads", s.vars.len() as u64);
        }
    }
    check_def(&rd, &s).map_err(|e| format!("after reading: {}", e))?;
    check!(rd.file_path() == path.as_path(), "file_path changed to {:?}", rd.file_path());
    drop(rd);
    check!(read(&path)? == b, "reading modified the file ({})", s.brief());
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// Mutations
// ------------------------------------------------------------------------------------------------

const INTS: &[u32] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 255, 256, 257, 1023, 1024, 1025, 65535, 65536, 0x0100_0000, 0x0FFF_FFFF, 0x1FFF_FFFF, 0x2000_0000, 0x3FFF_FFFF, 0x4000_0000, 0x7FFF_FFF0, 0x7FFF_FFFC, 0x7FFF_FFFD, 0x7FFF_FFFE, 0x7FFF_FFFF,
    0x8000_0000, 0x8000_0001, 0xFFFF_FFFE, 0xFFFF_FFFF, 0xFFFF_0000,
];

/// A definition with one rule violated, or an unusual but valid one.
fn spec_mutation(r: &mut Rng, s: &mut Spec, l: &mut Layout) -> &'static str {
    if r.one_in(40) {
        // in a long list, two names are the same, at any distance
        let n = 20 + r.below(if cfg!(miri) { 10 } else { 320 });
        let (i, j) = (r.below(n), r.below(n));
        let name = |k: usize| if k == i { format!("li{}", j) } else { format!("li{}", k) };
        // all of one type, often
        let ty = *r.pick(&TYS);
        let many = r.bool();
        let list = r.below(4);
        for k in 0..n {
            let name = name(k);
            let ty = if many { *r.pick(&TYS) } else { ty };
            match list {
                0 => s.dims.push(Dim { name, size: Some(1 + k % 3) }),
                1 if !s.vars.is_empty() => s.vars[0].attrs.push(Attr { name, ty, data: vec![] }),
                2 => {
                    s.vars.push(Var { name, dims: vec![], ty, attrs: vec![] });
                    let after = l.begins.last().map_or(0, |b| b.saturating_add(400));
                    l.begins.push(after);
                    l.vsizes.push(pad4(ty.size() as u64) as u32);
                }
                _ => s.gattrs.push(Attr { name, ty, data: vec![] }),
            }
        }
        return if i == j { "a long list" } else { "same name in a long list" };
    }
    let bad_names = ["", " a", "a/b", "a\0", "-x", "a\u{7f}", "\ta", "é/", "a\n", "/"];
    match r.below(16) {
        0 if s.dims.len() > 1 => {
            let (a, b) = (r.below(s.dims.len()), r.below(s.dims.len()));
            s.dims[a].name = s.dims[b].name.clone();
            "same dimension name"
        }
        1 if s.vars.len() > 1 => {
            let (a, b) = (r.below(s.vars.len()), r.below(s.vars.len()));
            s.vars[a].name = s.vars[b].name.clone();
            "same variable name"
        }
        2 if s.gattrs.len() > 1 => {
            let (a, b) = (r.below(s.gattrs.len()), r.below(s.gattrs.len()));
            s.gattrs[a].name = s.gattrs[b].name.clone();
            "same global attribute name"
        }
        3 if s.vars.iter().any(|v| v.attrs.len() > 1) => {
            let i = s.vars.iter().position(|v| v.attrs.len() > 1).unwrap();
            let n = s.vars[i].attrs[0].name.clone();
            s.vars[i].attrs.last_mut().unwrap().name = n;
            "same variable attribute name"
        }
        4 if !s.dims.is_empty() => {
            let i = r.below(s.dims.len());
            s.dims[i].name = r.pick(&bad_names).to_string();
            "bad dimension name"
        }
        5 if !s.vars.is_empty() => {
            let i = r.below(s.vars.len());
            s.vars[i].name = r.pick(&bad_names).to_string();
            "bad variable name"
        }
        6 if !s.gattrs.is_empty() => {
            let i = r.below(s.gattrs.len());
            s.gattrs[i].name = r.pick(&bad_names).to_string();
            "bad global attribute name"
        }
        7 if s.vars.iter().any(|v| !v.attrs.is_empty()) => {
            let i = s.vars.iter().position(|v| !v.attrs.is_empty()).unwrap();
            let k = r.below(s.vars[i].attrs.len());
            s.vars[i].attrs[k].name = r.pick(&bad_names).to_string();
            "bad variable attribute name"
        }
        8 if !s.dims.is_empty() => {
            let i = r.below(s.dims.len());
            s.dims[i].size = None;
            "other unlimited dimension"
        }
        9 if !s.vars.is_empty() => {
            let i = r.below(s.vars.len());
            let d = *r.pick(&[s.dims.len(), s.dims.len() + 1, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF]);
            let at = r.below(s.vars[i].dims.len() + 1);
            s.vars[i].dims.insert(at, d);
            "dimension out of range"
        }
        10 if !s.vars.is_empty() && !s.dims.is_empty() => {
            let i = r.below(s.vars.len());
            let at = r.below(s.vars[i].dims.len() + 1);
            let d = r.below(s.dims.len());
            s.vars[i].dims.insert(at, d);
            "one more dimension"
        }
        11 if !s.dims.is_empty() => {
            let i = r.below(s.dims.len());
            s.dims[i].size = Some(*r.pick(&[0x7FFF_FFFC, 0x7FFF_FFFD, 0x7FFF_FFFF, 0x8000_0000, 1, 3]));
            "dimension size"
        }
        12 if !s.vars.is_empty() => {
            let i = r.below(s.vars.len());
            let n = *r.pick(&[1023usize, 1024, 1025, 1026]);
            let first = s.dims.len();
            for k in 0..n {
                s.dims.push(Dim { name: format!("many{}", k), size: Some(1) });
            }
            s.vars[i].dims = (first..first + n).collect();
            "rank"
        }
        13 => {
            l.numrecs_field = *r.pick(INTS);
            "numrecs"
        }
        14 if !s.vars.is_empty() => {
            let i = r.below(s.vars.len());
            l.begins[i] = *r.pick(&[0u64, 1, 3, 4, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 1 << 32, 1 << 40, i64::MAX as u64, (i64::MAX - 8) as u64, 1 << 63, u64::MAX]);
            "begin"
        }
        15 if !s.dims.is_empty() => {
            // sizes beyond 64 bits
            for d in s.dims.iter_mut() {
                if d.size.is_some() {
                    d.size = Some(*r.pick(&[0x7FFF_FFFC, 0x7FFF_FFF0, 0x4000_0000, 0x6000_0000, 0x1_0000]));
                }
            }
            "huge dimensions"
        }
        _ => "none",
    }
}

/// Field-aware mutation of the bytes.
fn byte_mutation(r: &mut Rng, b: &mut Vec<u8>, fields: &[Field], other: &[u8]) -> &'static str {
    if b.is_empty() {
        return "none";
    }
    let header: usize = fields.last().map_or(0, |f| f.off + f.len).min(b.len());
    match r.below(16) {
        0..=4 if !fields.is_empty() => {
            let f = r.pick(fields);
            if f.off + f.len > b.len() {
                return "none";
            }
            match f.len {
                4 => {
                    let old = u32::from_be_bytes([b[f.off], b[f.off + 1], b[f.off + 2], b[f.off + 3]]);
                    let x = match r.below(4) {
                        0 => old.wrapping_add(1),
                        1 => old.wrapping_sub(1),
                        _ => *r.pick(INTS),
                    };
                    b[f.off..f.off + 4].copy_from_slice(&x.to_be_bytes());
                }
                8 if f.kind == "var_begin" => {
                    let x = *r.pick(&[0u64, 1, 4, 1 << 31, 1 << 32, i64::MAX as u64, i64::MAX as u64 - 3, 1 << 63, u64::MAX, b.len() as u64, b.len() as u64 - 1]);
                    b[f.off..f.off + 8].copy_from_slice(&x.to_be_bytes());
                }
                _ => {
                    let i = r.below(f.len);
                    b[f.off + i] = *r.pick(&[0u8, 1, b'/', b'a', 0x7F, 0x80, 0xC3, 0xFF, b' ', 2, 3, 5]);
                }
            }
            "field"
        }
        5 if header > 0 => {
            let i = r.below(header);
            b[i] ^= 1 << r.below(8);
            "bit flip"
        }
        6 if header > 0 => {
            let i = r.below(header);
            b[i] = r.next() as u8;
            "byte"
        }
        7 if fields.len() > 1 => {
            // copy a field over another of the same size
            let f = r.pick(fields).clone();
            let same: Vec<&Field> = fields.iter().filter(|g| g.len == f.len && g.off != f.off).collect();
            if !same.is_empty() {
                let g = *r.pick(&same);
                if f.off + f.len <= b.len() && g.off + g.len <= b.len() {
                    let x = b[f.off..f.off + f.len].to_vec();
                    b[g.off..g.off + g.len].copy_from_slice(&x);
                }
            }
            "copied field"
        }
        8 => {
            let n = r.below(b.len());
            b.truncate(n);
            "cut"
        }
        9 if header > 0 => {
            let n = r.below(header);
            b.truncate(n);
            "cut in the header"
        }
        10 if !fields.is_empty() => {
            let f = r.pick(fields);
            if f.off + f.len <= b.len() {
                b.drain(f.off..f.off + f.len);
            }
            "removed field"
        }
        11 if !fields.is_empty() => {
            let f = r.pick(fields);
            if f.off + f.len <= b.len() {
                let x = b[f.off..f.off + f.len].to_vec();
                let tail = b.split_off(f.off);
                b.extend_from_slice(&x);
                b.extend_from_slice(&tail);
            }
            "doubled field"
        }
        12 if !other.is_empty() => {
            let (i, j) = (r.below(b.len()), r.below(other.len()));
            b.truncate(i);
            b.extend_from_slice(&other[j..]);
            "splice"
        }
        13 if header > 0 => {
            let i = r.below(header);
            let n = 1 + r.below(8);
            let x = if r.bool() { vec![0; n] } else { r.bytes(n) };
            let tail = b.split_off(i);
            b.extend_from_slice(&x);
            b.extend_from_slice(&tail);
            "inserted bytes"
        }
        14 => {
            let n = r.below(60);
            let x = r.bytes(n);
            b.extend_from_slice(&x);
            "trailing bytes"
        }
        _ => "none",
    }
}

/// A file, usually damaged. Returns also what was done.
pub fn hostile(r: &mut Rng, k: &Knobs) -> (Vec<u8>, String) {
    let mut what = vec![];
    if r.one_in(40) {
        let n = r.below(200);
        let mut b = r.bytes(n);
        if r.bool() {
            let mut x = b"CDF".to_vec();
            x.push(1 + r.below(3) as u8);
            x.append(&mut b);
            b = x;
        }
        return (b, "noise".to_string());
    }
    let mut s = if r.one_in(150) { wide_spec(r, k, 1, 20_000, &mut Default::default()) } else { any_spec(r, k) };
    let mut l = if r.bool() { gen::foreign(r, &s) } else { Layout::canonical(&s, 0) };
    let vals = gen::vals(r, &s);
    let valid = encode(&s, &l, &vals).0;
    let data = valid[(s.header_len() as usize).min(valid.len())..].to_vec();
    if r.bool() {
        for _ in 0..1 + r.below(2) {
            what.push(spec_mutation(r, &mut s, &mut l));
        }
    }
    let (mut b, fields) = encode_header(&s, &l);
    b.extend_from_slice(&data);
    let n = *r.pick(&[0usize, 1, 1, 1, 2, 3]);
    for _ in 0..n {
        what.push(byte_mutation(r, &mut b, &fields, &valid));
    }
    if cfg!(miri) {
        // (the interpreter takes minutes for the large ones)
        b.truncate(1500);
    }
    (b, what.join(", "))
}

// ------------------------------------------------------------------------------------------------

pub const C09: Prop = Prop {
    id: "C09",
    quick: 500000,
    thorough: 6250000,
    level: "exploration",
    rule: "damaged files (field-aware mutations of valid files: counts, lengths, sizes, offsets, names, tags, splices, cuts, noise; and large repetitive headers) are opened, observed, printed, read through every method and written again, under a memory budget proportional to the file, a CPU time limit, arithmetic overflow checks, and a monitor for panics and aborts; distinct by file content",
    assumptions: &["the budget is 64 times the size of the file plus 8 MB per call", "a call which needs 40 s of CPU on a file of at most 1 MB is an endless one"],
    required: &["files opened", "files rejected", "reads refused", "reads accepted", "definitions written again"],
    run: c09,
};

/// Tens of thousands of elements, cut or damaged in the last ones.
fn deep(r: &mut Rng) -> Vec<u8> {
    let n = 10_000 + r.below(3_000);
    let mut s = Spec::empty(1 + r.below(2) as u8);
    let attrs: Vec<Attr> = (0..n).map(|i| Attr { name: format!("{}", i), ty: Ty::I8, data: vec![] }).collect();
    let kind = r.below(5);
    match kind {
        0 => s.dims = (0..n).map(|i| Dim { name: format!("{}", i), size: Some(1) }).collect(),
        1 => s.gattrs = attrs,
        2 => s.vars = (0..n).map(|i| Var { name: format!("{}", i), dims: vec![], ty: Ty::I8, attrs: vec![] }).collect(),
        3 => s.vars = vec![Var { name: "v".into(), dims: vec![], ty: Ty::I8, attrs }],
        _ => {
            s.dims = vec![Dim { name: "d".into(), size: Some(1) }];
            s.vars = vec![Var { name: "v".into(), dims: vec![0; 4 * n], ty: Ty::I8, attrs: vec![] }];
        }
    }
    let l = Layout::canonical(&s, 0);
    let (mut b, f) = encode_header(&s, &l);
    // the last name, or a cut after the last element
    if kind < 2 && r.bool() {
        if let Some(x) = f.iter().rev().find(|x| x.kind == "name") {
            b[x.off] = 0xFF;
        }
    } else {
        let cut = b.len() - 4 - r.below(3);
        b.truncate(cut);
    }
    b
}

fn c09(c: &mut Ctx) -> Res {
    let (b, what) = match c.rng.below(60) {
        // (what is kept for each element, on the stack or elsewhere, adds up)
        _ if c.idx % if cfg!(feature = "plain") { 401 } else { 10007 } == 77 && !cfg!(miri) => (deep(&mut c.rng), "very many elements".to_string()),
        0 => {
            // many tiny elements
            let n = 200 + c.rng.below(c.scale(2000, 20000));
            let mut s = Spec::empty(1 + c.rng.below(2) as u8);
            match c.rng.below(6) {
                4..=5 => {
                    // variables of many dimensions: one, a few, or all different
                    let d = *c.rng.pick(&[1, 2, 3, 10, 1024, 1025, n]);
                    let long = if d < 20 && c.rng.bool() { 250 } else { 0 };
                    s.dims = (0..d).map(|i| Dim { name: format!("{}{}", i, "d".repeat(long)), size: Some(1) }).collect();
                    if c.rng.one_in(4) {
                        s.dims[0].size = None;
                    }
                    let kind = c.rng.below(3);
                    let m = 1 + c.rng.below(3);
                    for v in 0..m {
                        let dims = (0..n / m)
                            .map(|i| match kind {
                                0 => i % d,
                                1 => c.rng.below(d),
                                _ => d - 1 - i.min(d - 1),
                            })
                            .collect();
                        s.vars.push(Var { name: format!("{}", v), dims, ty: Ty::I8, attrs: vec![] });
                    }
                }
                0 => s.dims = (0..n).map(|i| Dim { name: format!("{}", i), size: Some(1) }).collect(),
                1 => s.gattrs = (0..n).map(|i| Attr { name: format!("{}", i), ty: Ty::I8, data: vec![] }).collect(),
                2 => s.vars = (0..n).map(|i| Var { name: format!("{}", i), dims: vec![], ty: Ty::I8, attrs: vec![] }).collect(),
                _ => s.gattrs = vec![Attr { name: "a".into(), ty: *c.rng.pick(&TYS), data: vec![7; n * 8] }],
            }
            let l = Layout::canonical(&s, 0);
            let (mut b, f) = encode_header(&s, &l);
            byte_mutation(&mut c.rng, &mut b, &f, &[]);
            (b, "many elements".to_string())
        }
        1 => {
            let n = c.rng.below(3000);
            (vec![*c.rng.pick(&[0u8, 0xFF, b'C']); n], "uniform".to_string())
        }
        _ => hostile(&mut c.rng, &Knobs { elems: 300, ..Knobs::default() }),
    };
    c.obs.distinct(hash_of(&b));
    c.obs.note(|| what.clone());
    let (path, out) = (c.path("a.nc"), c.path("b.nc"));
    put(&path, &b)?;
    let budget = b.len() * 64 + (8 << 20);
    if what == "very many elements" {
        // in a thread with little stack (Rust gives 2 MB to its threads)
        let p = path.clone();
        let t = std::thread::Builder::new().stack_size(1 << 19).spawn(move || FileReader::open(&p).is_ok()).map_err(|e| e.to_string())?;
        let x = t.join();
        check!(x.is_ok(), "panic while the file is opened");
        c.obs.add("very large headers opened with little stack", 1);
    }
    // opening
    let start = alloc::begin(budget);
    let opened = FileReader::open(&path);
    let peak = alloc::end(start);
    c.obs.max("memory for opening (bytes)", peak as u64);
    let mut rd = match opened {
        Err(e) => {
            let text = format!("{} {:?} {}", e, e, e.header_is_incomplete());
            c.obs.add("files rejected", 1);
            c.obs.sample(|| format!("{}: {}", what, text.chars().take(200).collect::<String>()));
            return Ok(());
        }
        Ok(rd) => rd,
    };
    c.obs.add("files opened", 1);
    // observing
    let start = alloc::begin(budget);
    let names = rd.data_set().get_var_names();
    let types: Vec<Ty> = rd.data_set().get_vars().iter().map(|v| ty(&v.data_type())).collect();
    let mut chunks = vec![];
    let mut total: u128 = 0;
    for v in rd.data_set().get_vars() {
        let _ = (v.len(), v.chunk_len(), v.chunk_size(), v.num_dims(), v.is_record_var());
        chunks.push(v.num_chunks());
        total += v.len() as u128 * v.data_type().size_of() as u128;
    }
    let _ = (rd.data_set().record_size(), rd.data_set().num_records());
    let _ = observe(rd.data_set(), 1);
    if names.len() < 300 {
        let _ = format!("{:?}", rd.data_set()).len();
    }
    alloc::end(start);
    // reading
    for (k, n) in names.iter().enumerate().take(60) {
        let start = alloc::begin(budget);
        let a = rd.read_var(n).map(|x| x.len());
        let t = if c.rng.bool() { types[k] } else { *c.rng.pick(&TYS) };
        let a2 = read_var_typed(&mut rd, n, t).map(|x| x.len());
        let mut records = vec![0usize, 1, chunks[k].saturating_sub(1), chunks[k], c.rng.next() as usize];
        if chunks[k] > 0 {
            records.push(c.rng.below(chunks[k]));
        }
        let mut ok = 0;
        let mut all = 2;
        for i in records {
            all += 1;
            let x = if c.rng.bool() { rd.read_record(n, i).map(|x| x.len()) } else { read_record_typed(&mut rd, n, i, types[k]).map(|x| x.len() / types[k].size()) };
            ok += x.is_ok() as u64;
            if i >= chunks[k] && x.is_ok() {
                alloc::end(start);
                return Err(format!("record {} of {} is read", i, chunks[k]));
            }
            if let Err(e) = x {
                let _ = format!("{}", e);
            }
        }
        ok += a.is_ok() as u64 + a2.is_ok() as u64;
        c.obs.add("reads accepted", ok);
        c.obs.add("reads refused", all - ok);
        let peak = alloc::end(start);
        c.obs.max("memory for reading a variable (bytes)", peak as u64);
    }
    if total < (b.len() as u128 + 1000) * 8 || total > (budget as u128) * 1000 {
        // all the values fit in the budget, or are far too numerous to be in the file
        let start = alloc::begin(budget + b.len() * 16);
        let _ = rd.read_all_vars().map(|m| m.len());
        alloc::end(start);
        c.obs.add("read_all_vars", 1);
    }
    // writing the definition again
    let (d, v) = rd.close();
    for v in [v, Version::Classic, Version::Offset64Bit] {
        let start = alloc::begin(budget);
        let mut w = FileWriter::open(&out).map_err(|e| format!("FileWriter::open: {:?}", e))?;
        let x = w.set_def(&d, v, 0).is_ok();
        drop(w);
        alloc::end(start);
        if x {
            c.obs.add("definitions written again", 1);
        }
    }
    check!(read(&path)? == b, "the file was modified");
    Ok(())
}

// ------------------------------------------------------------------------------------------------

pub const C10: Prop = Prop {
    id: "C10",
    quick: 750000,
    thorough: 6250000,
    level: "exploration",
    rule: "valid and damaged files (field-aware mutations of the bytes and violations of each rule of the definitions) are opened and judged by an independent strict decoder: accepted or not, definition obtained, and class of the error; distinct by file content",
    assumptions: &["the strict decoder is the file format with the rules documented by the library", "if several things are wrong, any of them can be reported"],
    required: &["accepted", "incomplete", "malformed", "invalid data set", "indeterminate number of records not computable"],
    run: c10,
};

pub fn kind_name(k: &K) -> &'static str {
    match k {
        K::MagicWord => "MagicWord",
        K::VersionNumber => "VersionNumber",
        K::NonNegativeI32 => "NonNegativeI32",
        K::ZeroPadding => "ZeroPadding",
        K::DimTag => "DimTag",
        K::AttrTag => "AttrTag",
        K::VarTag => "VarTag",
        K::DataType => "DataType",
        K::DataElements => "DataElements",
        K::Utf8 => "Utf8",
        K::Offset => "Offset",
    }
}

pub fn variant(e: &InvalidDataSet) -> String {
    format!("{:?}", e).chars().take_while(|c| c.is_ascii_alphanumeric()).collect()
}

/// Compares the outcome of `open` with the strict decoder.
pub fn judge_open(b: &[u8], d: &Decoded, got: &Result<FileReader, ReadError>, obs: &mut crate::report::Obs) -> Result<(), String> {
    let invalid_reported = |e: &ReadError| match e {
        ReadError::DataSet(x) => d.invalid.iter().any(|y| variant(y) == variant(x)),
        _ => false,
    };
    let brief = |e: &ReadError| format!("{:?}", e).chars().take(300).collect::<String>();
    match (&d.syntax, got) {
        (Err(bad), Ok(_)) => Err(format!("a header which is {:?} is accepted", bad)),
        (Err(bad), Err(e)) => {
            if invalid_reported(e) {
                return Ok(());
            }
            let (incomplete, kinds): (bool, &[&str]) = match bad {
                Bad::Incomplete => (true, &[]),
                Bad::Malformed(k) => (false, k),
                Bad::Either(k) => (true, k),
            };
            let said = match e {
                ReadError::ParseHeader(p) if p.header_is_incomplete() => {
                    check!(e.header_is_incomplete(), "header_is_incomplete() is false for {}", brief(e));
                    obs.add("incomplete", 1);
                    incomplete
                }
                ReadError::ParseHeader(p) => {
                    check!(!e.header_is_incomplete(), "header_is_incomplete() is true for {}", brief(e));
                    obs.add("malformed", 1);
                    obs.add(&format!("malformed {}", kind_name(&p.kind)), 1);
                    kinds.contains(&kind_name(&p.kind))
                }
                _ => false,
            };
            check!(said, "the header is {:?} but the error is {}", bad, brief(e));
            Ok(())
        }
        (Ok(_), Err(e)) if !d.invalid.is_empty() => {
            check!(invalid_reported(e), "the definition breaks {:?} but the error is {}", d.invalid, brief(e));
            obs.add("invalid data set", 1);
            obs.add(&format!("invalid {}", variant(&d.invalid[0])), 1);
            Ok(())
        }
        (Ok(h), Ok(_)) if !d.invalid.is_empty() => Err(format!("a definition which breaks {:?} is accepted ({})", d.invalid, h.spec.vars.len())),
        (Ok(_), _) if d.negative_begin => {
            obs.add("negative offsets", 1);
            Ok(())
        }
        (Ok(_), Err(e)) if d.no_numrecs => {
            check!(*e == ReadError::ComputationNumberOfRecords, "the number of records cannot be computed but the error is {}", brief(e));
            obs.add("indeterminate number of records not computable", 1);
            Ok(())
        }
        (Ok(h), Ok(_)) if d.no_numrecs => Err(format!("the number of records cannot be computed (file of {} bytes) but the file is accepted ({})", b.len(), h.spec.brief())),
        (Ok(h), Err(e)) => Err(format!("a well-formed header is rejected with {} ({})", brief(e), h.spec.brief())),
        (Ok(h), Ok(rd)) => {
            obs.add("accepted", 1);
            check_def(rd, &h.spec)
        }
    }
}

fn c10(c: &mut Ctx) -> Res {
    let (b, what) = hostile(&mut c.rng, &Knobs::small());
    let path = c.path("a.nc");
    put(&path, &b)?;
    c.obs.distinct(hash_of(&b));
    let d = decode(&b);
    let got = FileReader::open(&path);
    c.obs.note(|| what.clone());
    judge_open(&b, &d, &got, &mut c.obs).map_err(|e| format!("{} (mutation: {})", e, what))?;
    c.obs.sample(|| format!("{}: {:?}", what, got.as_ref().err()).chars().take(200).collect());
    Ok(())
}

// ------------------------------------------------------------------------------------------------

pub const C11: Prop = Prop {
    id: "C11",
    quick: 16000,
    thorough: 150000,
    level: "fault_enumeration",
    rule: "files of any conforming layout cut at every byte (every byte up to 1500 positions, otherwise every byte of the end of the header and of the data borders, and random positions): outcome of open, of each variable and of each record judged by the strict decoder on the cut bytes; distinct by cut file",
    assumptions: &["the strict decoder is the file format"],
    required: &["cuts", "cut headers", "records present", "records missing", "variables present", "variables missing"],
    run: c11,
};

fn c11(c: &mut Ctx) -> Res {
    let k = Knobs { elems: 60, ..Knobs::small() };
    let s = if c.rng.one_in(100) { wide_spec(&mut c.rng, &k, 1, 20_000, &mut c.obs) } else { any_spec(&mut c.rng, &k) };
    let vals = gen::vals(&mut c.rng, &s);
    let l = if c.rng.bool() { gen::foreign(&mut c.rng, &s) } else { Layout::canonical(&s, 0) };
    let b = encode(&s, &l, &vals).0;
    let path = c.path("a.nc");
    put(&path, &b)?;
    let mut cuts: Vec<usize> = if b.len() <= 1500 {
        (0..b.len()).collect()
    } else {
        let h = s.header_len() as usize;
        let mut v: Vec<usize> = (h.saturating_sub(20)..(h + 40).min(b.len())).collect();
        let mut slabs = s.slabs();
        if slabs.len() > 60 {
            // some of them, with the last ones
            let keep = slabs.split_off(slabs.len() - 6);
            c.rng.shuffle(&mut slabs);
            slabs.truncate(20);
            slabs.extend(keep);
        }
        let many = if s.slabs().len() > 60 || b.len() > 20000 { 15 } else { 200 };
        for (x, k) in slabs {
            let (o, n, p) = s.range(&l.begins, x, k);
            for e in [o, o + n, o + n + p] {
                v.extend((e.saturating_sub(2)..=e + 1).map(|x| x as usize).filter(|x| *x < b.len()));
            }
        }
        for _ in 0..many {
            v.push(c.rng.below(b.len()));
        }
        v.sort();
        v.dedup();
        v
    };
    if cfg!(miri) {
        c.rng.shuffle(&mut cuts);
        cuts.truncate(12);
        cuts.sort();
    }
    if s.header_len() > 16_000 {
        // opening takes a time which grows with the square of the header
        c.rng.shuffle(&mut cuts);
        cuts.truncate(50);
        cuts.sort();
    }
    cuts.reverse();
    let f = std::fs::OpenOptions::new().write(true).open(&path).map_err(|e| e.to_string())?;
    for cut in cuts {
        f.set_len(cut as u64).map_err(|e| e.to_string())?;
        let part = &b[..cut];
        c.obs.add("cuts", 1);
        c.obs.distinct(hash_of(&part));
        let d = decode(part);
        let got = FileReader::open(&path);
        judge_open(part, &d, &got, &mut c.obs).map_err(|e| format!("cut at {} of {}: {} ({})", cut, b.len(), e, s.brief()))?;
        let h = match &d.syntax {
            Err(_) => {
                check!(got.err().map_or(false, |e| e.header_is_incomplete()), "cut at {} of {}, inside the header, but the error does not tell that it is incomplete ({})", cut, b.len(), s.brief());
                c.obs.add("cut headers", 1);
                continue;
            }
            Ok(h) => h,
        };
        let mut rd = match got {
            Ok(rd) => rd,
            Err(_) => continue,
        };
        let mut all_present = true;
        for v in 0..h.spec.vars.len() {
            let name = &h.spec.vars[v].name;
            let t = h.spec.vars[v].ty;
            let n = h.spec.nchunks(v);
            let mut whole: Option<Vec<u8>> = Some(vec![]);
            for k in 0..n {
                let want = h.chunk(part, v, k);
                let got = if c.rng.bool() { rd.read_record(name, k).map(|x| dv(&x).1) } else { read_record_typed(&mut rd, name, k, t) };
                match (want, got) {
                    (Some(w), Ok(g)) => {
                        check!(w == &g[..], "cut at {} of {}: record {} of {:?}: {} ({})", cut, b.len(), k, name, diff(&g, w).unwrap_or_default(), s.brief());
                        c.obs.add("records present", 1);
                    }
                    (Some(_), Err(e)) => return Err(format!("cut at {} of {}: record {} of {:?} is present but refused with {:?} ({})", cut, b.len(), k, name, e, s.brief())),
                    (None, Ok(g)) => return Err(format!("cut at {} of {}: record {} of {:?} is not complete but {} bytes are returned ({})", cut, b.len(), k, name, g.len(), s.brief())),
                    (None, Err(e)) => {
                        check!(matches!(e, ReadError::IOErrorKind(_)), "cut at {}: missing record {} of {:?}: {:?}", cut, k, name, e);
                        c.obs.add("records missing", 1);
                    }
                }
                match (want, whole.as_mut()) {
                    (Some(w), Some(x)) => x.extend_from_slice(w),
                    _ => whole = None,
                }
            }
            let got = if c.rng.bool() { rd.read_var(name).map(|x| dv(&x).1) } else { read_var_typed(&mut rd, name, t) };
            match (&whole, got) {
                (Some(w), Ok(g)) => {
                    check!(*w == g, "cut at {} of {}: {:?}: {} ({})", cut, b.len(), name, diff(&g, w).unwrap_or_default(), s.brief());
                    c.obs.add("variables present", 1);
                }
                (Some(_), Err(e)) => return Err(format!("cut at {} of {}: variable {:?} is present but refused with {:?} ({})", cut, b.len(), name, e, s.brief())),
                (None, Ok(g)) => return Err(format!("cut at {} of {}: variable {:?} is not complete but {} bytes are returned ({})", cut, b.len(), name, g.len(), s.brief())),
                (None, Err(_)) => {
                    all_present = false;
                    c.obs.add("variables missing", 1)
                }
            }
        }
        let all = rd.read_all_vars();
        check!(all.is_ok() == all_present, "cut at {} of {}: read_all_vars gives {:?} ({})", cut, b.len(), all.as_ref().map(|m| m.len()), s.brief());
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------

pub const C17: Prop = Prop {
    id: "C17",
    quick: 45000,
    thorough: 375000,
    level: "fault_enumeration",
    rule: "a sequence (open, then reads) on a conforming file is run once to count its read and seek calls, then once per call and per fault (1-byte transfer, interruption, I/O error, I/O error after a partial transfer, end of file; error of a seek; error or interruption of the opening; error when the size of the file is asked for), and with random disturbance of every call; the result of each library call is judged; distinct by file, call and fault",
    assumptions: &["the library reaches the file through the C library functions read, readv, pread, lseek, which the harness interposes"],
    required: &["faults absorbed", "faults reported", "disturbed runs", "opens failed", "faults of an opening"],
    run: c17,
};

#[derive(Clone, Debug)]
enum ROp {
    Var(usize, bool),
    Rec(usize, usize, bool),
    All,
}

fn do_read(rd: &mut FileReader, s: &Spec, vals: &Vals, op: &ROp) -> Result<Result<(), String>, ReadError> {
    Ok(match op {
        ROp::Var(v, typed) => {
            let x = &s.vars[*v];
            let b = if *typed { sys::with(|| read_var_typed(rd, &x.name, x.ty))? } else { dv(&sys::with(|| rd.read_var(&x.name))?).1 };
            diff(&b, &vals[*v].concat()).map_or(Ok(()), Err)
        }
        ROp::Rec(v, i, typed) => {
            let x = &s.vars[*v];
            let b = if *typed { sys::with(|| read_record_typed(rd, &x.name, *i, x.ty))? } else { dv(&sys::with(|| rd.read_record(&x.name, *i))?).1 };
            diff(&b, &vals[*v][*i]).map_or(Ok(()), Err)
        }
        ROp::All => {
            let all = sys::with(|| rd.read_all_vars())?;
            let ok = all.len() == s.vars.len() && s.vars.iter().enumerate().all(|(v, x)| all.get(&x.name).map(dv) == Some((x.ty, vals[v].concat())));
            if ok { Ok(()) } else { Err("read_all_vars differs".to_string()) }
        }
    })
}

/// What a call may do with a fault.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Absorb {
    /// No effect: the call succeeds
    Always,
    /// The call fails
    Never,
    /// It fails, or succeeds with the exact values (an end of file which is met early is not an
    /// error when nothing more was needed)
    Either,
}

/// Runs the sequence; each call which met a fault must be as `absorb` says, the others exact.
fn read_sequence(path: &Path, s: &Spec, vals: &Vals, ops: &[ROp], absorb: Absorb, kind: Option<std::io::ErrorKind>, obs: &mut crate::report::Obs) -> Result<(), String> {
    let before = sys::state().hits;
    let mut rd = match sys::with(|| FileReader::open(path)) {
        Ok(rd) => {
            check!(absorb != Absorb::Never || sys::state().hits == before, "a fault while opening was not reported");
            rd
        }
        Err(e) => {
            check!(sys::state().hits > before, "opening fails without fault: {:?}", e);
            check!(absorb != Absorb::Always, "opening fails because of a partial or interrupted read: {:?}", e);
            judge_fault(&e, kind)?;
            obs.add("opens failed", 1);
            obs.add("faults reported", 1);
            // nothing stays behind
            sys::with(|| FileReader::open(path)).map_err(|e| format!("opening again after a fault: {:?}", e))?
        }
    };
    check_def(&rd, s)?;
    for (k, op) in ops.iter().enumerate() {
        let before = sys::state().hits;
        let got = do_read(&mut rd, s, vals, op);
        let hit = sys::state().hits > before;
        match got {
            Ok(x) => {
                check!(absorb != Absorb::Never || !hit, "read {} ({:?}) succeeds although one of its reads or seeks failed", k, op);
                x.map_err(|e| format!("read {} ({:?}) {}: {}", k, op, if hit { "with a partial or interrupted read" } else { "" }, e))?;
            }
            Err(e) => {
                check!(hit, "read {} ({:?}) fails without fault: {:?}", k, op, e);
                check!(absorb != Absorb::Always, "read {} ({:?}) fails because of a partial or interrupted read: {:?}", k, op, e);
                judge_fault(&e, kind)?;
                obs.add("faults reported", 1);
                // the same call again gives the values
                do_read(&mut rd, s, vals, op).map_err(|e| format!("read {} ({:?}) again after a fault: {:?}", k, op, e))?.map_err(|e| format!("read {} ({:?}) again after a fault: {}", k, op, e))?;
            }
        }
    }
    check_def(&rd, s)
}

fn judge_fault(e: &ReadError, kind: Option<std::io::ErrorKind>) -> Result<(), String> {
    match (e, kind) {
        (ReadError::IOErrorKind(k), Some(w)) => {
            check!(*k == w, "the error is {:?} instead of {:?}", k, w);
            Ok(())
        }
        (ReadError::IOErrorKind(_), None) => Ok(()),
        // the end of the file met too early
        (ReadError::ParseHeader(_), None) => Ok(()),
        _ => Err(format!("a fault is reported as {:?}", e)),
    }
}

pub fn c17(c: &mut Ctx) -> Res {
    if !sys::available() {
        return Ok(());
    }
    let mut s = gen::spec(&mut c.rng, &Knobs::tiny());
    if c.rng.one_in(3) {
        let t = *c.rng.pick(&[1000u64, 1024, 1028, 2048, 2100]);
        gen::stretch_header(&mut c.rng, &mut s, t);
    }
    if c.rng.one_in(100) {
        let what = gen::enlarge(&mut c.rng, &mut s, 20_000);
        c.obs.add(&format!("large {}", what), 1);
    }
    let vals = gen::vals(&mut c.rng, &s);
    let l = gen::foreign(&mut c.rng, &s);
    let b = encode(&s, &l, &vals).0;
    let path = c.path("a.nc");
    put(&path, &b)?;
    let mut ops = vec![ROp::All];
    for _ in 0..5 {
        if s.vars.is_empty() {
            break;
        }
        let v = c.rng.below(s.vars.len());
        let n = s.nchunks(v);
        let typed = c.rng.bool();
        ops.push(if n > 0 && c.rng.bool() { ROp::Rec(v, c.rng.below(n), typed) } else { ROp::Var(v, typed) });
    }
    let t = s.brief();
    c.obs.sample(|| format!("{}; reads {:?}", t, ops));
    // without fault
    sys::reset(vec![], false);
    read_sequence(&path, &s, &vals, &ops, Absorb::Always, None, &mut c.obs).map_err(|e| format!("{} ({})", e, s.brief()))?;
    let (reads, seeks) = (sys::state().count[Class::Read as usize], sys::state().count[Class::Seek as usize]);
    let (opens, stats) = (sys::state().count[Class::Open as usize], sys::state().count[Class::Stat as usize]);
    assert!(opens > 0, "the interposition sees no opening");
    c.obs.add("read calls seen", reads);
    c.obs.add("seek calls seen", seeks);
    let limit = if b.len() > 10_000 { 12 } else { c.scale(60, 400) as u64 };
    let pick = |r: &mut Rng, n: u64| -> Vec<u64> {
        if n <= limit {
            (0..n).collect()
        } else {
            (0..limit).map(|_| r.below(n as usize) as u64).collect()
        }
    };
    for i in pick(&mut c.rng, reads) {
        let n = 1 + c.rng.below(7);
        let e = *c.rng.pick(&[5, 5, 5, 5, 9, 11, 12, 22, 32, 110, 116]);
        let kind = std::io::Error::from_raw_os_error(e).kind();
        let faults = [
            (Fault::Short(1), Absorb::Always, None),
            (Fault::Short(n), Absorb::Always, None),
            (Fault::Eintr, Absorb::Always, None),
            (Fault::Err(e), Absorb::Never, Some(kind)),
            (Fault::ShortThenErr(n, e), Absorb::Never, Some(kind)),
            (Fault::Zero, Absorb::Either, None),
        ];
        for (f, absorb, kind) in faults {
            sys::reset(vec![(Class::Read, i, f)], false);
            read_sequence(&path, &s, &vals, &ops, absorb, kind, &mut c.obs).map_err(|e| format!("{:?} at read {}: {} ({})", f, i, e, s.brief()))?;
            if absorb == Absorb::Always && sys::state().hits > 0 {
                c.obs.add("faults absorbed", 1);
            }
            c.obs.distinct(hash_of(&(c.idx, 0u8, i, format!("{:?}", f))));
        }
    }
    for i in pick(&mut c.rng, seeks) {
        let e = *c.rng.pick(&[5, 5, 5, 9, 11, 22, 29, 75, 116]);
        let kind = std::io::Error::from_raw_os_error(e).kind();
        sys::reset(vec![(Class::Seek, i, Fault::Err(e))], false);
        read_sequence(&path, &s, &vals, &ops, Absorb::Never, Some(kind), &mut c.obs).map_err(|e| format!("error at seek {}: {} ({})", i, e, s.brief()))?;
        // (a seek may be repeated, or fail, when it is interrupted)
        sys::reset(vec![(Class::Seek, i, Fault::Eintr)], false);
        read_sequence(&path, &s, &vals, &ops, Absorb::Either, Some(std::io::ErrorKind::Interrupted), &mut c.obs).map_err(|e| format!("interruption at seek {}: {} ({})", i, e, s.brief()))?;
        c.obs.distinct(hash_of(&(c.idx, 1u8, i)));
    }
    // the file cannot be opened, or asked for its size
    for i in pick(&mut c.rng, opens) {
        let e = *c.rng.pick(&[1, 2, 5, 12, 13, 20, 21, 23, 24, 40, 116]);
        let kind = std::io::Error::from_raw_os_error(e).kind();
        sys::reset(vec![(Class::Open, i, Fault::Err(e))], false);
        read_sequence(&path, &s, &vals, &ops, Absorb::Never, Some(kind), &mut c.obs).map_err(|m| format!("error {} of an opening: {} ({})", e, m, s.brief()))?;
        sys::reset(vec![(Class::Open, i, Fault::Eintr)], false);
        read_sequence(&path, &s, &vals, &ops, Absorb::Always, None, &mut c.obs).map_err(|m| format!("interrupted opening: {} ({})", m, s.brief()))?;
        c.obs.add("faults of an opening", 2);
        c.obs.distinct(hash_of(&(c.idx, 2u8, i, e)));
    }
    for i in pick(&mut c.rng, stats) {
        let e = *c.rng.pick(&[5, 9, 12, 13, 75, 116]);
        let kind = std::io::Error::from_raw_os_error(e).kind();
        sys::reset(vec![(Class::Stat, i, Fault::Err(e))], false);
        read_sequence(&path, &s, &vals, &ops, Absorb::Either, Some(kind), &mut c.obs).map_err(|m| format!("error {} when the size of the file is asked for: {} ({})", e, m, s.brief()))?;
        c.obs.add("faults of the size of the file", 1);
        c.obs.distinct(hash_of(&(c.idx, 3u8, i, e)));
    }
    for pct in [20, 60, 95] {
        sys::reset(vec![], false);
        sys::noise(Rng::new(c.rng.next()), Class::Read, pct);
        read_sequence(&path, &s, &vals, &ops, Absorb::Always, None, &mut c.obs).map_err(|e| format!("with {} % of the reads partial or interrupted: {} ({})", pct, e, s.brief()))?;
        c.obs.add("disturbed runs", 1);
        c.obs.add("faults absorbed", sys::state().hits);
    }
    sys::reset(vec![], false);
    check!(read(&path)? == b, "reading modified the file");
    Ok(())
}
