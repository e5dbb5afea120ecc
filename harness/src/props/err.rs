//! What the errors say.

use super::reader::{hostile, kind_name, variant};
use super::{defs, reader, writer, Prop};
use crate::check;
use crate::gen::Knobs;
use crate::drive::*;
use crate::gen;
use crate::model::{self, same_error, Edit, Model};
use crate::report::{hash_of, Ctx, Res};
use crate::spec::*;
use netcdf3::error::parse_header_error::InvalidBytes;
use netcdf3::{DataSet, FileReader, FileWriter, ReadError, Version, WriteError};

pub const C28: Prop = Prop {
    id: "C28",
    quick: 240000,
    thorough: 3000000,
    level: "exploration",
    rule: "damaged files are opened twice, and the error is compared with the facts found by an independent decoder: the bytes shown are those of the malformed field, the names, numbers and identifiers are those of the elements which break the rule; refused edits, writes and reads return the error, with its content, which their model computes; faults of the system are returned with their kind; distinct by file or history",
    assumptions: &["if several things are wrong, any of them can be reported, with its own content", "of the bytes of a malformed field and those after it, any number can be shown"],
    required: &["malformed fields located", "invalid definitions described", "errors repeated", "edits refused", "files unchanged after an error", "faults reported", "wrong types", "records out of range", "crowded definitions", "wrong lengths for huge variables", "texts of errors"],
    run: c28,
};

/// Data sets of few dimensions and many variables, and the other way round.
fn crowded(c: &mut Ctx) -> Res {
    let few = c.rng.bool();
    let (nd, nv) = if few { (1 + c.rng.below(2), 1 + c.rng.below(40)) } else { (1 + c.rng.below(40), c.rng.below(3)) };
    let mut m = Model::default();
    let mut d = DataSet::new();
    let unlim = c.rng.bool();
    let names: Vec<String> = (0..nd).map(|i| format!("d{}", i)).collect();
    let mut trace = vec![];
    let mut edits = vec![];
    for (i, n) in names.iter().enumerate() {
        edits.push(if i == 0 && unlim { Edit::AddUnlimited(n.clone(), 2) } else { Edit::AddFixed(n.clone(), 1 + i) });
    }
    for i in 0..nv {
        let mut ds: Vec<String> = names.iter().filter(|_| c.rng.bool()).cloned().collect();
        if c.rng.one_in(10) {
            ds.clear();
        }
        edits.push(Edit::AddVar(format!("v{}", i), ds, *c.rng.pick(&TYS)));
    }
    for e in edits {
        trace.push(format!("{:?}", e));
        model::step(&mut m, &mut d, &e, &mut c.rng, &mut c.obs)?;
    }
    for _ in 0..8 {
        let n = c.rng.below(nd + 6);
        let mut ds: Vec<String> = (0..n).map(|_| if c.rng.one_in(5) { format!("no{}", c.rng.below(3)) } else { c.rng.pick(&names).clone() }).collect();
        if c.rng.bool() {
            c.rng.shuffle(&mut ds);
        }
        let e = match c.rng.below(4) {
            0 => Edit::AddVar(format!("w{}", c.rng.below(3)), ds, *c.rng.pick(&TYS)),
            1 if nv > 0 => Edit::RemoveVar(format!("v{}", c.rng.below(nv))),
            _ => Edit::RemoveDim(c.rng.pick(&names).clone()),
        };
        trace.push(format!("{:?}", e));
        model::step(&mut m, &mut d, &e, &mut c.rng, &mut c.obs).map_err(|x| format!("{} (history: {})", x, trace.join("; ")))?;
    }
    for _ in 0..8 {
        defs::by_ids(&d, &d.get_dims(), &mut c.rng, 12)?;
    }
    c.obs.add("crowded definitions", 1);
    c.obs.distinct(hash_of(&trace));
    c.obs.sample(|| trace.join("; "));
    Ok(())
}

/// Writes of a wrong length to variables of any size.
fn wrong_lengths(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let mut s = Spec::empty(2);
    s.dims.push(Dim { name: "t".into(), size: None });
    let records = [1usize, 3, 65536, i32::MAX as usize, 1 << 31, 1 << 32, 1 << 40, 1 << 62, usize::MAX];
    s.numrecs = *r.pick(&records);
    let k = 1 + r.below(3);
    for i in 0..k {
        let sizes = [1usize, 2, 3, 1000, 65536, 1 << 20, 1 << 30, defs::MAX_DIM];
        s.dims.push(Dim { name: format!("d{}", i), size: Some(*r.pick(&sizes)) });
    }
    for i in 0..1 + r.below(3) {
        let mut dims: Vec<usize> = (1..=k).filter(|_| r.bool()).collect();
        if r.pct(70) {
            dims.insert(0, 0);
        }
        s.vars.push(Var { name: format!("v{}", i), dims, ty: *r.pick(&TYS), attrs: vec![] });
    }
    let d = build(&s, r).map_err(|e| format!("a valid definition is refused: {:?}", e))?;
    let text = s.brief();
    let path = c.path("w.nc");
    let mut w = FileWriter::open(&path).map_err(|e| format!("open: {:?}", e))?;
    c.obs.distinct(hash_of(&s));
    if w.set_def(&d, Version::Offset64Bit, 0).is_err() {
        c.obs.add("definitions too large", 1);
        return Ok(());
    }
    c.obs.sample(|| text.clone());
    for _ in 0..8 {
        let r = &mut c.rng;
        let v = r.below(s.vars.len());
        let x = &s.vars[v];
        let chunk = x.dims.iter().filter_map(|d| s.dims[*d].size).fold(1u128, |p, n| p.saturating_mul(n as u128));
        let n = if x.dims.first() == Some(&0) { s.numrecs } else { 1 };
        let all = chunk.saturating_mul(n as u128);
        let len = *r.pick(&[0usize, 1, 2, 5, 1000]);
        let index = *r.pick(&[0usize, 1, n - 1, n, n / 2, usize::MAX]);
        let data = gen::values(r, x.ty, len);
        let (got, req) = if r.bool() { (write_record(&mut w, &x.name, index, x.ty, &data), chunk) } else { (write_var(&mut w, &x.name, x.ty, &data), all) };
        let what = format!("{} values for {:?} of {} chunks of {} (record {}): {:?}; {}", len, x.name, n, chunk, index, got, text);
        if len as u128 == req {
            // (or a record which does not exist, or out of the reach of a file)
            continue;
        }
        let ok = |name: &str, need: usize, get: usize| name == x.name && get == len && if req > usize::MAX as u128 { need >= 1 << 63 } else { need as u128 == req };
        match &got {
            Ok(()) => return Err(format!("a wrong length is accepted: {}", what)),
            Err(WriteError::RecordIndexExceeded { index: i, num_records }) => check!(*i == index && index >= n && *num_records == n, "wrong record: {}", what),
            Err(WriteError::RecordMismatchDataLength { var_name, req, get }) | Err(WriteError::VariableMismatchDataLength { var_name, req, get }) => check!(ok(var_name, *req, *get), "wrong length: {}", what),
            Err(_) => return Err(format!("another error: {}", what)),
        }
        c.obs.add("wrong lengths", 1);
        if all > usize::MAX as u128 {
            c.obs.add("wrong lengths for huge variables", 1);
        }
    }
    Ok(())
}

/// The text of an error shows what the error holds.
fn texts(c: &mut Ctx) -> Res {
    use netcdf3::error::InvalidDataSet as I;
    let r = &mut c.rng;
    let ty = |t: Ty| dt(t);
    for _ in 0..2 + r.below(6) {
        let name = |r: &mut crate::rng::Rng| -> String {
            let n = if r.one_in(8) { 1 + r.below(600) } else { 1 + r.below(12) };
            let x = gen::name(r);
            x.chars().cycle().take(n).collect()
        };
        let (a, b) = (name(r), name(r));
        let most = if r.one_in(4) { 40 } else { 4 };
        let n = r.below(most);
        let l: Vec<String> = (0..n).map(|_| name(r)).collect();
        let nums = [0usize, 1, 9, 77, 65536, 1 << 31, 1 << 40, usize::MAX];
        let (x, y) = (*r.pick(&nums), *r.pick(&nums));
        let (t, u) = (*r.pick(&TYS), *r.pick(&TYS));
        let mut with: Vec<String> = l.clone();
        with.push(a.clone());
        let ab = vec![a.clone(), b.clone()];
        let one = vec![a.clone()];
        let (e, shown, k): (I, Vec<String>, Vec<usize>) = match r.below(19) {
            0 => (I::DimensionAlreadyExists(a), one, vec![]),
            1 => (I::DimensionNotDefined(a), one, vec![]),
            2 => (I::DimensionsNotDefined { var_name: a, undef_dim_names: l }, with, vec![]),
            3 => (I::DimensionsUsedMultipleTimes { var_name: a, get_dim_names: l }, with, vec![]),
            4 => (I::UnlimitedDimensionAlreadyExists(a), one, vec![]),
            5 => (I::DimensionYetUsed { var_names: l, dim_name: a }, with, vec![]),
            6 => (I::DimensionNameNotValid(a), one, vec![]),
            7 => (I::DimensionIdsNotFound { defined: vec![x, y], searched: vec![y], not_found: vec![x] }, vec![], vec![x, y]),
            8 => (I::FixedDimensionWithZeroSize(a), one, vec![]),
            9 => (I::MaximumFixedDimensionSizeExceeded { dim_name: a, get: x }, one, vec![x]),
            10 => (I::VariableAttributeAlreadyExists { var_name: a, attr_name: b }, ab, vec![]),
            11 => (I::VariableAttributeNotDefined { var_name: a, attr_name: b }, ab, vec![]),
            12 => (I::VariableAttributeNameNotValid { var_name: a, attr_name: b }, ab, vec![]),
            13 => (I::VariableNotDefined(a), one, vec![]),
            14 => (I::VariableMismatchDataType { var_name: a, req: ty(t), get: ty(u) }, one, vec![]),
            15 => (I::VariableMismatchDataLength { var_name: a, req: x, get: y }, one, vec![x, y]),
            16 => {
                let mut all = with.clone();
                all.push(b.clone());
                (I::UnlimitedDimensionMustBeDefinedFirst { var_name: a, unlim_dim_name: b, get_dim_names: l }, all, vec![])
            }
            17 => (I::MaximumDimensionsPerVariableExceeded { var_name: a, num_dims: x }, one, vec![x]),
            _ => (I::GlobalAttributeNotDefined(a), one, vec![]),
        };
        let (text, id) = match r.below(3) {
            0 => (e.to_string(), format!("{:?}", e)),
            1 => {
                let e = ReadError::DataSet(e);
                check!(e == e.clone(), "an error is not equal to its copy: {:?}", e);
                (e.to_string(), format!("{:?}", e))
            }
            _ => {
                let e: Box<dyn std::error::Error> = Box::new(ReadError::from(e));
                (e.to_string(), format!("{:?}", e))
            }
        };
        for s in &shown {
            let escaped = format!("{:?}", s);
            check!(text.contains(s.as_str()) || text.contains(&escaped[1..escaped.len() - 1]), "{:?} is missing from the text of an error: {:?} (the error is {})", s, text, id);
        }
        for n in k {
            check!(text.contains(&n.to_string()), "{} is missing from the text of an error: {:?} (the error is {})", n, text, id);
        }
        c.obs.distinct(hash_of(&id));
        c.obs.add("texts of errors", 1);
    }
    Ok(())
}

fn c28(c: &mut Ctx) -> Res {
    if c.idx % 32 == 24 {
        return texts(c);
    }
    if c.idx % 32 == 8 {
        return crowded(c);
    }
    if c.idx % 32 == 16 {
        return wrong_lengths(c);
    }
    match c.idx % 8 {
        1 => return defs::c12(c),
        2 => return defs::c13(c),
        3 if c.idx % 16 == 3 => return writer::c07(c),
        4 if c.idx % 16 == 4 => return reader::c08(c),
        5 if c.idx % 64 == 5 => return writer::c16(c),
        6 if c.idx % 64 == 6 => return reader::c17(c),
        7 if c.idx % 64 == 7 => return writer::c25(c),
        _ => {}
    }
    let (b, what) = hostile(&mut c.rng, &Knobs::small());
    let path = c.path("a.nc");
    std::fs::write(&path, &b).map_err(|e| format!("harness: {}", e))?;
    c.obs.distinct(hash_of(&b));
    c.obs.note(|| what.clone());
    let e = match FileReader::open(&path) {
        Ok(_) => {
            c.obs.add("files accepted", 1);
            return Ok(());
        }
        Err(e) => e,
    };
    let text: String = format!("{:?}", e).chars().take(400).collect();
    c.obs.sample(|| format!("{}: {}", what, text));
    let d = decode(&b);
    match &e {
        ReadError::ParseHeader(p) => {
            let kinds: &[&str] = match &d.syntax {
                Err(Bad::Malformed(k)) | Err(Bad::Either(k)) => k,
                _ => &[],
            };
            if let InvalidBytes::Bytes(x) = &p.invalid_bytes {
                check!(kinds.contains(&kind_name(&p.kind)), "the header is {:?} but the error is {} ({})", d.syntax, text, what);
                check!(!x.is_empty() || d.at == b.len(), "the error shows no byte of the field malformed at {}: {} ({})", d.at, text, what);
                check!(b[d.at..].starts_with(x), "the bytes shown are not those of the field malformed, at {}: {} ({})", d.at, text, what);
                c.obs.add("malformed fields located", 1);
            } else {
                c.obs.add("incomplete headers", 1);
            }
        }
        ReadError::DataSet(x) => {
            check!(d.invalid.iter().any(|y| same_error(x, y)), "the error is {} instead of one of {:?} ({})", text, d.invalid, what);
            c.obs.add("invalid definitions described", 1);
            c.obs.add(&format!("described: {}", variant(x)), 1);
        }
        ReadError::ComputationNumberOfRecords => c.obs.add("number of records not computable", 1),
        _ => return Err(format!("a header is rejected with {} ({})", text, what)),
    }
    // the same again
    match FileReader::open(&path) {
        Ok(_) => return Err(format!("opening again succeeds after {}", text)),
        Err(f) => {
            check!(e == f && f == e && e.clone() == f, "opening again gives {:?} after {}", f, text);
            check!(format!("{:?}", e) == format!("{:?}", f) && e.to_string() == f.to_string(), "the two errors are equal and not displayed alike: {}", text);
            check!(!e.to_string().is_empty(), "nothing is displayed for {}", text);
            c.obs.add("errors repeated", 1);
        }
    }
    Ok(())
}
