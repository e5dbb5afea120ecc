//! Drives the real library: builds data sets, writes, reads, and observes them as `Spec`s.

use crate::rng::Rng;
use crate::spec::*;
use netcdf3::{DataSet, DataType, DataVector, FileReader, FileWriter, InvalidDataSet, ReadError, Version, WriteError};

pub fn dt(t: Ty) -> DataType {
    match t {
        Ty::I8 => DataType::I8,
        Ty::U8 => DataType::U8,
        Ty::I16 => DataType::I16,
        Ty::I32 => DataType::I32,
        Ty::F32 => DataType::F32,
        Ty::F64 => DataType::F64,
    }
}

pub fn ty(d: &DataType) -> Ty {
    match d {
        DataType::I8 => Ty::I8,
        DataType::U8 => Ty::U8,
        DataType::I16 => Ty::I16,
        DataType::I32 => Ty::I32,
        DataType::F32 => Ty::F32,
        DataType::F64 => Ty::F64,
    }
}

pub fn version(v: u8) -> Version {
    if v == 1 { Version::Classic } else { Version::Offset64Bit }
}

pub fn version_num(v: &Version) -> u8 {
    match v {
        Version::Classic => 1,
        Version::Offset64Bit => 2,
    }
}

// ---- conversions between big-endian bytes and typed values ----

pub fn to_i8(b: &[u8]) -> Vec<i8> {
    b.iter().map(|x| *x as i8).collect()
}
pub fn to_u8(b: &[u8]) -> Vec<u8> {
    b.to_vec()
}
pub fn to_i16(b: &[u8]) -> Vec<i16> {
    b.chunks(2).map(|c| i16::from_be_bytes([c[0], c[1]])).collect()
}
pub fn to_i32(b: &[u8]) -> Vec<i32> {
    b.chunks(4).map(|c| i32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect()
}
pub fn to_f32(b: &[u8]) -> Vec<f32> {
    b.chunks(4).map(|c| f32::from_bits(u32::from_be_bytes([c[0], c[1], c[2], c[3]]))).collect()
}
pub fn to_f64(b: &[u8]) -> Vec<f64> {
    b.chunks(8).map(|c| f64::from_bits(u64::from_be_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]))).collect()
}

pub fn of_i8(v: &[i8]) -> Vec<u8> {
    v.iter().map(|x| *x as u8).collect()
}
pub fn of_i16(v: &[i16]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_be_bytes()).collect()
}
pub fn of_i32(v: &[i32]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_be_bytes()).collect()
}
pub fn of_f32(v: &[f32]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_bits().to_be_bytes()).collect()
}
pub fn of_f64(v: &[f64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_bits().to_be_bytes()).collect()
}

pub fn dv(d: &DataVector) -> (Ty, Vec<u8>) {
    match d {
        DataVector::I8(v) => (Ty::I8, of_i8(v)),
        DataVector::U8(v) => (Ty::U8, v.clone()),
        DataVector::I16(v) => (Ty::I16, of_i16(v)),
        DataVector::I32(v) => (Ty::I32, of_i32(v)),
        DataVector::F32(v) => (Ty::F32, of_f32(v)),
        DataVector::F64(v) => (Ty::F64, of_f64(v)),
    }
}

pub fn to_dv(t: Ty, b: &[u8]) -> DataVector {
    match t {
        Ty::I8 => DataVector::I8(to_i8(b)),
        Ty::U8 => DataVector::U8(to_u8(b)),
        Ty::I16 => DataVector::I16(to_i16(b)),
        Ty::I32 => DataVector::I32(to_i32(b)),
        Ty::F32 => DataVector::F32(to_f32(b)),
        Ty::F64 => DataVector::F64(to_f64(b)),
    }
}

// ---- typed calls ----

pub fn write_var(w: &mut FileWriter, name: &str, t: Ty, b: &[u8]) -> Result<(), WriteError> {
    match t {
        Ty::I8 => w.write_var_i8(name, &to_i8(b)),
        Ty::U8 => w.write_var_u8(name, &to_u8(b)),
        Ty::I16 => w.write_var_i16(name, &to_i16(b)),
        Ty::I32 => w.write_var_i32(name, &to_i32(b)),
        Ty::F32 => w.write_var_f32(name, &to_f32(b)),
        Ty::F64 => w.write_var_f64(name, &to_f64(b)),
    }
}

pub fn write_record(w: &mut FileWriter, name: &str, i: usize, t: Ty, b: &[u8]) -> Result<(), WriteError> {
    match t {
        Ty::I8 => w.write_record_i8(name, i, &to_i8(b)),
        Ty::U8 => w.write_record_u8(name, i, &to_u8(b)),
        Ty::I16 => w.write_record_i16(name, i, &to_i16(b)),
        Ty::I32 => w.write_record_i32(name, i, &to_i32(b)),
        Ty::F32 => w.write_record_f32(name, i, &to_f32(b)),
        Ty::F64 => w.write_record_f64(name, i, &to_f64(b)),
    }
}

pub fn read_var_typed(r: &mut FileReader, name: &str, t: Ty) -> Result<Vec<u8>, ReadError> {
    Ok(match t {
        Ty::I8 => of_i8(&r.read_var_i8(name)?),
        Ty::U8 => r.read_var_u8(name)?,
        Ty::I16 => of_i16(&r.read_var_i16(name)?),
        Ty::I32 => of_i32(&r.read_var_i32(name)?),
        Ty::F32 => of_f32(&r.read_var_f32(name)?),
        Ty::F64 => of_f64(&r.read_var_f64(name)?),
    })
}

pub fn read_record_typed(r: &mut FileReader, name: &str, i: usize, t: Ty) -> Result<Vec<u8>, ReadError> {
    Ok(match t {
        Ty::I8 => of_i8(&r.read_record_i8(name, i)?),
        Ty::U8 => r.read_record_u8(name, i)?,
        Ty::I16 => of_i16(&r.read_record_i16(name, i)?),
        Ty::I32 => of_i32(&r.read_record_i32(name, i)?),
        Ty::F32 => of_f32(&r.read_record_f32(name, i)?),
        Ty::F64 => of_f64(&r.read_record_f64(name, i)?),
    })
}

// ---- definitions ----

pub fn add_gattr(d: &mut DataSet, a: &Attr, r: &mut Rng) -> Result<(), InvalidDataSet> {
    match a.ty {
        Ty::I8 => d.add_global_attr_i8(&a.name, to_i8(&a.data)),
        Ty::U8 => match std::str::from_utf8(&a.data) {
            Ok(s) if r.bool() => {
                if r.bool() {
                    d.add_global_attr_string(&a.name, s)
                } else {
                    d.add_global_attr_string(&a.name, s.to_string())
                }
            }
            _ => d.add_global_attr_u8(&a.name, a.data.clone()),
        },
        Ty::I16 => d.add_global_attr_i16(&a.name, to_i16(&a.data)),
        Ty::I32 => d.add_global_attr_i32(&a.name, to_i32(&a.data)),
        Ty::F32 => d.add_global_attr_f32(&a.name, to_f32(&a.data)),
        Ty::F64 => d.add_global_attr_f64(&a.name, to_f64(&a.data)),
    }
}

/// Through the data set, or through the variable.
pub fn add_vattr(d: &mut DataSet, var: &str, a: &Attr, r: &mut Rng) -> Result<(), InvalidDataSet> {
    let text = if a.ty == Ty::U8 && r.bool() { std::str::from_utf8(&a.data).ok() } else { None };
    if r.bool() || d.get_var_mut(var).is_none() {
        if let Some(s) = text {
            return d.add_var_attr_string(var, &a.name, s);
        }
        match a.ty {
            Ty::I8 => d.add_var_attr_i8(var, &a.name, to_i8(&a.data)),
            Ty::U8 => d.add_var_attr_u8(var, &a.name, a.data.clone()),
            Ty::I16 => d.add_var_attr_i16(var, &a.name, to_i16(&a.data)),
            Ty::I32 => d.add_var_attr_i32(var, &a.name, to_i32(&a.data)),
            Ty::F32 => d.add_var_attr_f32(var, &a.name, to_f32(&a.data)),
            Ty::F64 => d.add_var_attr_f64(var, &a.name, to_f64(&a.data)),
        }
    } else {
        let v = d.get_var_mut(var).unwrap();
        if let Some(s) = text {
            return v.add_attr_string(&a.name, s);
        }
        match a.ty {
            Ty::I8 => v.add_attr_i8(&a.name, to_i8(&a.data)),
            Ty::U8 => v.add_attr_u8(&a.name, a.data.clone()),
            Ty::I16 => v.add_attr_i16(&a.name, to_i16(&a.data)),
            Ty::I32 => v.add_attr_i32(&a.name, to_i32(&a.data)),
            Ty::F32 => v.add_attr_f32(&a.name, to_f32(&a.data)),
            Ty::F64 => v.add_attr_f64(&a.name, to_f64(&a.data)),
        }
    }
}

pub fn add_var(d: &mut DataSet, name: &str, dims: &[String], t: Ty, r: &mut Rng) -> Result<(), InvalidDataSet> {
    if r.bool() {
        let refs: Vec<&str> = dims.iter().map(|s| s.as_str()).collect();
        return d.add_var(name, &refs, dt(t));
    }
    match t {
        Ty::I8 => d.add_var_i8(name, dims),
        Ty::U8 => d.add_var_u8(name, dims),
        Ty::I16 => d.add_var_i16(name, dims),
        Ty::I32 => d.add_var_i32(name, dims),
        Ty::F32 => d.add_var_f32(name, dims),
        Ty::F64 => d.add_var_f64(name, dims),
    }
}

pub fn add_dim(d: &mut DataSet, dim: &Dim, numrecs: usize, r: &mut Rng) -> Result<(), InvalidDataSet> {
    match dim.size {
        None if r.bool() => d.set_unlimited_dim(&dim.name, numrecs),
        None => d.set_unlimited_dim(dim.name.clone(), numrecs),
        Some(n) if r.bool() => d.add_fixed_dim(&dim.name, n),
        Some(n) => d.add_fixed_dim(dim.name.clone(), n),
    }
}

/// Builds the definition, with the groups interleaved at random (their relative order is kept).
pub fn build(s: &Spec, r: &mut Rng) -> Result<DataSet, InvalidDataSet> {
    let mut d = DataSet::new();
    let (mut nd, mut ng) = (0, 0);
    let mut pending: Vec<(usize, usize)> = vec![]; // attributes still to add: (variable, next)
    let mut nv = 0;
    loop {
        let mut todo: Vec<u8> = vec![];
        if nd < s.dims.len() {
            todo.push(0);
        }
        if ng < s.gattrs.len() {
            todo.push(1);
        }
        if nv < s.vars.len() && s.vars[nv].dims.iter().all(|x| *x < nd) {
            todo.push(2);
        }
        if !pending.is_empty() {
            todo.push(3);
        }
        if todo.is_empty() {
            break;
        }
        match *r.pick(&todo) {
            0 => {
                add_dim(&mut d, &s.dims[nd], s.numrecs, r)?;
                nd += 1;
            }
            1 => {
                add_gattr(&mut d, &s.gattrs[ng], r)?;
                ng += 1;
            }
            2 => {
                let v = &s.vars[nv];
                let dims: Vec<String> = v.dims.iter().map(|x| s.dims[*x].name.clone()).collect();
                add_var(&mut d, &v.name, &dims, v.ty, r)?;
                if !v.attrs.is_empty() {
                    pending.push((nv, 0));
                }
                nv += 1;
            }
            _ => {
                let i = r.below(pending.len());
                let (v, a) = pending[i];
                add_vattr(&mut d, &s.vars[v].name, &s.vars[v].attrs[a], r)?;
                if a + 1 == s.vars[v].attrs.len() {
                    pending.remove(i);
                } else {
                    pending[i].1 += 1;
                }
            }
        }
    }
    Ok(d)
}

/// Reaches the same definition through temporary elements, temporary names, removals and refused edits.
pub fn build_detour(s: &Spec, r: &mut Rng) -> Result<DataSet, InvalidDataSet> {
    let mut d = DataSet::new();
    let mut tmp = 0;
    let mut fresh = |p: &str| {
        tmp += 1;
        format!("detour_{}_{}", p, tmp)
    };
    // 1. dimensions, some under another name, with useless ones in between
    let mut useless: Vec<String> = vec![];
    let mut dim_now: Vec<String> = vec![];
    let mut unlim_set = false;
    for dim in &s.dims {
        if r.one_in(3) {
            let n = fresh("d");
            if !unlim_set && r.one_in(3) {
                d.set_unlimited_dim(&n, 7)?;
                d.remove_dim(&n)?;
            } else {
                d.add_fixed_dim(&n, 1 + r.below(9))?;
                if r.bool() {
                    d.remove_dim(&n)?;
                } else {
                    useless.push(n);
                }
            }
        }
        let n = if r.one_in(3) { fresh("d") } else { dim.name.clone() };
        add_dim(&mut d, &Dim { name: n.clone(), size: dim.size }, s.numrecs, r)?;
        unlim_set |= dim.size.is_none();
        let _ = d.add_fixed_dim(&n, 3); // refused: already there
        let _ = d.add_fixed_dim("", 3);
        let _ = d.add_fixed_dim(fresh("z"), 0);
        dim_now.push(n);
    }
    // 2. global attributes
    let mut useless_attrs: Vec<String> = vec![];
    let mut gattr_now: Vec<String> = vec![];
    for a in &s.gattrs {
        if r.one_in(3) {
            let n = fresh("a");
            d.add_global_attr_i16(&n, vec![1, 2, 3])?;
            if r.bool() {
                d.remove_global_attr(&n)?;
            } else {
                useless_attrs.push(n);
            }
        }
        let n = if r.one_in(3) { fresh("a") } else { a.name.clone() };
        add_gattr(&mut d, &Attr { name: n.clone(), ..a.clone() }, r)?;
        let _ = d.add_global_attr_f32(&n, vec![1.0]);
        gattr_now.push(n);
    }
    // 3. variables
    let mut useless_vars: Vec<String> = vec![];
    let mut var_now: Vec<String> = vec![];
    for v in &s.vars {
        let dims: Vec<String> = v.dims.iter().map(|x| dim_now[*x].clone()).collect();
        if r.one_in(3) {
            let n = fresh("v");
            add_var(&mut d, &n, &dims, *r.pick(&TYS), r)?;
            d.add_var_attr_i8(&n, "tmp", vec![1])?;
            if r.bool() {
                d.remove_var(&n)?;
            } else {
                useless_vars.push(n);
            }
        }
        let n = if r.one_in(3) { fresh("v") } else { v.name.clone() };
        add_var(&mut d, &n, &dims, v.ty, r)?;
        let _ = d.add_var_f64(&n, &dims);
        let _ = d.add_var_f64(&fresh("u"), &["no such dimension"]);
        for a in &v.attrs {
            if r.one_in(4) {
                let m = fresh("w");
                add_vattr(&mut d, &n, &Attr { name: m.clone(), ..a.clone() }, r)?;
                if r.bool() {
                    d.rename_var_attr(&n, &m, &a.name)?;
                } else {
                    d.remove_var_attr(&n, &m)?;
                    add_vattr(&mut d, &n, a, r)?;
                }
            } else {
                add_vattr(&mut d, &n, a, r)?;
            }
            let _ = d.add_var_attr_i32(&n, &a.name, vec![5]);
        }
        var_now.push(n);
    }
    // 4. final names, in an order which never collides (two steps)
    for n in &useless_vars {
        d.remove_var(n)?;
    }
    for n in &useless_attrs {
        d.remove_global_attr(n)?;
    }
    for n in &useless {
        d.remove_dim(n)?;
    }
    for (i, dim) in s.dims.iter().enumerate() {
        d.rename_dim(&dim_now[i], &dim.name)?;
    }
    for (i, a) in s.gattrs.iter().enumerate() {
        if gattr_now[i] != a.name {
            d.rename_global_attr(&gattr_now[i], &a.name)?;
        }
    }
    for (i, v) in s.vars.iter().enumerate() {
        d.rename_var(&var_now[i], &v.name)?;
    }
    Ok(d)
}

pub fn observe_attr(a: &netcdf3::Attribute) -> Result<Attr, String> {
    let t = ty(&a.data_type());
    let data = match t {
        Ty::I8 => a.get_i8().map(of_i8),
        Ty::U8 => a.get_u8().map(|x| x.to_vec()),
        Ty::I16 => a.get_i16().map(of_i16),
        Ty::I32 => a.get_i32().map(of_i32),
        Ty::F32 => a.get_f32().map(of_f32),
        Ty::F64 => a.get_f64().map(of_f64),
    }
    .ok_or(format!("attribute {:?} has no {:?} data", a.name(), t))?;
    if data.len() != a.len() * t.size() {
        return Err(format!("attribute {:?}: len() is {} but it holds {} bytes of {:?}", a.name(), a.len(), data.len(), t));
    }
    Ok(Attr { name: a.name().to_string(), ty: t, data })
}

/// The definition seen through the public interface.
pub fn observe(d: &DataSet, version: u8) -> Result<Spec, String> {
    let mut s = Spec::empty(version);
    for dim in d.get_dims() {
        s.dims.push(Dim { name: dim.name(), size: if dim.is_unlimited() { None } else { Some(dim.size()) } });
    }
    s.numrecs = d.num_records().unwrap_or(0);
    for a in d.get_global_attrs() {
        s.gattrs.push(observe_attr(a)?);
    }
    for v in d.get_vars() {
        let mut dims = vec![];
        for dim in v.get_dims() {
            let all = d.get_dims();
            let i = all.iter().position(|x| std::rc::Rc::ptr_eq(x, &dim)).ok_or(format!("variable {:?} uses a dimension {:?} which is not the one of the data set", v.name(), dim.name()))?;
            dims.push(i);
        }
        let mut attrs = vec![];
        for a in v.get_attrs() {
            attrs.push(observe_attr(a)?);
        }
        s.vars.push(Var { name: v.name().to_string(), dims, ty: ty(&v.data_type()), attrs });
    }
    Ok(s)
}

/// A write operation.
#[derive(Clone, Debug)]
pub struct WOp {
    pub var: usize,
    /// `None`: the whole variable
    pub rec: Option<usize>,
    pub data: Vec<u8>,
}

impl WOp {
    pub fn run(&self, s: &Spec, w: &mut FileWriter) -> Result<(), WriteError> {
        let v = &s.vars[self.var];
        match self.rec {
            None => write_var(w, &v.name, v.ty, &self.data),
            Some(i) => write_record(w, &v.name, i, v.ty, &self.data),
        }
    }
    /// The chunks it writes.
    pub fn slabs(&self, s: &Spec) -> Vec<(usize, usize)> {
        match self.rec {
            None => (0..s.nchunks(self.var)).map(|c| (self.var, c)).collect(),
            Some(i) => vec![(self.var, i)],
        }
    }
    pub fn apply(&self, s: &Spec, vals: &mut Vals) {
        let n = s.chunk_bytes(self.var) as usize;
        for (k, (v, c)) in self.slabs(s).into_iter().enumerate() {
            vals[v][c] = self.data[k * n..(k + 1) * n].to_vec();
        }
    }
    pub fn brief(&self) -> String {
        match self.rec {
            None => format!("var{}", self.var),
            Some(i) => format!("var{}[{}]", self.var, i),
        }
    }
}

pub fn random_op(r: &mut Rng, s: &Spec) -> Option<WOp> {
    if s.vars.is_empty() {
        return None;
    }
    let var = r.below(s.vars.len());
    let n = s.nchunks(var);
    let len = s.chunk_len(var) as usize;
    let rec = if n > 0 && r.pct(if s.is_rec(var) { 75 } else { 30 }) { Some(r.below(n)) } else { None };
    let data = crate::gen::values(r, s.vars[var].ty, if rec.is_some() { len } else { len * n });
    Some(WOp { var, rec, data })
}

pub fn random_history(r: &mut Rng, s: &Spec, max: usize) -> Vec<WOp> {
    let n = if r.one_in(15) { 0 } else { 1 + r.below(max) };
    (0..n).filter_map(|_| random_op(r, s)).collect()
}

/// A history which writes exactly the given values, in a random order and with a random split.
pub fn full_history(r: &mut Rng, s: &Spec, vals: &Vals) -> Vec<WOp> {
    let mut ops = vec![];
    for v in 0..s.vars.len() {
        if s.is_rec(v) && r.bool() {
            for c in 0..s.nchunks(v) {
                ops.push(WOp { var: v, rec: Some(c), data: vals[v][c].clone() });
            }
        } else if !s.is_rec(v) && r.one_in(3) {
            ops.push(WOp { var: v, rec: Some(0), data: vals[v][0].clone() });
        } else {
            ops.push(WOp { var: v, rec: None, data: vals[v].concat() });
        }
    }
    r.shuffle(&mut ops);
    ops
}

/// A writer obtained in one of the ways there are: a new file, or over what is there.
pub fn open_some<'a>(path: &std::path::Path, salt: u64) -> Result<FileWriter<'a>, String> {
    match salt % 4 {
        0 => {
            let _ = std::fs::remove_file(path);
            FileWriter::create_new(path).map_err(|e| format!("FileWriter::create_new: {:?}", e))
        }
        1 => {
            // over an older file, shorter or longer
            let n = (salt / 4 % 3000) as usize;
            std::fs::write(path, vec![0xA5; n]).map_err(|e| e.to_string())?;
            FileWriter::open(path).map_err(|e| format!("FileWriter::open: {:?}", e))
        }
        _ => FileWriter::open(path).map_err(|e| format!("FileWriter::open: {:?}", e)),
    }
}

/// A definition which the classic format cannot hold.
pub fn too_large(salt: u64) -> DataSet {
    let mut d = DataSet::new();
    let n = [i32::MAX as usize - 3, 1 << 30, i32::MAX as usize - 7][salt as usize % 3];
    let ok = d.add_fixed_dim("big", n).and_then(|_| d.add_var_f64("v1", &["big"])).and_then(|_| d.add_var_i8::<&str>("v2", &[]));
    assert!(ok.is_ok());
    d
}

/// Writes a file with the real library.
pub fn write_file(path: &std::path::Path, s: &Spec, d: &DataSet, min: usize, ops: &[WOp]) -> Result<(), String> {
    let salt = crate::report::hash_of(&(s, min, ops.len()));
    let huge = if salt >> 40 & 7 == 0 { Some(too_large(salt >> 44)) } else { None };
    let mut w = open_some(path, salt)?;
    if let Some(x) = &huge {
        // a definition which is refused leaves nothing behind
        let other = [0, min / 2, min + 40, min + 5000][(salt >> 50 & 3) as usize];
        let got = w.set_def(x, Version::Classic, other);
        if got != Err(netcdf3::error::WriteError::ClassicVersionNotPossible) {
            return Err(format!("set_def of a definition too large for the classic format: {:?}", got));
        }
    }
    w.set_def(d, version(s.version), min).map_err(|e| format!("set_def: {:?}", e))?;
    for op in ops {
        op.run(s, &mut w).map_err(|e| format!("write {}: {:?}", op.brief(), e))?;
    }
    w.close().map_err(|e| format!("close: {:?}", e))
}

/// Where two byte strings differ first.
pub fn diff(got: &[u8], want: &[u8]) -> Option<String> {
    if got == want {
        return None;
    }
    let n = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let ctx = |b: &[u8]| {
        let lo = n.saturating_sub(8).min(b.len());
        let hi = (n + 16).min(b.len());
        b[lo..hi].iter().map(|x| format!("{:02x}", x)).collect::<Vec<_>>().join(" ")
    };
    Some(format!("lengths {} and {}, first difference at {}: got [{}] want [{}]", got.len(), want.len(), n, ctx(got), ctx(want)))
}

/// Describes where an offset lies in a canonical file.
pub fn locate(s: &Spec, begins: &[u64], off: u64) -> String {
    if off < s.header_len() {
        return "header".to_string();
    }
    for (v, c) in s.slabs() {
        let (o, n, p) = s.range(begins, v, c);
        if off >= o && off < o + n {
            return format!("variable {} chunk {} byte {}", v, c, off - o);
        }
        if off >= o + n && off < o + n + p {
            return format!("padding of variable {} chunk {}", v, c);
        }
    }
    "outside of the data".to_string()
}

/// All the reading methods must give these values.
pub fn check_reads(reader: &mut FileReader, s: &Spec, vals: &Vals, r: &mut Rng, obs: &mut crate::report::Obs) -> Result<(), String> {
    for v in 0..s.vars.len() {
        let name = &s.vars[v].name;
        let t = s.vars[v].ty;
        let whole = vals[v].concat();
        let got = reader.read_var(name).map_err(|e| format!("read_var({:?}): {:?}", name, e))?;
        let (gt, gb) = dv(&got);
        if gt != t || gb != whole {
            return Err(format!("read_var({:?}) of type {:?}: got {:?}, {}", name, t, gt, diff(&gb, &whole).unwrap_or_default()));
        }
        let gb = read_var_typed(reader, name, t).map_err(|e| format!("read_var_{:?}({:?}): {:?}", t, name, e))?;
        if let Some(d) = diff(&gb, &whole) {
            return Err(format!("read_var_{:?}({:?}): {}", t, name, d));
        }
        obs.add("values read", 2 * (whole.len() / t.size()) as u64);
        let mut recs: Vec<usize> = (0..s.nchunks(v)).collect();
        r.shuffle(&mut recs);
        for c in recs {
            let got = reader.read_record(name, c).map_err(|e| format!("read_record({:?}, {}): {:?}", name, c, e))?;
            let (gt, gb) = dv(&got);
            if gt != t || gb != vals[v][c] {
                return Err(format!("read_record({:?}, {}) of type {:?}: got {:?}, {}", name, c, t, gt, diff(&gb, &vals[v][c]).unwrap_or_default()));
            }
            let gb = read_record_typed(reader, name, c, t).map_err(|e| format!("read_record_{:?}({:?}, {}): {:?}", t, name, c, e))?;
            if let Some(d) = diff(&gb, &vals[v][c]) {
                return Err(format!("read_record_{:?}({:?}, {}): {}", t, name, c, d));
            }
            obs.add("records read", 2);
        }
    }
    let all = reader.read_all_vars().map_err(|e| format!("read_all_vars: {:?}", e))?;
    if all.len() != s.vars.len() {
        return Err(format!("read_all_vars returned {} variables instead of {}", all.len(), s.vars.len()));
    }
    for v in 0..s.vars.len() {
        let (gt, gb) = match all.get(&s.vars[v].name) {
            None => return Err(format!("read_all_vars lacks {:?}", s.vars[v].name)),
            Some(d) => dv(d),
        };
        if gt != s.vars[v].ty || gb != vals[v].concat() {
            return Err(format!("read_all_vars: {:?} differs: {}", s.vars[v].name, diff(&gb, &vals[v].concat()).unwrap_or_default()));
        }
    }
    Ok(())
}

/// Open, compare the definition and the version, then all the values.
pub fn check_file(path: &std::path::Path, s: &Spec, vals: &Vals, r: &mut Rng, obs: &mut crate::report::Obs) -> Result<(), String> {
    let mut reader = FileReader::open(path).map_err(|e| format!("FileReader::open: {:?}", e))?;
    check_def(&reader, s)?;
    check_reads(&mut reader, s, vals, r, obs)
}

pub fn check_def(reader: &FileReader, s: &Spec) -> Result<(), String> {
    let got = observe(reader.data_set(), version_num(&reader.version()))?;
    compare_defs(&got, s)
}

pub fn compare_defs(got: &Spec, want: &Spec) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let what = if got.version != want.version {
        format!("version {} instead of {}", got.version, want.version)
    } else if got.numrecs != want.numrecs {
        format!("{} records instead of {}", got.numrecs, want.numrecs)
    } else if got.dims != want.dims {
        format!("dimensions {:?} instead of {:?}", got.dims, want.dims)
    } else if got.gattrs != want.gattrs {
        format!("global attributes {:?} instead of {:?}", got.gattrs, want.gattrs)
    } else {
        format!("variables {:?} instead of {:?}", got.vars, want.vars)
    };
    Err(format!("the definition differs: {}", what))
}
