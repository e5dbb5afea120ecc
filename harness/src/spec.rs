//! Independent model of a NetCDF-3 file: definitions, layout, encoder and strict decoder, written
//! from the file format specification and not from the code under test.
//! All values are kept as big-endian bytes.

use netcdf3::error::InvalidDataSet::{self, *};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty {
    I8,
    U8,
    I16,
    I32,
    F32,
    F64,
}

pub const TYS: [Ty; 6] = [Ty::I8, Ty::U8, Ty::I16, Ty::I32, Ty::F32, Ty::F64];

impl Ty {
    pub fn size(self) -> usize {
        match self {
            Ty::I8 | Ty::U8 => 1,
            Ty::I16 => 2,
            Ty::I32 | Ty::F32 => 4,
            Ty::F64 => 8,
        }
    }
    pub fn code(self) -> u32 {
        match self {
            Ty::I8 => 1,
            Ty::U8 => 2,
            Ty::I16 => 3,
            Ty::I32 => 4,
            Ty::F32 => 5,
            Ty::F64 => 6,
        }
    }
    pub fn from_code(c: u32) -> Option<Ty> {
        TYS.iter().copied().find(|t| t.code() == c)
    }
    /// Fill value of the specification (NC_FILL_*), as big-endian bytes.
    pub fn fill(self) -> Vec<u8> {
        match self {
            Ty::I8 => vec![0x81],
            Ty::U8 => vec![0x00],
            Ty::I16 => vec![0x80, 0x01],
            Ty::I32 => vec![0x80, 0x00, 0x00, 0x01],
            Ty::F32 => vec![0x7C, 0xF0, 0x00, 0x00],
            Ty::F64 => vec![0x47, 0x9E, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00],
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Attr {
    pub name: String,
    pub ty: Ty,
    pub data: Vec<u8>,
}

impl Attr {
    pub fn len(&self) -> usize {
        self.data.len() / self.ty.size()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Dim {
    pub name: String,
    /// `None`: the unlimited dimension
    pub size: Option<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Var {
    pub name: String,
    pub dims: Vec<usize>,
    pub ty: Ty,
    pub attrs: Vec<Attr>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Spec {
    pub version: u8,
    /// Length of the unlimited dimension (0 without one)
    pub numrecs: usize,
    pub dims: Vec<Dim>,
    pub gattrs: Vec<Attr>,
    pub vars: Vec<Var>,
}

/// `vals[var][chunk]`: bytes of the chunk, without padding.
pub type Vals = Vec<Vec<Vec<u8>>>;

pub fn pad4(n: u64) -> u64 {
    (4 - n % 4) % 4
}

fn to_u64(x: u128) -> u64 {
    x.min(u64::MAX as u128) as u64
}

impl Spec {
    pub fn empty(version: u8) -> Spec {
        Spec { version, numrecs: 0, dims: vec![], gattrs: vec![], vars: vec![] }
    }
    pub fn unlim(&self) -> Option<usize> {
        self.dims.iter().position(|d| d.size.is_none())
    }
    pub fn is_rec(&self, v: usize) -> bool {
        self.vars[v].dims.first().map_or(false, |d| self.dims[*d].size.is_none())
    }
    /// Elements of one chunk (one record, or the whole fixed-size variable), saturating.
    pub fn chunk_len(&self, v: usize) -> u64 {
        let mut p: u128 = 1;
        for d in &self.vars[v].dims {
            if let Some(n) = self.dims[*d].size {
                p = (p * n as u128).min(u64::MAX as u128);
            }
        }
        to_u64(p)
    }
    /// Useful bytes of one chunk.
    pub fn chunk_bytes(&self, v: usize) -> u64 {
        to_u64(self.chunk_len(v) as u128 * self.vars[v].ty.size() as u128)
    }
    /// Bytes of one chunk rounded up to a multiple of 4.
    pub fn vsize(&self, v: usize) -> u64 {
        let b = self.chunk_bytes(v);
        b.saturating_add(pad4(b))
    }
    pub fn nchunks(&self, v: usize) -> usize {
        if self.is_rec(v) { self.numrecs } else { 1 }
    }
    pub fn rec_vars(&self) -> Vec<usize> {
        (0..self.vars.len()).filter(|v| self.is_rec(*v)).collect()
    }
    /// The lone record variable is not padded.
    pub fn lone(&self) -> Option<usize> {
        let r = self.rec_vars();
        if r.len() == 1 { Some(r[0]) } else { None }
    }
    pub fn padding(&self, v: usize) -> u64 {
        if self.lone() == Some(v) { 0 } else { pad4(self.chunk_bytes(v)) }
    }
    pub fn stride(&self) -> u64 {
        match self.lone() {
            Some(v) => self.chunk_bytes(v),
            None => to_u64(self.rec_vars().iter().map(|v| self.vsize(*v) as u128).sum()),
        }
    }
    pub fn header_len(&self) -> u64 {
        fn name(n: &str) -> u64 {
            4 + n.len() as u64 + pad4(n.len() as u64)
        }
        fn attrs(l: &[Attr]) -> u64 {
            8 + l.iter().map(|a| name(&a.name) + 8 + a.data.len() as u64 + pad4(a.data.len() as u64)).sum::<u64>()
        }
        let mut n = 8 + 8 + self.dims.iter().map(|d| name(&d.name) + 4).sum::<u64>();
        n += attrs(&self.gattrs);
        n += 8;
        for v in &self.vars {
            n += name(&v.name) + 4 + 4 * v.dims.len() as u64 + attrs(&v.attrs) + 8 + if self.version == 1 { 4 } else { 8 };
        }
        n
    }
    /// Begin offset of each variable in the canonical layout.
    pub fn begins(&self, min_size: u64) -> Vec<u64> {
        let mut at = self.header_len().max(min_size);
        at = at.saturating_add(pad4(at));
        let mut b = vec![0; self.vars.len()];
        let (rec, fixed): (Vec<usize>, Vec<usize>) = (0..self.vars.len()).partition(|v| self.is_rec(*v));
        for v in fixed.into_iter().chain(rec) {
            b[v] = at;
            at = at.saturating_add(self.vsize(v));
        }
        b
    }
    /// Byte range of a chunk: (offset, useful bytes, padding bytes).
    pub fn range(&self, begins: &[u64], v: usize, c: usize) -> (u64, u64, u64) {
        let off = begins[v] + if self.is_rec(v) { self.stride() * c as u64 } else { 0 };
        (off, self.chunk_bytes(v), self.padding(v))
    }
    /// End of the last value, with its padding.
    pub fn padding_end(&self, l: &Layout) -> u64 {
        self.slabs().into_iter().map(|(v, c)| { let (o, n, p) = self.range(&l.begins, v, c); o + n + p }).max().unwrap_or(0)
    }
    /// All the chunks: (variable, chunk).
    pub fn slabs(&self) -> Vec<(usize, usize)> {
        (0..self.vars.len()).flat_map(|v| (0..self.nchunks(v)).map(move |c| (v, c))).collect()
    }
    /// Values when nothing is written.
    pub fn filled(&self) -> Vals {
        (0..self.vars.len())
            .map(|v| {
                let chunk = self.vars[v].ty.fill().repeat(self.chunk_len(v) as usize);
                vec![chunk; self.nchunks(v)]
            })
            .collect()
    }
    pub fn numrecs_field(&self) -> u32 {
        if self.numrecs > i32::MAX as usize { u32::MAX } else { self.numrecs as u32 }
    }
    pub fn find_dim(&self, name: &str) -> Option<usize> {
        self.dims.iter().position(|d| d.name == name)
    }
    pub fn find_var(&self, name: &str) -> Option<usize> {
        self.vars.iter().position(|v| v.name == name)
    }
    pub fn brief(&self) -> String {
        let dims: Vec<String> = self
            .dims
            .iter()
            .map(|d| match d.size {
                Some(n) => n.to_string(),
                None => format!("unlimited({})", self.numrecs),
            })
            .collect();
        let vars: Vec<String> = self.vars.iter().map(|v| format!("{:?}{:?}+{}attrs", v.ty, v.dims, v.attrs.len())).collect();
        format!("v{} dims[{}] gattrs{} vars[{}] header {}B", self.version, dims.join(","), self.gattrs.len(), vars.join(" "), self.header_len())
    }
}

// ------------------------------------------------------------------------------------------------
// Encoding
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Layout {
    pub begins: Vec<u64>,
    pub vsizes: Vec<u32>,
    pub numrecs_field: u32,
    /// Bytes reserved before the data, at least the header
    pub data_start: u64,
    /// Write `tag, 0` instead of `0, 0` for the empty lists of dimensions, attributes, variables
    pub tagged_empty: [bool; 3],
    /// Fill the padding of the data with these bytes instead of the fill values
    pub garbage: Option<Vec<u8>>,
    /// Bytes after the last value
    pub trailer: u64,
}

/// Positions of the fields of an encoded header, for the field-aware mutations.
#[derive(Clone, Debug)]
pub struct Field {
    pub off: usize,
    pub len: usize,
    pub kind: &'static str,
}

pub fn vsize_field(vsize: u64) -> u32 {
    if vsize > i32::MAX as u64 { u32::MAX } else { vsize as u32 }
}

impl Layout {
    pub fn canonical(s: &Spec, min_size: u64) -> Layout {
        let h = s.header_len().max(min_size);
        Layout {
            begins: s.begins(min_size),
            vsizes: (0..s.vars.len()).map(|v| vsize_field(s.vsize(v))).collect(),
            numrecs_field: s.numrecs_field(),
            data_start: h + pad4(h),
            tagged_empty: [false; 3],
            garbage: None,
            trailer: 0,
        }
    }
}

struct Enc {
    out: Vec<u8>,
    fields: Vec<Field>,
}

impl Enc {
    fn raw(&mut self, kind: &'static str, b: &[u8]) {
        self.fields.push(Field { off: self.out.len(), len: b.len(), kind });
        self.out.extend_from_slice(b);
    }
    fn u32(&mut self, kind: &'static str, x: u32) {
        self.raw(kind, &x.to_be_bytes());
    }
    fn pad(&mut self, kind: &'static str) {
        let n = pad4(self.out.len() as u64) as usize;
        if n > 0 {
            self.raw(kind, &vec![0; n]);
        }
    }
    fn name(&mut self, n: &str) {
        self.u32("name_len", n.len() as u32);
        if !n.is_empty() {
            self.raw("name", n.as_bytes());
        }
        self.pad("name_pad");
    }
    fn list(&mut self, tag: u32, n: usize, tagged_empty: bool, kinds: [&'static str; 2]) {
        self.u32(kinds[0], if n > 0 || tagged_empty { tag } else { 0 });
        self.u32(kinds[1], n as u32);
    }
    fn attrs(&mut self, l: &[Attr], tagged_empty: bool) {
        self.list(0x0C, l.len(), tagged_empty, ["attr_tag", "attr_count"]);
        for a in l {
            self.name(&a.name);
            self.u32("attr_type", a.ty.code());
            self.u32("attr_len", a.len() as u32);
            if !a.data.is_empty() {
                self.raw("attr_data", &a.data);
            }
            self.pad("attr_pad");
        }
    }
}

pub fn encode_header(s: &Spec, l: &Layout) -> (Vec<u8>, Vec<Field>) {
    let mut e = Enc { out: vec![], fields: vec![] };
    e.raw("magic", b"CDF");
    e.raw("version", &[s.version]);
    e.u32("numrecs", l.numrecs_field);
    e.list(0x0A, s.dims.len(), l.tagged_empty[0], ["dim_tag", "dim_count"]);
    for d in &s.dims {
        e.name(&d.name);
        e.u32("dim_size", d.size.unwrap_or(0) as u32);
    }
    e.attrs(&s.gattrs, l.tagged_empty[1]);
    e.list(0x0B, s.vars.len(), l.tagged_empty[2], ["var_tag", "var_count"]);
    for (i, v) in s.vars.iter().enumerate() {
        e.name(&v.name);
        e.u32("var_ndims", v.dims.len() as u32);
        for d in &v.dims {
            e.u32("var_dimid", *d as u32);
        }
        e.attrs(&v.attrs, l.tagged_empty[1]);
        e.u32("var_type", v.ty.code());
        e.u32("var_vsize", l.vsizes[i]);
        if s.version == 1 {
            e.u32("var_begin", l.begins[i] as u32);
        } else {
            e.raw("var_begin", &l.begins[i].to_be_bytes());
        }
    }
    (e.out, e.fields)
}

pub fn encode(s: &Spec, l: &Layout, vals: &Vals) -> (Vec<u8>, Vec<Field>) {
    let (mut out, fields) = encode_header(s, l);
    let mut end = l.data_start as usize;
    for (v, c) in s.slabs() {
        let (o, n, p) = s.range(&l.begins, v, c);
        end = end.max((o + n + p) as usize);
    }
    if l.numrecs_field == u32::MAX {
        // the number of records comes from the size of the file: the gap before them must be there
        if let Some(b) = s.rec_vars().iter().map(|v| l.begins[*v]).min() {
            end = end.max(b as usize);
        }
    }
    out.resize(end.max(out.len()), 0);
    let mut g = 0;
    for (v, c) in s.slabs() {
        let (o, n, p) = s.range(&l.begins, v, c);
        let (o, n, p) = (o as usize, n as usize, p as usize);
        assert_eq!(n, vals[v][c].len());
        out[o..o + n].copy_from_slice(&vals[v][c]);
        let fill = s.vars[v].ty.fill();
        for k in 0..p {
            out[o + n + k] = match &l.garbage {
                None => fill[k % fill.len()],
                Some(bytes) => {
                    g += 1;
                    bytes[g % bytes.len()]
                }
            };
        }
    }
    let n = out.len() + l.trailer as usize;
    out.resize(n, 0xEE);
    (out, fields)
}

/// The one file the format gives for a definition, a minimum header size and values.
pub fn canonical(s: &Spec, min_size: u64, vals: &Vals) -> Vec<u8> {
    encode(s, &Layout::canonical(s, min_size), vals).0
}

// ------------------------------------------------------------------------------------------------
// Strict decoding
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad {
    /// Bytes are missing
    Incomplete,
    /// A malformed field of one of these kinds (names of `ParseHeaderErrorKind`)
    Malformed(&'static [&'static str]),
    /// Both can be reported (bytes missing after the beginning of an invalid field)
    Either(&'static [&'static str]),
}

#[derive(Debug)]
pub struct Header {
    pub spec: Spec,
    pub begins: Vec<i64>,
    pub numrecs_indeterminate: bool,
    pub len: usize,
}

#[derive(Debug)]
pub struct Decoded {
    /// The definition read, or the reason why the syntax is not the one of a header
    pub syntax: Result<Header, Bad>,
    /// The violated rules of the definition, in the elements which could be read
    pub invalid: Vec<InvalidDataSet>,
    /// Where the field begins which is missing or malformed (the last one read, otherwise)
    pub at: usize,
    /// The number of records cannot be computed
    pub no_numrecs: bool,
    /// A begin offset is negative
    pub negative_begin: bool,
}

pub fn name_ok(n: &str) -> bool {
    const SPECIAL: &str = "_.@+- !\"#$%&'()*,:;<=>?[\\]^`{|}~";
    if n.is_empty() || n.len() > 256 {
        return false;
    }
    n.chars().enumerate().all(|(i, c)| {
        if !c.is_ascii() {
            true
        } else if i == 0 {
            c.is_ascii_alphanumeric() || c == '_'
        } else {
            c.is_ascii_alphanumeric() || SPECIAL.contains(c)
        }
    })
}

struct Dec<'a> {
    b: &'a [u8],
    p: usize,
    invalid: Vec<InvalidDataSet>,
    at: usize,
}

impl<'a> Dec<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Bad> {
        self.at = self.p;
        if self.b.len() - self.p < n {
            return Err(Bad::Incomplete);
        }
        self.p += n;
        Ok(&self.b[self.p - n..self.p])
    }
    fn u32(&mut self) -> Result<u32, Bad> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn count(&mut self) -> Result<usize, Bad> {
        let x = self.u32()?;
        if x > i32::MAX as u32 { Err(Bad::Malformed(&["NonNegativeI32"])) } else { Ok(x as usize) }
    }
    fn zeros(&mut self, n: usize) -> Result<(), Bad> {
        self.at = self.p;
        let rest = &self.b[self.p..];
        if rest.len() < n {
            return Err(if rest.iter().all(|x| *x == 0) { Bad::Incomplete } else { Bad::Either(&["ZeroPadding"]) });
        }
        if self.take(n)?.iter().any(|x| *x != 0) {
            return Err(Bad::Malformed(&["ZeroPadding"]));
        }
        Ok(())
    }
    fn name(&mut self) -> Result<String, Bad> {
        let n = self.count()?;
        let b = self.take(n)?;
        let s = std::str::from_utf8(b).map_err(|_| Bad::Malformed(&["Utf8"]))?.to_string();
        self.zeros(pad4(n as u64) as usize)?;
        Ok(s)
    }
    fn ty(&mut self) -> Result<Ty, Bad> {
        let x = self.u32()?;
        Ty::from_code(x).ok_or(if x > i32::MAX as u32 { Bad::Malformed(&["NonNegativeI32", "DataType"]) } else { Bad::Malformed(&["DataType"]) })
    }
    /// Tag and number of elements.
    fn list(&mut self, tag: u32, kind: &'static [&'static str]) -> Result<usize, Bad> {
        self.at = self.p;
        let rest = &self.b[self.p..];
        let absent = [0u8; 8];
        let tag = tag.to_be_bytes();
        let n = rest.len().min(8);
        if rest[..n] == absent[..n] {
            if n < 8 {
                return Err(Bad::Incomplete);
            }
            self.p += 8;
            return Ok(0);
        }
        let n = rest.len().min(4);
        if rest[..n] == tag[..n] {
            if n < 4 {
                return Err(Bad::Incomplete);
            }
            self.p += 4;
            return self.count();
        }
        Err(if rest.len() < 8 { Bad::Either(kind) } else { Bad::Malformed(kind) })
    }
    fn flag(&mut self, bad: bool, what: impl FnOnce() -> InvalidDataSet) {
        if bad {
            self.invalid.push(what());
        }
    }
    /// The global attributes, or those of a variable.
    fn attrs(&mut self, var: Option<&str>) -> Result<Vec<Attr>, Bad> {
        let n = self.list(0x0C, &["AttrTag"])?;
        let mut out: Vec<Attr> = vec![];
        for _ in 0..n {
            let name = self.name()?;
            let ty = self.ty()?;
            let len = self.count()?;
            let bytes = len.checked_mul(ty.size()).ok_or(Bad::Incomplete)?;
            let data = self.take(bytes)?.to_vec();
            self.zeros(pad4(bytes as u64) as usize)?;
            let (n, v) = (name.clone(), var.map(|v| v.to_string()));
            self.flag(!name_ok(&name), || match v {
                None => GlobalAttributeNameNotValid(n),
                Some(v) => VariableAttributeNameNotValid { var_name: v, attr_name: n },
            });
            let (n, v) = (name.clone(), var.map(|v| v.to_string()));
            self.flag(out.iter().any(|a| a.name == name), || match v {
                None => GlobalAttributeAlreadyExists(n),
                Some(v) => VariableAttributeAlreadyExists { var_name: v, attr_name: n },
            });
            out.push(Attr { name, ty, data });
        }
        Ok(out)
    }
    fn header(&mut self, file_len: u64, no_numrecs: &mut bool, negative: &mut bool) -> Result<Header, Bad> {
        let n = self.b.len().min(3);
        if self.b[..n] != b"CDF"[..n] {
            return Err(if self.b.len() < 3 { Bad::Either(&["MagicWord"]) } else { Bad::Malformed(&["MagicWord"]) });
        }
        self.take(3)?;
        let version = self.take(1)?[0];
        if version != 1 && version != 2 {
            return Err(Bad::Malformed(&["VersionNumber"]));
        }
        let numrecs = self.u32()?;
        if numrecs > i32::MAX as u32 && numrecs != u32::MAX {
            return Err(Bad::Malformed(&["NonNegativeI32"]));
        }
        let mut s = Spec::empty(version);
        for _ in 0..self.list(0x0A, &["DimTag"])? {
            let name = self.name()?;
            let size = self.count()?;
            self.flag(!name_ok(&name), || DimensionNameNotValid(name.clone()));
            self.flag(s.dims.iter().any(|d| d.name == name), || DimensionAlreadyExists(name.clone()));
            self.flag(size == 0 && s.unlim().is_some(), || UnlimitedDimensionAlreadyExists(s.dims[s.unlim().unwrap()].name.clone()));
            self.flag(size > i32::MAX as usize - 3, || MaximumFixedDimensionSizeExceeded { dim_name: name.clone(), get: size });
            s.dims.push(Dim { name, size: if size == 0 { None } else { Some(size) } });
        }
        s.gattrs = self.attrs(None)?;
        let mut begins = vec![];
        for _ in 0..self.list(0x0B, &["VarTag"])? {
            let name = self.name()?;
            let mut dims = vec![];
            for _ in 0..self.count()? {
                dims.push(self.count()?);
            }
            let attrs = self.attrs(Some(&name))?;
            let ty = self.ty()?;
            let _vsize = self.u32()?;
            let begin = if version == 1 {
                self.u32()? as i32 as i64
            } else {
                let b = self.take(8)?;
                i64::from_be_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])
            };
            *negative |= begin < 0;
            self.flag(!name_ok(&name), || VariableNameNotValid(name.clone()));
            self.flag(s.vars.iter().any(|v| v.name == name), || VariableAlreadyExists(name.clone()));
            let known = dims.iter().all(|d| *d < s.dims.len());
            self.flag(!known, || DimensionIdsNotFound {
                defined: (0..s.dims.len()).collect(),
                searched: dims.clone(),
                not_found: dims.iter().copied().filter(|d| *d >= s.dims.len()).collect(),
            });
            if known {
                let names = || dims.iter().map(|d| s.dims[*d].name.clone()).collect::<Vec<_>>();
                let late = dims.iter().skip(1).find(|d| s.dims[**d].size.is_none());
                self.flag(late.is_some(), || UnlimitedDimensionMustBeDefinedFirst { var_name: name.clone(), unlim_dim_name: s.dims[*late.unwrap()].name.clone(), get_dim_names: names() });
                let mut seen = dims.clone();
                seen.sort();
                seen.dedup();
                self.flag(seen.len() != dims.len(), || DimensionsUsedMultipleTimes { var_name: name.clone(), get_dim_names: names() });
            }
            self.flag(dims.len() > 1024, || MaximumDimensionsPerVariableExceeded { var_name: name.clone(), num_dims: dims.len() });
            s.vars.push(Var { name, dims: if known { dims } else { vec![] }, ty, attrs });
            begins.push(begin);
        }
        let indeterminate = numrecs == u32::MAX;
        if s.unlim().is_some() {
            if !indeterminate {
                s.numrecs = numrecs as usize;
            } else if self.invalid.is_empty() {
                let rec = s.rec_vars();
                if let Some(first) = rec.iter().map(|v| begins[*v]).min() {
                    let stride = s.stride();
                    if first < 0 || first as u64 > file_len || (file_len - first as u64) % stride != 0 {
                        *no_numrecs = true;
                    } else {
                        s.numrecs = ((file_len - first as u64) / stride) as usize;
                    }
                }
            }
        }
        Ok(Header { spec: s, begins, numrecs_indeterminate: indeterminate, len: self.p })
    }
}

pub fn decode(bytes: &[u8]) -> Decoded {
    let mut d = Dec { b: bytes, p: 0, invalid: vec![], at: 0 };
    let (mut no_numrecs, mut negative) = (false, false);
    let syntax = d.header(bytes.len() as u64, &mut no_numrecs, &mut negative);
    Decoded { syntax, invalid: d.invalid, at: d.at, no_numrecs, negative_begin: negative }
}

impl Header {
    /// The values of a chunk, if all its useful bytes are in the file.
    pub fn chunk<'a>(&self, bytes: &'a [u8], v: usize, c: usize) -> Option<&'a [u8]> {
        let s = &self.spec;
        if self.begins[v] < 0 {
            return None;
        }
        let off = (self.begins[v] as u128) + if s.is_rec(v) { s.stride() as u128 * c as u128 } else { 0 };
        let end = off + s.chunk_bytes(v) as u128;
        if end > bytes.len() as u128 { None } else { Some(&bytes[off as usize..end as usize]) }
    }
}
