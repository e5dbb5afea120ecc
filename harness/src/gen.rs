//! Generators of names, definitions, values and foreign layouts.

use crate::rng::Rng;
use crate::spec::*;

const FIRST: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
const REST: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789__..@+- !\"#$%&'()*,:;<=>?[\\]^`{|}~";
const UNI: &[char] = &['é', 'À', '€', 'ß', '漢', '字', '\u{1F30D}', '\u{10FFFF}', '\u{80}', '\u{A0}', '\u{7FF}', '\u{800}', '\u{FFFF}', '\u{10000}', 'ω'];

pub fn name(r: &mut Rng) -> String {
    let pool = ["a", "b", "c", "time", "lat", "lon", "x", "x1", "x2", "T", "temperature", "_FillValue", "units"];
    match r.below(12) {
        0..=3 => r.pick(&pool).to_string(),
        4..=5 => {
            // ASCII, with the special characters
            let n = r.below(12);
            let f: Vec<char> = FIRST.chars().collect();
            let o: Vec<char> = REST.chars().collect();
            let mut s = String::new();
            s.push(*r.pick(&f));
            for _ in 0..n {
                s.push(*r.pick(&o));
            }
            s
        }
        6..=7 => {
            let n = 1 + r.below(5);
            (0..n).map(|_| *r.pick(UNI)).collect()
        }
        8 => {
            // the longest names
            let target = *r.pick(&[256usize, 255, 254, 253, 252, 128, 100]);
            let c = *r.pick(&['n', 'é', '€', '\u{1F30D}']);
            let mut s = String::new();
            while s.len() + c.len_utf8() <= target {
                s.push(c);
            }
            while s.len() < target {
                s.push('z');
            }
            s
        }
        _ => {
            let n = 1 + r.below(9);
            let f: Vec<char> = FIRST.chars().collect();
            (0..n).map(|_| *r.pick(&f)).collect()
        }
    }
}

pub fn names(r: &mut Rng, n: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    while out.len() < n {
        // sometimes a close relative of another name
        let mut s = if !out.is_empty() && r.one_in(4) {
            let b = r.pick(&out).clone();
            match r.below(3) {
                0 => format!("{}_", b),
                1 => b.to_uppercase(),
                _ => b.chars().rev().collect(),
            }
        } else {
            name(r)
        };
        if !name_ok(&s) || out.contains(&s) {
            s = format!("n{}", r.below(100000));
        }
        if !out.contains(&s) {
            out.push(s);
        }
    }
    out
}

/// Big-endian bytes of `n` values.
pub fn values(r: &mut Rng, ty: Ty, n: usize) -> Vec<u8> {
    let f32s: [u32; 15] = [
        0x0000_0000, 0x8000_0000, 0x7F80_0000, 0xFF80_0000, 0x7FC0_0000, 0x7FC0_1234, 0xFFC0_0001, 0x7FFF_FFFF, 0x0000_0001, 0x7F7F_FFFF, 0x7CF0_0000, 0x3F80_0000, 0x7F80_0001, 0x7FA0_0000, 0xFF80_0001,
    ];
    let f64s: [u64; 15] = [
        0, 1 << 63, 0x7FF0 << 48, 0xFFF0 << 48, 0x7FF8 << 48, (0x7FF8 << 48) | 0xDEAD_BEEF, (0xFFF8 << 48) | 1, 0x7FFF_FFFF_FFFF_FFFF, 1, 0x7FEF_FFFF_FFFF_FFFF, 0x479E << 48, 0x3FF0 << 48, (0x7FF0 << 48) | 1, 0x7FF4 << 48, (0xFFF0 << 48) | 1,
    ];
    match r.below(8) {
        0 => ty.fill().repeat(n),
        1 => vec![0; n * ty.size()],
        2 => {
            let mut v = vec![];
            for i in 0..n {
                let x = (i as u64 + 1).to_be_bytes();
                v.extend_from_slice(&x[8 - ty.size()..]);
            }
            v
        }
        3..=4 => {
            let mut v = vec![];
            for _ in 0..n {
                match ty {
                    Ty::I8 => v.push(*r.pick(&[0x80u8, 0x7F, 0xFF, 0, 1, 0x81])),
                    Ty::U8 => v.push(*r.pick(&[0u8, 0xFF, 0x80, b'a', 0x7F])),
                    Ty::I16 => v.extend_from_slice(&r.pick(&[i16::MIN, i16::MAX, -1, 0, 1, 255, 256, -32767]).to_be_bytes()),
                    Ty::I32 => v.extend_from_slice(&r.pick(&[i32::MIN, i32::MAX, -1, 0, 1, 65536, -2147483647]).to_be_bytes()),
                    Ty::F32 => v.extend_from_slice(&r.pick(&f32s).to_be_bytes()),
                    Ty::F64 => v.extend_from_slice(&r.pick(&f64s).to_be_bytes()),
                }
            }
            v
        }
        _ => r.bytes(n * ty.size()),
    }
}

pub fn attrs(r: &mut Rng, max: usize, max_len: usize) -> Vec<Attr> {
    let n = if r.one_in(3) { 0 } else { r.below(max + 1) };
    let nm = names(r, n);
    nm.into_iter()
        .map(|name| {
            let ty = *r.pick(&TYS);
            let len = match r.below(6) {
                0 => 0,
                1 => 1,
                _ => r.below(max_len + 1),
            };
            let data = if ty == Ty::U8 && r.bool() {
                let t = ["héllo", "degrees_north", "", "a", "ab", "abc", "CF-1.8 漢字", "\0nul\0"];
                r.pick(&t).as_bytes().to_vec()
            } else {
                values(r, ty, len)
            };
            Attr { name, ty, data }
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct Knobs {
    pub dims: usize,
    pub vars: usize,
    pub attrs: usize,
    pub attr_len: usize,
    pub records: usize,
    pub elems: usize,
    pub unlim_pct: usize,
    pub big_header_pct: usize,
}

impl Default for Knobs {
    fn default() -> Knobs {
        Knobs { dims: 6, vars: 7, attrs: 4, attr_len: 9, records: 6, elems: 1500, unlim_pct: 70, big_header_pct: 10 }
    }
}

impl Knobs {
    pub fn small() -> Knobs {
        Knobs { dims: 4, vars: 4, attrs: 2, attr_len: 4, records: 4, elems: 120, unlim_pct: 75, big_header_pct: 0 }
    }
    pub fn tiny() -> Knobs {
        Knobs { dims: 3, vars: 3, attrs: 1, attr_len: 3, records: 3, elems: 24, unlim_pct: 75, big_header_pct: 0 }
    }
}

pub fn spec(r: &mut Rng, k: &Knobs) -> Spec {
    let small = Knobs { dims: k.dims.min(3), vars: k.vars.min(3), attrs: k.attrs.min(2), attr_len: k.attr_len.min(4), records: k.records.min(3), elems: k.elems.min(24), big_header_pct: 0, ..k.clone() };
    // the interpreter is slow
    let k = if cfg!(miri) { &small } else { k };
    let mut s = Spec::empty(1 + r.below(2) as u8);
    let ndims = if r.one_in(12) { 0 } else { 1 + r.below(k.dims) };
    let unlim = if ndims > 0 && r.pct(k.unlim_pct) { Some(r.below(ndims)) } else { None };
    for (i, name) in names(r, ndims).into_iter().enumerate() {
        let size = match r.below(8) {
            0..=1 => 1,
            2..=6 => 2 + r.below(5),
            _ => 1 + r.below(17),
        };
        s.dims.push(Dim { name, size: if Some(i) == unlim { None } else { Some(size) } });
    }
    if unlim.is_some() {
        s.numrecs = match r.below(10) {
            0 => 0,
            1..=2 => 1,
            _ => 1 + r.below(k.records.max(1)),
        };
    }
    s.gattrs = attrs(r, k.attrs, k.attr_len);
    let nvars = if r.one_in(15) { 0 } else { 1 + r.below(k.vars) };
    // the share of record variables, so that lone and numerous ones both occur
    let rec_pct = *r.pick(&[20usize, 50, 80, 100]);
    let mut fixed: Vec<usize> = (0..ndims).filter(|i| Some(*i) != unlim).collect();
    let mut room = k.elems;
    let nm = names(r, nvars);
    for name in nm {
        let mut dims = vec![];
        let mut len = 1usize;
        if let Some(u) = unlim {
            if r.pct(rec_pct) {
                dims.push(u);
                len = s.numrecs.max(1);
            }
        }
        r.shuffle(&mut fixed);
        let want = r.below(4);
        for d in fixed.iter().take(want) {
            let n = s.dims[*d].size.unwrap_or(1);
            if len * n <= room {
                dims.push(*d);
                len *= n;
            }
        }
        if len > room {
            continue;
        }
        room -= len;
        // the small types are the ones which need padding
        let ty = if r.pct(60) { *r.pick(&[Ty::I8, Ty::U8, Ty::I16]) } else { *r.pick(&TYS) };
        let a = attrs(r, k.attrs, k.attr_len);
        s.vars.push(Var { name, dims, ty, attrs: a });
    }
    if r.pct(k.big_header_pct) {
        // headers larger than one or several blocks of the reader
        let ty = *r.pick(&TYS);
        let n = *r.pick(&[960usize, 1000, 1024, 1100, 2040, 3000, 5000]) / ty.size();
        let data = values(r, ty, n);
        let a = Attr { name: format!("big{}", r.below(1000)), ty, data };
        if !s.vars.is_empty() && r.bool() {
            let v = r.below(s.vars.len());
            s.vars[v].attrs.push(a);
        } else {
            s.gattrs.push(a);
        }
        uniq(&mut s);
    }
    s
}

/// Makes sure that the attribute added last is not a duplicate.
fn uniq(s: &mut Spec) {
    let fix = |l: &mut Vec<Attr>| {
        for i in 1..l.len() {
            let n = l[i].name.clone();
            if l[..i].iter().any(|a| a.name == n) {
                l[i].name = format!("uniq_attr_{}", i);
            }
        }
    };
    fix(&mut s.gattrs);
    for v in s.vars.iter_mut() {
        fix(&mut v.attrs);
    }
}

/// Grows or shrinks the header to an exact size (a multiple of 4), when possible, with a global attribute.
pub fn stretch_header(r: &mut Rng, s: &mut Spec, target: u64) {
    if cfg!(miri) && r.below(4) > 0 {
        return;
    }
    let now = s.header_len();
    // a new one-letter attribute takes 4+4+8+data (and the list tag is there anyway)
    if s.gattrs.iter().any(|a| a.name == "Z") || target < now + 16 {
        return;
    }
    let room = (target - now - 16) as usize;
    let data = r.bytes(room);
    s.gattrs.push(Attr { name: "Z".to_string(), ty: Ty::I8, data });
}

/// Sizes around the limits of buffers, of narrow counters and of tables.
pub fn threshold(r: &mut Rng, max: usize) -> usize {
    loop {
        let t = match r.below(40) {
            0..=21 => *r.pick(&[63usize, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 511, 512, 513, 600, 700, 1000, 1023, 1024, 1025]),
            22..=33 => *r.pick(&[1500usize, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000]),
            34..=38 => *r.pick(&[8191usize, 8192, 8193, 10000, 16383, 16384, 16385, 20000, 32767, 32768, 32769]),
            _ => *r.pick(&[65535usize, 65536, 65537, 70000, 100000, 131073]),
        };
        if t <= max {
            return t;
        }
    }
}

/// Makes one thing large in a definition: records, a dimension, an attribute, or a number of elements.
/// The values of the variables take at most about `room` bytes.
pub fn enlarge(r: &mut Rng, s: &mut Spec, room: usize) -> &'static str {
    if cfg!(miri) {
        return "nothing";
    }
    let unlim = s.unlim();
    // keeps the variables in the room
    let trim = |s: &mut Spec| {
        let mut left = room;
        for v in 0..s.vars.len() {
            while s.vars[v].dims.len() > 0 && s.nchunks(v).max(1) * s.chunk_bytes(v) as usize > left / 2 + 16 {
                s.vars[v].dims.pop();
            }
            left = left.saturating_sub(s.nchunks(v) * s.chunk_bytes(v) as usize);
        }
    };
    match r.below(9) {
        0..=1 if unlim.is_some() => {
            s.numrecs = threshold(r, room / 8);
            if s.rec_vars().is_empty() && !s.vars.is_empty() {
                let v = r.below(s.vars.len());
                s.vars[v].dims = vec![unlim.unwrap()];
            }
            trim(s);
            "records"
        }
        2..=4 => {
            let fixed: Vec<usize> = (0..s.dims.len()).filter(|d| Some(*d) != unlim).collect();
            if fixed.is_empty() || s.vars.is_empty() {
                return "nothing";
            }
            let d = *r.pick(&fixed);
            s.dims[d].size = Some(threshold(r, room / 8));
            // used by a variable or two, close to the front
            for _ in 0..1 + r.below(2) {
                let v = r.below(s.vars.len());
                let at = s.vars[v].dims.first().map_or(0, |f| (Some(*f) == unlim) as usize);
                if !s.vars[v].dims.contains(&d) {
                    s.vars[v].dims.insert(at, d);
                }
            }
            trim(s);
            "dimension"
        }
        5 => {
            let ty = *r.pick(&TYS);
            let n = threshold(r, 131073) + r.below(4);
            let a = Attr { name: "large".to_string(), ty, data: values(r, ty, n) };
            let l = if !s.vars.is_empty() && r.bool() {
                let v = r.below(s.vars.len());
                &mut s.vars[v].attrs
            } else {
                &mut s.gattrs
            };
            if l.iter().all(|x| x.name != a.name) {
                let at = r.below(l.len() + 1);
                l.insert(at, a);
            }
            "attribute"
        }
        6 => {
            let n = threshold(r, 1100);
            let l = if !s.vars.is_empty() && r.bool() {
                let v = r.below(s.vars.len());
                &mut s.vars[v].attrs
            } else {
                &mut s.gattrs
            };
            let mut i = 0;
            while l.len() < n {
                let name = format!("at{}", i);
                i += 1;
                if l.iter().all(|x| x.name != name) {
                    let ty = *r.pick(&TYS);
                    let len = r.below(3);
                    l.push(Attr { name, ty, data: values(r, ty, len) });
                }
            }
            "attributes"
        }
        7 => {
            let n = threshold(r, 1100);
            let mut i = 0;
            while s.dims.len() < n {
                let name = format!("di{}", i);
                i += 1;
                if s.find_dim(&name).is_none() {
                    s.dims.push(Dim { name, size: Some(1 + r.below(2)) });
                }
            }
            // the last ones are used
            for v in 0..s.vars.len() {
                let d = n - 1 - r.below(3).min(n - 1);
                if s.dims[d].size.is_some() && !s.vars[v].dims.contains(&d) && r.bool() {
                    s.vars[v].dims.push(d);
                }
            }
            // a variable with many dimensions
            if !s.vars.is_empty() && r.bool() {
                let v = r.below(s.vars.len());
                let ones: Vec<usize> = (0..s.dims.len()).filter(|d| s.dims[*d].size == Some(1) && !s.vars[v].dims.contains(d)).collect();
                s.vars[v].dims.extend(ones);
            }
            trim(s);
            "dimensions"
        }
        8 => {
            let n = threshold(r, 1100);
            let mut i = 0;
            let one = (0..s.dims.len()).find(|d| s.dims[*d].size.map_or(false, |x| x < 4));
            let most = r.pct(50);
            if s.numrecs > 20 {
                s.numrecs = 20;
            }
            while s.vars.len() < n {
                let name = format!("va{}", i);
                i += 1;
                if s.find_var(&name).is_none() {
                    let mut dims = vec![];
                    if let (Some(u), true) = (unlim, most || r.one_in(20)) {
                        dims.push(u);
                    }
                    if let (Some(d), true) = (one, r.bool()) {
                        dims.push(d);
                    }
                    let ty = *r.pick(&TYS);
                    s.vars.push(Var { name, dims, ty, attrs: vec![] });
                }
            }
            trim(s);
            "variables"
        }
        _ => "nothing",
    }
}

pub fn vals(r: &mut Rng, s: &Spec) -> Vals {
    (0..s.vars.len()).map(|v| (0..s.nchunks(v)).map(|_| values(r, s.vars[v].ty, s.chunk_len(v) as usize)).collect()).collect()
}

/// A minimum header size around the interesting limits.
pub fn min_size(r: &mut Rng, s: &Spec) -> usize {
    let h = s.header_len() as usize;
    match r.below(8) {
        0..=2 => 0,
        3 => h,
        4 => h + 1 + r.below(9),
        5 => h.saturating_sub(1 + r.below(9)),
        6 => *r.pick(&[1usize, 1023, 1024, 1025, 2047, 2048]),
        _ => r.below(5000),
    }
}

/// A conforming layout which is not the one of the writer under test.
pub fn foreign(r: &mut Rng, s: &Spec) -> Layout {
    let mut l = Layout::canonical(s, 0);
    let mut at = s.header_len() + pad4(s.header_len());
    if r.bool() {
        at += 4 * r.below(300) as u64;
    }
    // nothing but custom puts the variables at multiples of 4
    let odd = r.one_in(6);
    if odd && r.bool() {
        at += r.below(4) as u64;
    }
    l.data_start = at;
    let (mut rec, mut fixed): (Vec<usize>, Vec<usize>) = (0..s.vars.len()).partition(|v| s.is_rec(*v));
    r.shuffle(&mut fixed);
    if r.bool() {
        r.shuffle(&mut rec);
    }
    for v in fixed {
        if r.one_in(3) {
            at += 4 * r.below(10) as u64;
        }
        if odd {
            at += r.below(4) as u64;
        }
        l.begins[v] = at;
        at += s.vsize(v);
    }
    if r.one_in(3) {
        at += 4 * r.below(10) as u64;
    }
    if odd {
        at += r.below(4) as u64;
    }
    for v in rec {
        l.begins[v] = at;
        at += s.vsize(v);
    }
    for v in 0..s.vars.len() {
        if r.one_in(3) {
            // the field is redundant
            let any = r.next() as u32;
            let next = l.vsizes[v].wrapping_add(4);
            l.vsizes[v] = *r.pick(&[0u32, 1, u32::MAX, i32::MAX as u32, 0x8000_0000, next, any]);
        }
    }
    for t in l.tagged_empty.iter_mut() {
        *t = r.one_in(4);
    }
    if r.bool() {
        l.garbage = Some(r.bytes(64));
    }
    if s.unlim().is_some() && r.one_in(3) && (s.numrecs > 0 || !s.rec_vars().is_empty()) {
        // the number of records is given by the size of the file
        if !s.rec_vars().is_empty() {
            l.numrecs_field = u32::MAX;
        }
    }
    if l.numrecs_field != u32::MAX && r.one_in(5) {
        l.trailer = r.below(40) as u64;
    }
    l
}
