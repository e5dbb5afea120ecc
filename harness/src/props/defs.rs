//! Editing definitions: dimensions, variables, attributes, names, derived sizes, accessors.

use super::files::{any_spec, wide_spec};
use super::Prop;
use crate::check;
use crate::drive::*;
use crate::gen::{self, Knobs};
use crate::model::{self, Edit, Model};
use crate::report::{hash_of, Ctx, Obs, Res};
use crate::rng::Rng;
use crate::spec::*;
use netcdf3::{Attribute, DataSet, DataType, Dimension, DimensionType, FileReader, FileWriter, InvalidDataSet, Variable, Version};
use std::convert::TryFrom;
use std::rc::Rc;

const BAD_NAMES: [&str; 9] = ["", " a", "a/b", "/", "\u{7F}x", "a\n", "-a", "a\u{7F}", "\0"];
pub const MAX_DIM: usize = i32::MAX as usize - 3;

fn long_name(n: usize) -> String {
    "é".repeat(n / 2) + if n % 2 == 1 { "z" } else { "" }
}

/// A small pool of valid names, close to each other.
fn pool(r: &mut Rng, n: usize) -> Vec<String> {
    let mut p = gen::names(r, n);
    if r.one_in(3) {
        let base = r.pick(&["a", "dim", "é", "T"]).to_string();
        p = (0..n)
            .map(|i| match i {
                0 => base.clone(),
                1 => format!("{} ", base),
                2 => base.to_uppercase() + "_",
                3 => format!("{}{}", base, base),
                _ => format!("{}{}", base, i),
            })
            .collect();
    }
    p
}

fn pick_name(r: &mut Rng, p: &[String]) -> String {
    match r.below(24) {
        0 => r.pick(&BAD_NAMES).to_string(),
        1 => long_name(*r.pick(&[255usize, 256, 257, 300])),
        _ => r.pick(p).clone(),
    }
}

fn attr(r: &mut Rng, name: String) -> Attr {
    let ty = *r.pick(&TYS);
    let n = r.below(5);
    Attr { name, ty, data: gen::values(r, ty, n) }
}

/// How many elements a collection of a crowded data set has.
fn crowd(r: &mut Rng) -> usize {
    let top = *r.pick(&[40usize, 70, 140, 270, 600, 1100]);
    1 + r.below(top)
}

/// An edit which is accepted, without the comparison of the whole data set.
fn at_once(m: &mut Model, d: &mut DataSet, e: &Edit, r: &mut Rng) -> Res {
    let (no, _) = m.apply(e);
    check!(no.is_empty(), "harness: {:?}", no);
    model::run(d, e, r).map_err(|x| format!("{:?} refused: {:?}", e, x))?;
    Ok(())
}

fn a_size(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => 0,
        1 => *r.pick(&[MAX_DIM - 1, MAX_DIM, MAX_DIM + 1, i32::MAX as usize, u32::MAX as usize, usize::MAX]),
        _ => 1 + r.below(9),
    }
}

fn dims_for(r: &mut Rng, m: &Model, p: &[String]) -> Vec<String> {
    if r.one_in(4) {
        // anything
        let n = r.below(5);
        return (0..n).map(|_| pick_name(r, p)).collect();
    }
    let mut ids: Vec<usize> = (0..m.dims.len()).filter(|i| !m.dims[*i].unlimited).collect();
    r.shuffle(&mut ids);
    if !r.one_in(6) {
        ids.truncate(r.below(4));
    }
    if let Some(u) = m.dims.iter().position(|d| d.unlimited) {
        if r.bool() {
            ids.insert(0, u);
        } else if r.one_in(8) {
            ids.push(u);
        }
    }
    if r.one_in(8) && !ids.is_empty() {
        let x = *r.pick(&ids);
        ids.push(x);
    }
    ids.into_iter().map(|i| m.dims[i].name.clone()).collect()
}

fn dim_var_edit(r: &mut Rng, m: &Model, dp: &[String], vp: &[String]) -> Edit {
    match r.below(20) {
        0..=3 => Edit::AddFixed(pick_name(r, dp), a_size(r)),
        4 => Edit::AddUnlimited(pick_name(r, dp), *r.pick(&[0usize, 1, 2, 7, usize::MAX])),
        5..=7 => Edit::RemoveDim(pick_name(r, dp)),
        8..=10 => Edit::RenameDim(pick_name(r, dp), pick_name(r, dp)),
        11..=13 => {
            let d = dims_for(r, m, dp);
            Edit::AddVar(pick_name(r, vp), d, *r.pick(&TYS))
        }
        14..=15 => Edit::RemoveVar(pick_name(r, vp)),
        16..=18 => Edit::RenameVar(pick_name(r, vp), pick_name(r, vp)),
        _ => {
            let n = pick_name(r, dp);
            Edit::AddVAttr(pick_name(r, vp), attr(r, n))
        }
    }
}

/// Sometimes the data set is written to a file and the one read back takes its place: it must behave
/// in the same way.
fn through_file(c: &mut Ctx, m: &Model, d: &mut DataSet) -> Result<bool, String> {
    if cfg!(miri) || !c.rng.one_in(100) || m.dims.iter().any(|x| x.unlimited && x.size > i32::MAX as usize) {
        return Ok(false);
    }
    let path = c.path("edit.nc");
    let v = if c.rng.bool() { Version::Classic } else { Version::Offset64Bit };
    let mut w = FileWriter::open(&path).map_err(|e| format!("open: {:?}", e))?;
    let r = w.set_def(d, v, 0);
    drop(w);
    if r.is_err() {
        // (sizes over the limits)
        return Ok(false);
    }
    let rd = FileReader::open(&path).map_err(|e| format!("the data set written is not read: {:?} ({})", e, m.spec().brief()))?;
    *d = rd.close().0;
    let seen = observe(d, 1)?;
    compare_defs(&seen, &m.spec()).map_err(|e| format!("read back from a file: {}", e))?;
    c.obs.add("data sets edited after having been read", 1);
    Ok(true)
}

// ------------------------------------------------------------------------------------------------

pub const C12: Prop = Prop {
    id: "C12",
    quick: 300000,
    thorough: 2500000,
    level: "exploration",
    rule: "random histories of edits of the dimensions and of the variables, with small pools of close names so that they collide, or on data sets of up to 1100 dimensions and variables; an ordered model tells which refusals are justified; after every edit the whole definition seen through the public interface, the lookups of every name of the pools, and the dimension handles obtained earlier are compared with the model; distinct by history",
    assumptions: &["if several refusals are justified, any of them can be returned", "renaming an undefined element to its own name is not judged"],
    required: &["edits accepted", "edits refused", "add_fixed_dim", "set_unlimited_dim", "remove_dim", "rename_dim", "add_var", "remove_var", "rename_var", "handles compared", "variables of 1024 dimensions", "data sets edited after having been read", "crowded data sets"],
    run: c12,
};

pub fn c12(c: &mut Ctx) -> Res {
    if !cfg!(miri) && c.idx % 4001 == 7 {
        return many_dims(c);
    }
    // sometimes variables of many dimensions among many
    let wide = !cfg!(miri) && c.rng.one_in(6);
    let k = if wide { 7 + c.rng.below(8) } else { 3 + c.rng.below(4) };
    let mut dp = pool(&mut c.rng, k);
    let k = 3 + c.rng.below(3);
    let mut vp = if c.rng.one_in(3) { dp.clone() } else { pool(&mut c.rng, k) };
    let mut m = Model::default();
    let mut d = DataSet::new();
    let mut handles: Vec<(Rc<Dimension>, u64)> = vec![];
    let crowded = !cfg!(miri) && !wide && c.idx % 250 == 11;
    if crowded {
        let (nd, nv) = (crowd(&mut c.rng), crowd(&mut c.rng));
        dp = (0..nd + 6).map(|i| format!("name{}", i)).collect();
        vp = (0..nv + 6).map(|i| format!("{}{}", if c.idx % 3 == 0 { "name" } else { "var" }, i)).collect();
        let unlim = c.rng.below(2 * nd);
        for i in 0..nd {
            let e = if i == unlim { Edit::AddUnlimited(dp[i].clone(), 3) } else { Edit::AddFixed(dp[i].clone(), 1 + i % 7) };
            at_once(&mut m, &mut d, &e, &mut c.rng)?;
        }
        for i in 0..nv {
            let mut ids: Vec<usize> = (0..c.rng.below(4)).map(|_| c.rng.below(nd)).filter(|i| *i != unlim).collect();
            ids.dedup();
            if ids.len() > 2 {
                ids.truncate(2);
            }
            if unlim < nd && c.rng.one_in(3) {
                ids.insert(0, unlim);
            }
            let names = ids.iter().map(|i| dp[*i].clone()).collect();
            at_once(&mut m, &mut d, &Edit::AddVar(vp[i].clone(), names, *c.rng.pick(&TYS)), &mut c.rng)?;
        }
        c.obs.add("crowded data sets", 1);
    }
    let n = if cfg!(miri) { 6 } else { 10 + c.rng.below(50) };
    let mut trace: Vec<String> = vec![];
    for i in 0..n {
        let e = match dp.get(i) {
            Some(x) if wide => Edit::AddFixed(x.clone(), 1 + c.rng.below(3)),
            _ => dim_var_edit(&mut c.rng, &m, &dp, &vp),
        };
        trace.push(format!("{:?}", e));
        if c.obs.verbose {
            let s = trace.last().unwrap().clone();
            c.obs.note(|| s);
        }
        if through_file(c, &m, &mut d)? {
            trace.push("(through a file)".into());
            handles.clear();
        }
        model::step(&mut m, &mut d, &e, &mut c.rng, &mut c.obs)?;
        // what the names lead to
        for x in &dp {
            let i = m.dim(x);
            check!(d.has_dim(x) == i.is_some(), "has_dim({:?}) is {} after {}", x, d.has_dim(x), trace.join("; "));
            match (d.get_dim(x), i) {
                (None, None) => {}
                (Some(h), Some(i)) => {
                    check!(h.name() == *x && h.is_unlimited() == m.dims[i].unlimited && h.size() == m.dims[i].size, "get_dim({:?}) returns {:?} after {}", x, h, trace.join("; "));
                    if c.rng.one_in(if crowded { 300 } else { 6 }) {
                        handles.push((h, m.dims[i].id));
                    }
                }
                (g, w) => return Err(format!("get_dim({:?}) returns {:?} although the model has {:?}, after {}", x, g, w, trace.join("; "))),
            }
        }
        for x in &vp {
            let i = m.var(x);
            check!(d.has_var(x) == i.is_some(), "has_var({:?}) is {} after {}", x, d.has_var(x), trace.join("; "));
            check!(d.get_var(x).map(|v| v.name().to_string()) == i.map(|_| x.clone()), "get_var({:?}) is wrong after {}", x, trace.join("; "));
        }
        // the handles follow
        for (h, id) in &handles {
            if let Some(x) = m.dims.iter().find(|x| x.id == *id) {
                check!(h.name() == x.name && h.size() == x.size && h.is_unlimited() == x.unlimited, "a handle of dimension {:?} says {:?} after {}", x.name, h, trace.join("; "));
                let now = d.get_dim(&x.name);
                check!(now.as_ref().map_or(false, |y| Rc::ptr_eq(y, h)), "the dimension {:?} is not the same object any more after {}", x.name, trace.join("; "));
                c.obs.add("handles compared", 1);
            }
        }
        let u = m.dims.iter().find(|x| x.unlimited);
        check!(d.has_unlimited_dim() == u.is_some() && d.get_unlimited_dim().map(|x| x.name()) == u.map(|x| x.name.clone()), "the unlimited dimension is {:?} instead of {:?} after {}", d.get_unlimited_dim(), u, trace.join("; "));
        check!(d.num_records() == u.map(|x| x.size), "num_records is {:?} after {}", d.num_records(), trace.join("; "));
    }
    c.obs.max("dimensions", m.dims.len() as u64);
    c.obs.max("dimensions of a variable", m.vars.iter().map(|v| v.dims.len()).max().unwrap_or(0) as u64);
    c.obs.max("variables", m.vars.len() as u64);
    let t = trace.join("; ");
    c.obs.distinct(hash_of(&t));
    c.obs.sample(|| t);
    Ok(())
}

/// Around the largest number of dimensions of a variable.
fn many_dims(c: &mut Ctx) -> Res {
    let mut m = Model::default();
    let mut d = DataSet::new();
    let names: Vec<String> = (0..1026).map(|i| format!("d{}", i)).collect();
    for (i, n) in names.iter().enumerate() {
        let e = if i == 0 { Edit::AddUnlimited(n.clone(), 2) } else { Edit::AddFixed(n.clone(), 1) };
        // without the comparison of every step
        at_once(&mut m, &mut d, &e, &mut c.rng)?;
    }
    for (i, k) in [1023usize, 1024, 1025, 1026].iter().enumerate() {
        for first in [0usize, 1] {
            if first + k > names.len() {
                continue;
            }
            let e = Edit::AddVar(format!("v{}_{}", i, first), names[first..first + k].to_vec(), Ty::I8);
            model::step(&mut m, &mut d, &e, &mut c.rng, &mut c.obs).map_err(|x| format!("variable of {} dimensions: {}", k, x.chars().take(200).collect::<String>()))?;
            if *k == 1024 {
                c.obs.add("variables of 1024 dimensions", 1);
            }
        }
    }
    // a dimension is in use wherever it stands in a variable
    for k in 0..24 {
        let i = if k < 6 { [0, 1, 2, 1022, 1023, 1024][k] } else { c.rng.below(1026) };
        model::step(&mut m, &mut d, &Edit::RemoveDim(names[i].clone()), &mut c.rng, &mut c.obs)?;
    }
    model::step(&mut m, &mut d, &Edit::RemoveVar("v1_0".into()), &mut c.rng, &mut c.obs)?;
    c.obs.distinct(hash_of(&("many", c.idx)));
    Ok(())
}

// ------------------------------------------------------------------------------------------------

pub const C13: Prop = Prop {
    id: "C13",
    quick: 200000,
    thorough: 2500000,
    level: "exploration",
    rule: "random histories of edits of the attributes of a data set and of several variables, through the data set and through the variables, with small pools of names shared by all collections, or on collections of up to 1100 attributes; an ordered-map model tells which refusals are justified; after every edit the whole definition is compared with the model, values as bits; distinct by history",
    assumptions: &["if several refusals are justified, any of them can be returned", "renaming an undefined attribute to its own name is not judged"],
    required: &["edits accepted", "edits refused", "add_global_attr", "remove_global_attr", "rename_global_attr", "add_var_attr", "remove_var_attr", "rename_var_attr", "data sets edited after having been read", "crowded collections"],
    run: c13,
};

pub fn c13(c: &mut Ctx) -> Res {
    let k = 3 + c.rng.below(4);
    let mut p = pool(&mut c.rng, k);
    let vp = pool(&mut c.rng, 3);
    let mut m = Model::default();
    let mut d = DataSet::new();
    let mut trace: Vec<String> = vec![];
    let mut first: Vec<Edit> = vec![Edit::AddUnlimited("rec".into(), 2), Edit::AddFixed("fix".into(), 3)];
    for v in &vp {
        first.push(Edit::AddVar(v.clone(), if c.rng.bool() { vec![] } else { vec!["rec".into(), "fix".into()] }, *c.rng.pick(&TYS)));
    }
    for e in &first {
        model::step(&mut m, &mut d, e, &mut c.rng, &mut c.obs)?;
    }
    if !cfg!(miri) && c.idx % 250 == 11 {
        let sizes: Vec<usize> = (0..3).map(|_| crowd(&mut c.rng)).collect();
        p = (0..sizes.iter().max().unwrap() + 6).map(|i| format!("name{}", i)).collect();
        for (k, n) in sizes.iter().enumerate() {
            for i in 0..*n {
                let a = attr(&mut c.rng, p[i].clone());
                let e = if k == 0 { Edit::AddGAttr(a) } else { Edit::AddVAttr(vp[k].clone(), a) };
                at_once(&mut m, &mut d, &e, &mut c.rng)?;
            }
        }
        c.obs.add("crowded collections", 3);
    }
    let n = if cfg!(miri) { 6 } else { 10 + c.rng.below(50) };
    for _ in 0..n {
        let r = &mut c.rng;
        let e = match r.below(22) {
            0..=3 => {
                let n = pick_name(r, &p);
                Edit::AddGAttr(attr(r, n))
            }
            4..=5 => Edit::RemoveGAttr(pick_name(r, &p)),
            6..=8 => Edit::RenameGAttr(pick_name(r, &p), pick_name(r, &p)),
            9..=13 => {
                let n = pick_name(r, &p);
                Edit::AddVAttr(pick_name(r, &vp), attr(r, n))
            }
            14..=15 => Edit::RemoveVAttr(pick_name(r, &vp), pick_name(r, &p)),
            16..=19 => Edit::RenameVAttr(pick_name(r, &vp), pick_name(r, &p), pick_name(r, &p)),
            20 => Edit::RenameVar(pick_name(r, &vp), pick_name(r, &vp)),
            _ => {
                if r.bool() {
                    Edit::RemoveVar(pick_name(r, &vp))
                } else {
                    Edit::AddVar(pick_name(r, &vp), vec!["fix".into()], *r.pick(&TYS))
                }
            }
        };
        trace.push(format!("{:?}", e));
        if c.obs.verbose {
            let s = trace.last().unwrap().clone();
            c.obs.note(|| s);
        }
        if through_file(c, &m, &mut d)? {
            trace.push("(after a passage through a file)".into());
        }
        model::step(&mut m, &mut d, &e, &mut c.rng, &mut c.obs).map_err(|x| format!("{} (history: {})", x, trace.join("; ")))?;
        for x in &p {
            let g = m.gattrs.iter().find(|a| a.name == *x);
            check!(d.has_global_attr(x) == g.is_some(), "has_global_attr({:?}) is {} after {}", x, d.has_global_attr(x), trace.join("; "));
            let got = d.get_global_attr(x).map(observe_attr).transpose()?;
            check!(got.as_ref() == g, "get_global_attr({:?}) returns {:?} instead of {:?} after {}", x, got, g, trace.join("; "));
            for v in &vp {
                let w = m.var(v).map(|i| m.vars[i].attrs.iter().find(|a| a.name == *x));
                check!(d.has_var_attr(v, x) == w.map(|y| y.is_some()), "has_var_attr({:?}, {:?}) is {:?} after {}", v, x, d.has_var_attr(v, x), trace.join("; "));
                let got = d.get_var_attr(v, x).map(observe_attr).transpose()?;
                check!(got.as_ref() == w.flatten(), "get_var_attr({:?}, {:?}) returns {:?} instead of {:?} after {}", v, x, got, w, trace.join("; "));
            }
        }
    }
    c.obs.max("global attributes", m.gattrs.len() as u64);
    let t = trace.join("; ");
    c.obs.distinct(hash_of(&t));
    c.obs.sample(|| t);
    Ok(())
}

// ------------------------------------------------------------------------------------------------

const CHAR_BLOCK: u32 = 4096;
const CHAR_BLOCKS: u64 = 0x11_0000 / CHAR_BLOCK as u64;
const PAIR_CASES: u64 = 128;

pub const C14: Prop = Prop {
    id: "C14",
    quick: CHAR_BLOCKS + PAIR_CASES + 1000,
    thorough: CHAR_BLOCKS + PAIR_CASES + 30000,
    level: "exploration",
    rule: "every Unicode character in first and in later position, every pair of ASCII characters, all lengths up to 300 bytes made of characters of 1 to 4 bytes, and random names next to the valid ones, and just after names which differ by one character, at each entry point (is_valid_name, new dimension, variable, attribute, each renaming, each kind of name in a file) in turn or all together, against an independent predicate; distinct by name tried",
    assumptions: &["a name is characters of a Rust string or bytes of a file: bytes which are not UTF-8 belong to C10"],
    required: &["names accepted", "names rejected", "names in files", "add_fixed_dim", "set_unlimited_dim", "rename_dim", "add_var", "rename_var", "add_global_attr", "rename_global_attr", "add_var_attr", "rename_var_attr", "names which look alike"],
    run: c14,
};

/// The entry points of the data set: an edit which must succeed if and only if the name is valid.
fn entry(i: usize, n: &str, r: &mut Rng) -> Edit {
    let a = |n: &str, r: &mut Rng| attr(r, n.to_string());
    match i {
        0 => Edit::AddFixed(n.to_string(), 3),
        1 => Edit::AddUnlimited(n.to_string(), 3),
        2 => Edit::RenameDim("old".into(), n.to_string()),
        3 => Edit::AddVar(n.to_string(), vec!["old".into()], *r.pick(&TYS)),
        4 => Edit::RenameVar("old".into(), n.to_string()),
        5 => Edit::AddGAttr(a(n, r)),
        6 => Edit::RenameGAttr("old".into(), n.to_string()),
        7 => Edit::AddVAttr("old".into(), a(n, r)),
        _ => Edit::RenameVAttr("old".into(), "old".into(), n.to_string()),
    }
}
const ENTRIES: usize = 9;

fn named_base(r: &mut Rng) -> (Model, DataSet) {
    let mut m = Model::default();
    let mut d = DataSet::new();
    let old = Attr { name: "old".into(), ty: Ty::I16, data: vec![0, 1] };
    for e in [Edit::AddFixed("old".into(), 2), Edit::AddVar("old".into(), vec![], Ty::I32), Edit::AddGAttr(old.clone()), Edit::AddVAttr("old".into(), old.clone())] {
        m.apply(&e);
        model::run(&mut d, &e, r).expect("base definition");
    }
    (m, d)
}

fn try_entry(i: usize, n: &str, r: &mut Rng, obs: &mut Obs) -> Res {
    let (mut m, mut d) = named_base(r);
    let e = entry(i, n, r);
    model::step(&mut m, &mut d, &e, r, obs)
}

fn try_name(n: &str, all: bool, turn: usize, r: &mut Rng, obs: &mut Obs) -> Res {
    if n == "old" {
        return Ok(());
    }
    let ok = name_ok(n);
    check!(netcdf3::is_valid_name(n) == ok, "is_valid_name({:?}) is {}", n, !ok);
    obs.add(if ok { "names accepted" } else { "names rejected" }, 1);
    if all {
        for i in 0..ENTRIES {
            try_entry(i, n, r, obs)?;
        }
    } else {
        try_entry(turn % ENTRIES, n, r, obs)?;
    }
    obs.distinct(hash_of(&n));
    Ok(())
}

/// The name in a file, as the name of something: read if and only if it is valid.
fn in_file(c: &mut Ctx, n: &str, what: usize) -> Res {
    let version = 1 + (what % 2) as u8;
    let mut s = Spec::empty(version);
    let a = |n: &str| Attr { name: n.to_string(), ty: Ty::I32, data: vec![0, 0, 0, 7] };
    let pick = |w: usize, other: &str| if what % 4 == w { n.to_string() } else { other.to_string() };
    s.dims.push(Dim { name: pick(0, "d"), size: Some(2) });
    s.gattrs.push(a(&pick(1, "g")));
    s.vars.push(Var { name: pick(2, "v"), dims: vec![0], ty: Ty::I16, attrs: vec![a(&pick(3, "w"))] });
    let vals = s.filled();
    let b = canonical(&s, 0, &vals);
    let path = c.path("name.nc");
    std::fs::write(&path, &b).map_err(|e| format!("harness: {}", e))?;
    let got = FileReader::open(&path);
    c.obs.add("names in files", 1);
    match (got, name_ok(n)) {
        (Ok(rd), true) => check_def(&rd, &s),
        (Ok(_), false) => Err(format!("a file with the name {:?} is accepted", n)),
        (Err(e), true) => Err(format!("a file with the name {:?} is rejected: {:?}", n, e)),
        (Err(_), false) => Ok(()),
    }
}

/// All these valid names in one file.
fn many_in_file(c: &mut Ctx, names: &[String]) -> Res {
    let mut s = Spec::empty(2);
    for (i, n) in names.iter().enumerate() {
        match i % 3 {
            0 => s.dims.push(Dim { name: n.clone(), size: Some(1) }),
            1 => s.gattrs.push(Attr { name: n.clone(), ty: Ty::I8, data: vec![1] }),
            _ => s.vars.push(Var { name: n.clone(), dims: vec![], ty: Ty::I8, attrs: vec![Attr { name: n.clone(), ty: Ty::U8, data: vec![] }] }),
        }
    }
    let b = encode_header(&s, &Layout::canonical(&s, 0)).0;
    let path = c.path("names.nc");
    std::fs::write(&path, &b).map_err(|e| format!("harness: {}", e))?;
    let rd = FileReader::open(&path).map_err(|e| format!("a file with the names {:?}... is rejected: {:?}", &names[..names.len().min(3)], e))?;
    check_def(&rd, &s)?;
    c.obs.add("names in files", names.len() as u64);
    Ok(())
}

fn c14(c: &mut Ctx) -> Res {
    if c.idx < CHAR_BLOCKS {
        let lo = c.idx as u32 * CHAR_BLOCK;
        let mut good: Vec<String> = vec![];
        for x in (lo..lo + CHAR_BLOCK).filter_map(char::from_u32) {
            for (k, n) in [x.to_string(), format!("{}a", x), format!("a{}", x), format!("_{}é", x)].iter().enumerate() {
                let all = c.thorough || x < '\u{180}' || c.rng.one_in(500);
                // between two full trials, another entry point each time
                let turn = c.rng.below(ENTRIES);
                try_name(n, all, turn, &mut c.rng, &mut c.obs)?;
                if x < '\u{180}' {
                    for w in 0..4 {
                        in_file(c, n, w)?;
                    }
                } else if k == (x as usize) % 4 && name_ok(n) {
                    good.push(n.clone());
                }
            }
        }
        for part in good.chunks(700) {
            many_in_file(c, part)?;
        }
        c.obs.add("characters", 1);
        return Ok(());
    }
    let i = c.idx - CHAR_BLOCKS;
    if i < PAIR_CASES {
        // all the pairs beginning with an ASCII character, alone and after a first letter
        let x = i as u8 as char;
        for y in 0..128u8 {
            for n in [format!("{}{}", x, y as char), format!("z{}{}", x, y as char), format!("é{}{}", y as char, x)] {
                let turn = c.rng.below(ENTRIES);
                let all = c.rng.one_in(20);
                try_name(&n, all, turn, &mut c.rng, &mut c.obs)?;
                let w = c.rng.below(4);
                if c.thorough || c.rng.one_in(4) {
                    in_file(c, &n, w)?;
                }
            }
        }
        return Ok(());
    }
    // lengths and random names
    for _ in 0..8 {
        let target = if c.rng.bool() { 250 + c.rng.below(12) } else { c.rng.below(300) };
        let set = *c.rng.pick(&[&['a', '0'][..], &['é', 'ß'][..], &['€', '漢'][..], &['\u{1F30D}', '\u{10FFFF}'][..], &['n', 'é', '€', '\u{1F30D}', ' '][..]]);
        let mut n = String::new();
        while n.len() < target {
            let x = *c.rng.pick(set);
            if n.len() + x.len_utf8() <= target {
                n.push(x);
            } else {
                n.push('z');
            }
        }
        if c.rng.one_in(4) && !n.is_empty() {
            // one character replaced
            let v: Vec<char> = n.chars().collect();
            let k = *c.rng.pick(&[0, v.len() - 1, v.len() / 2]);
            let x = *c.rng.pick(&['/', '\n', '\0', '\u{7F}', '.', ' ', '~', '\t', '!']);
            n = v.iter().enumerate().map(|(i, y)| if i == k { x } else { *y }).collect();
        }
        try_name(&n, true, 0, &mut c.rng, &mut c.obs).map_err(|e| format!("({} bytes) {}", n.len(), e))?;
        c.obs.max("name length", n.len() as u64);
        // names which look alike, one after the other
        let v: Vec<char> = n.chars().collect();
        for _ in 0..if cfg!(miri) { 1 } else { 12 } {
            if v.is_empty() {
                break;
            }
            let k = c.rng.below(v.len());
            let x = *c.rng.pick(&['/', '\n', '\0', '\u{7F}', '.', ' ', '~', 'a', '_', 'é', '\u{80}']);
            let like: String = v.iter().enumerate().map(|(i, y)| if i == k { x } else { *y }).collect();
            for n in [&n, &like, &n] {
                check!(netcdf3::is_valid_name(n) == name_ok(n), "is_valid_name({:?}) is {} just after names like it", n, !name_ok(n));
            }
            let (mut m, mut d) = named_base(&mut c.rng);
            for n in if c.rng.bool() { [&n, &like] } else { [&like, &n] } {
                let i = c.rng.below(ENTRIES);
                let e = entry(i, n, &mut c.rng);
                model::step(&mut m, &mut d, &e, &mut c.rng, &mut c.obs).map_err(|e| format!("just after a name like it: {}", e))?;
            }
            c.obs.add("names which look alike", 1);
        }
        for w in 0..4 {
            in_file(c, &n, w).map_err(|e| format!("({} bytes) {}", n.len(), e))?;
        }
        c.obs.sample(|| n.clone());
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------

pub const C15: Prop = Prop {
    id: "C15",
    quick: 480000,
    thorough: 3000000,
    level: "exploration",
    rule: "random definitions with dimensions from 1 to the largest allowed and any number of records, edited at random; before and after each edit every derived size is computed exactly (128 bits, saturating) from the model and compared with the one of the data set, the variables and the dimensions; distinct by definition",
    assumptions: &["a size which does not fit 64 bits only has to be reported as at least 2^63, without panic"],
    required: &["sizes compared", "oversized", "edits accepted", "record variables", "elements replaced"],
    run: c15,
};

fn same_size(what: &str, got: usize, want: u128, obs: &mut Obs) -> Res {
    obs.add("sizes compared", 1);
    if want <= usize::MAX as u128 {
        check!(got as u128 == want, "{} is {} instead of {}", what, got, want);
    } else {
        obs.add("oversized", 1);
        check!(got as u128 >= 1 << 63, "{} is {} although it exceeds 64 bits", what, got);
    }
    Ok(())
}

fn round4(x: u128) -> u128 {
    x.saturating_add((4 - x % 4) % 4)
}

/// The sizes of a data set built from a definition.
pub fn check_spec_sizes(d: &DataSet, s: &Spec, obs: &mut Obs) -> Res {
    check_sizes(d, &Model::of(s), obs)
}

fn check_sizes(d: &DataSet, m: &Model, obs: &mut Obs) -> Res {
    let unlim = m.dims.iter().find(|x| x.unlimited);
    let mut record: u128 = 0;
    check!(d.num_dims() == m.dims.len() && d.num_vars() == m.vars.len(), "{} dimensions and {} variables instead of {} and {}", d.num_dims(), d.num_vars(), m.dims.len(), m.vars.len());
    check!(d.num_records() == unlim.map(|x| x.size), "num_records is {:?} instead of {:?}", d.num_records(), unlim.map(|x| x.size));
    for x in &m.dims {
        check!(d.dim_size(&x.name) == Some(x.size), "dim_size({:?}) is {:?} instead of {}", x.name, d.dim_size(&x.name), x.size);
    }
    for v in &m.vars {
        let dims: Vec<&model::MDim> = v.dims.iter().map(|i| m.dims.iter().find(|x| x.id == *i).unwrap()).collect();
        let rec = dims.first().map_or(false, |x| x.unlimited);
        let chunk_len = dims.iter().filter(|x| !x.unlimited).fold(1u128, |p, x| p.saturating_mul(x.size as u128));
        let chunks = if rec { dims[0].size } else { 1 };
        let chunk_size = round4(chunk_len.saturating_mul(v.ty.size() as u128));
        if rec {
            record = record.saturating_add(chunk_size);
            obs.add("record variables", 1);
        }
        let x = d.get_var(&v.name).ok_or(format!("variable {:?} not found", v.name))?;
        let all = d.get_vars();
        let y = all.iter().find(|y| y.name() == v.name).ok_or(format!("variable {:?} not listed", v.name))?;
        for x in [x, y] {
            let t = format!("variable {:?} {:?}{:?}", v.name, v.ty, dims.iter().map(|x| x.size).collect::<Vec<_>>());
            check!(x.is_record_var() == rec, "{}: is_record_var is {}", t, x.is_record_var());
            check!(x.num_chunks() == chunks, "{}: num_chunks is {} instead of {}", t, x.num_chunks(), chunks);
            check!(x.num_dims() == dims.len(), "{}: num_dims is {}", t, x.num_dims());
            same_size(&format!("{}: chunk_len", t), x.chunk_len(), chunk_len, obs)?;
            same_size(&format!("{}: chunk_size", t), x.chunk_size(), chunk_size, obs)?;
            // no record: nothing, whatever the chunk
            let len = chunk_len.saturating_mul(chunks as u128);
            same_size(&format!("{}: len", t), x.len(), len, obs)?;
            let w = d.var_len(&v.name);
            check!(w.is_some(), "{}: var_len is None", t);
            same_size(&format!("{}: var_len", t), w.unwrap(), len, obs)?;
        }
        check!(d.is_record_var(&v.name) == Some(rec), "is_record_var({:?}) is {:?}", v.name, d.is_record_var(&v.name));
    }
    match (d.record_size(), unlim) {
        (None, None) => Ok(()),
        (Some(x), Some(_)) => same_size("record_size", x, record, obs),
        (g, _) => Err(format!("record_size is {:?} although unlimited dimension: {:?}", g, unlim)),
    }
}

fn c15(c: &mut Ctx) -> Res {
    let k = 3 + c.rng.below(4);
    let dp = pool(&mut c.rng, k);
    // once in a while many variables
    let nvars = if !cfg!(miri) && c.rng.one_in(8) { 4 + c.rng.below(20) } else { 4 };
    let vp = pool(&mut c.rng, nvars);
    let mut m = Model::default();
    let mut d = DataSet::new();
    let big = c.rng.pct(40);
    let mut trace = vec![];
    // a first definition
    let mut edits: Vec<Edit> = vec![];
    for n in &dp {
        let size = if big { *c.rng.pick(&[1usize, 2, 3, 1000, 65536, 1 << 20, 1 << 30, MAX_DIM, MAX_DIM - 1, 3 << 29]) } else { 1 + c.rng.below(12) };
        edits.push(if c.rng.one_in(3) {
            Edit::AddUnlimited(n.clone(), *c.rng.pick(&[0usize, 1, 2, 5, 1 << 31, 1 << 32, 1 << 40, usize::MAX, usize::MAX / 2]))
        } else {
            Edit::AddFixed(n.clone(), size)
        });
    }
    for e in edits {
        trace.push(format!("{:?}", e));
        model::step(&mut m, &mut d, &e, &mut c.rng, &mut c.obs)?;
    }
    for i in 0..if cfg!(miri) { 7 } else { 10 + nvars } {
        let e = if i < nvars {
            let ds = dims_for(&mut c.rng, &m, &dp);
            Edit::AddVar(vp[i].clone(), ds, *c.rng.pick(&TYS))
        } else {
            dim_var_edit(&mut c.rng, &m, &dp, &vp)
        };
        if through_file(c, &m, &mut d)? {
            trace.push("(through a file)".into());
        }
        trace.push(format!("{:?}", e));
        model::step(&mut m, &mut d, &e, &mut c.rng, &mut c.obs)?;
        if i >= nvars && !m.vars.is_empty() && c.rng.one_in(4) {
            // a variable (or dimension) makes way for another one of the same name, and nothing is asked in between
            let k = if c.rng.bool() { m.vars.len() - 1 } else { c.rng.below(m.vars.len()) };
            let n = m.vars[k].name.clone();
            let mut l = vec![Edit::RemoveVar(n.clone())];
            let free = |m: &Model, d: &String| !m.vars.iter().any(|v| v.name != n && v.dims.iter().any(|x| m.dims.iter().any(|y| y.id == *x && y.name == *d)));
            let ds: Vec<String> = m.dims.iter().map(|x| x.name.clone()).filter(|x| free(&m, x)).collect();
            if !ds.is_empty() && c.rng.bool() {
                let x = c.rng.pick(&ds).clone();
                let size = 1 + c.rng.below(9);
                l.push(Edit::RemoveDim(x.clone()));
                l.push(if c.rng.one_in(3) { Edit::AddUnlimited(x, size) } else { Edit::AddFixed(x, size) });
            }
            for e in l {
                trace.push(format!("{:?}", e));
                model::step(&mut m, &mut d, &e, &mut c.rng, &mut c.obs)?;
            }
            let ds = dims_for(&mut c.rng, &m, &dp);
            let e = Edit::AddVar(n, ds, *c.rng.pick(&TYS));
            trace.push(format!("{:?}", e));
            model::step(&mut m, &mut d, &e, &mut c.rng, &mut c.obs)?;
            c.obs.add("elements replaced", 1);
        }
        // sometimes several edits between two questions
        if c.rng.pct(70) {
            check_sizes(&d, &m, &mut c.obs).map_err(|x| format!("{} (history: {})", x, trace.join("; ")))?;
        }
    }
    check_sizes(&d, &m, &mut c.obs).map_err(|x| format!("{} (history: {})", x, trace.join("; ")))?;
    // a variable taken out of the data set still knows its sizes
    if let Some(v) = m.vars.first().cloned() {
        let (mut m2, before) = (m.clone(), d.get_var(&v.name).map(|x| (x.len(), x.chunk_len(), x.chunk_size(), x.num_chunks(), x.is_record_var())));
        m2.apply(&Edit::RemoveVar(v.name.clone()));
        let out = d.remove_var(&v.name).map_err(|e| format!("remove_var: {:?}", e))?;
        let after = Some((out.len(), out.chunk_len(), out.chunk_size(), out.num_chunks(), out.is_record_var()));
        check!(before == after, "the sizes of the removed variable {:?} change from {:?} to {:?}", v.name, before, after);
        check_sizes(&d, &m2, &mut c.obs)?;
    }
    let t = trace.join("; ");
    c.obs.distinct(hash_of(&t));
    c.obs.sample(|| t);
    Ok(())
}

// ------------------------------------------------------------------------------------------------

pub const C22: Prop = Prop {
    id: "C22",
    quick: 240000,
    thorough: 2000000,
    level: "exploration",
    rule: "random definitions, in memory and read from a file: every getter of attributes, vectors, variables, dimensions and data set, by every way to reach them, typed and generic, borrowed and owned, with defined and undefined names, is compared with the model and so with each other; the enumerations DataType and Version are tried on all small and random codes; distinct by definition",
    assumptions: &[],
    required: &["getters compared", "typed getters compared", "strings", "unknown names", "codes"],
    run: c22,
};

macro_rules! typed {
    ($obs:expr, $what:expr, $t:expr, $b:expr, $($ty:expr, $conv:expr, $got:expr);+ $(;)?) => {
        $(
            {
                let got: Option<Vec<u8>> = $got.map($conv);
                let want: Option<&[u8]> = if $t == $ty { Some($b) } else { None };
                check!(got.as_deref() == want, "{}: the {:?} getter returns {:?} instead of {:?} (type {:?})", $what, $ty, got, want, $t);
                $obs.add("typed getters compared", 1);
            }
        )+
    };
}

fn text(a: &Attr) -> Option<String> {
    if a.ty == Ty::U8 { String::from_utf8(a.data.clone()).ok() } else { None }
}

fn check_attr(what: &str, a: &Attribute, w: &Attr, obs: &mut Obs) -> Res {
    check!(a.name() == w.name, "{}: name() is {:?}", what, a.name());
    check!(a.data_type() == dt(w.ty) && a.len() == w.len(), "{}: {:?} of {} instead of {:?} of {}", what, a.data_type(), a.len(), w.ty, w.len());
    typed!(obs, what, w.ty, &w.data[..],
        Ty::I8, of_i8, a.get_i8();
        Ty::U8, |x: &[u8]| x.to_vec(), a.get_u8();
        Ty::I16, of_i16, a.get_i16();
        Ty::I32, of_i32, a.get_i32();
        Ty::F32, of_f32, a.get_f32();
        Ty::F64, of_f64, a.get_f64());
    check!(a.get_as_string() == text(w), "{}: get_as_string is {:?} for {:?}", what, a.get_as_string(), w);
    if a.get_as_string().is_some() {
        obs.add("strings", 1);
    }
    Ok(())
}

/// The dimensions of a list of identifiers.
pub fn by_ids(d: &DataSet, dims: &[Rc<Dimension>], r: &mut Rng, most: usize) -> Res {
    let n = r.below(most);
    let top = dims.len() + if r.bool() { 0 } else { 3 } + (dims.is_empty() as usize);
    let far = r.one_in(10);
    let mut ids: Vec<usize> = vec![];
    for _ in 0..n {
        let again = !ids.is_empty() && r.one_in(4);
        ids.push(if again {
            if r.bool() { ids[ids.len() - 1] } else { ids[r.below(ids.len())] }
        } else if far && r.one_in(3) {
            *r.pick(&[usize::MAX, 1 << 32, 1 << 31, u32::MAX as usize, 65536, 256])
        } else {
            r.below(top)
        });
    }
    let not_found: Vec<usize> = ids.iter().copied().filter(|i| *i >= dims.len()).collect();
    match d.get_dims_from_dim_ids(&ids) {
        Ok(l) => {
            check!(not_found.is_empty(), "get_dims_from_dim_ids({:?}) is accepted with {} dimensions", ids, dims.len());
            check!(l.len() == ids.len() && l.iter().zip(&ids).all(|(x, i)| Rc::ptr_eq(x, &dims[*i])), "get_dims_from_dim_ids({:?}) returns {:?}", ids, l);
        }
        Err(e) => {
            let want = InvalidDataSet::DimensionIdsNotFound { defined: (0..dims.len()).collect(), searched: ids.clone(), not_found: not_found.clone() };
            check!(!not_found.is_empty() && model::same_error(&e, &want), "get_dims_from_dim_ids({:?}) fails with {:?} with {} dimensions", ids, e, dims.len());
        }
    }
    Ok(())
}

fn check_var(what: &str, x: &Variable, s: &Spec, i: usize, unknown: &[String], obs: &mut Obs) -> Res {
    let v = &s.vars[i];
    check!(x.name() == v.name && x.data_type() == dt(v.ty), "{}: {:?} {:?} instead of {:?} {:?}", what, x.name(), x.data_type(), v.name, v.ty);
    check!(x.num_dims() == v.dims.len() && x.num_attrs() == v.attrs.len(), "{}: {} dimensions, {} attributes", what, x.num_dims(), x.num_attrs());
    let names: Vec<String> = v.dims.iter().map(|d| s.dims[*d].name.clone()).collect();
    check!(x.dim_names() == names, "{}: dim_names {:?} instead of {:?}", what, x.dim_names(), names);
    check!(x.get_dims().iter().map(|d| d.name()).collect::<Vec<_>>() == names, "{}: get_dims {:?} instead of {:?}", what, x.get_dims(), names);
    for d in &s.dims {
        check!(x.use_dim(&d.name) == names.contains(&d.name), "{}: use_dim({:?}) is {}", what, d.name, x.use_dim(&d.name));
    }
    let attr_names: Vec<String> = v.attrs.iter().map(|a| a.name.clone()).collect();
    check!(x.get_attr_names() == attr_names, "{}: get_attr_names {:?} instead of {:?}", what, x.get_attr_names(), attr_names);
    check!(x.get_attrs().iter().map(|a| a.name().to_string()).collect::<Vec<_>>() == attr_names, "{}: get_attrs differs from {:?}", what, attr_names);
    for n in attr_names.iter().chain(unknown.iter()) {
        let w = v.attrs.iter().find(|a| a.name == *n);
        let t = format!("{}, attribute {:?}", what, n);
        check!(x.has_attr(n) == w.is_some(), "{}: has_attr is {}", t, x.has_attr(n));
        check!(x.get_attr(n).is_some() == w.is_some(), "{}: get_attr is {:?}", t, x.get_attr(n));
        if let (Some(a), Some(w)) = (x.get_attr(n), w) {
            check_attr(&t, a, w, obs)?;
        }
        let none = Attr { name: String::new(), ty: Ty::I8, data: vec![] };
        let a = w.unwrap_or(&none);
        check!(x.get_attr_as_string(n) == w.and_then(text), "{}: get_attr_as_string is {:?}", t, x.get_attr_as_string(n));
        if w.is_some() {
            typed!(obs, t, a.ty, &a.data[..],
                Ty::I8, of_i8, x.get_attr_i8(n);
                Ty::U8, |x: &[u8]| x.to_vec(), x.get_attr_u8(n);
                Ty::I16, of_i16, x.get_attr_i16(n);
                Ty::I32, of_i32, x.get_attr_i32(n);
                Ty::F32, of_f32, x.get_attr_f32(n);
                Ty::F64, of_f64, x.get_attr_f64(n));
        } else {
            obs.add("unknown names", 1);
            let any = x.get_attr_i8(n).is_some() || x.get_attr_u8(n).is_some() || x.get_attr_i16(n).is_some() || x.get_attr_i32(n).is_some() || x.get_attr_f32(n).is_some() || x.get_attr_f64(n).is_some();
            check!(!any, "{}: a typed getter returns data of an undefined attribute", t);
        }
    }
    Ok(())
}

fn check_dim(what: &str, x: &Dimension, s: &Spec, i: usize) -> Res {
    let d = &s.dims[i];
    let size = d.size.unwrap_or(s.numrecs);
    let ty = if d.size.is_none() { DimensionType::UnlimitedSize } else { DimensionType::FixedSize };
    check!(
        x.name() == d.name && x.size() == size && x.dim_type() == ty && x.is_unlimited() == d.size.is_none() && x.is_fixed() == d.size.is_some(),
        "{}: {:?} {} {:?} {} {} instead of {:?} of {:?}",
        what,
        x.name(),
        x.size(),
        x.dim_type(),
        x.is_unlimited(),
        x.is_fixed(),
        d,
        size
    );
    Ok(())
}

fn check_set(d: &DataSet, s: &Spec, unknown: &[String], r: &mut Rng, obs: &mut Obs) -> Res {
    // dimensions
    let names: Vec<String> = s.dims.iter().map(|x| x.name.clone()).collect();
    check!(d.num_dims() == names.len() && d.dim_names() == names, "dim_names is {:?} instead of {:?}", d.dim_names(), names);
    let dims = d.get_dims();
    check!(dims.len() == names.len(), "get_dims returns {} dimensions", dims.len());
    for n in names.iter().chain(unknown.iter()) {
        let i = names.iter().position(|x| x == n);
        check!(d.has_dim(n) == i.is_some() && d.get_dim(n).is_some() == i.is_some() && d.dim_size(n).is_some() == i.is_some() && d.dim_type(n).is_some() == i.is_some(), "dimension {:?}: the lookups disagree", n);
        if let Some(i) = i {
            check_dim("get_dim", &d.get_dim(n).unwrap(), s, i)?;
            check_dim("get_dims", &dims[i], s, i)?;
            check!(d.dim_size(n) == Some(dims[i].size()) && d.dim_type(n) == Some(dims[i].dim_type()), "dimension {:?}: dim_size {:?}, dim_type {:?}", n, d.dim_size(n), d.dim_type(n));
            check!(Rc::ptr_eq(&dims[i], &d.get_dim(n).unwrap()), "dimension {:?}: two objects", n);
        }
    }
    check!(d.has_unlimited_dim() == s.unlim().is_some(), "has_unlimited_dim is {}", d.has_unlimited_dim());
    check!(d.get_unlimited_dim().map(|x| x.name()) == s.unlim().map(|i| names[i].clone()), "get_unlimited_dim is {:?}", d.get_unlimited_dim());
    for _ in 0..3 {
        let k = if r.one_in(20) { 1 + r.below(60) } else { 5 };
        by_ids(d, &dims, r, k)?;
    }
    // global attributes
    let names: Vec<String> = s.gattrs.iter().map(|x| x.name.clone()).collect();
    check!(d.num_global_attrs() == names.len() && d.get_global_attr_names() == names, "get_global_attr_names is {:?} instead of {:?}", d.get_global_attr_names(), names);
    check!(d.get_global_attrs().iter().map(|a| a.name().to_string()).collect::<Vec<_>>() == names, "get_global_attrs differs from {:?}", names);
    for n in names.iter().chain(unknown.iter()) {
        let w = s.gattrs.iter().find(|a| a.name == *n);
        let t = format!("global attribute {:?}", n);
        check!(d.has_global_attr(n) == w.is_some() && d.get_global_attr(n).is_some() == w.is_some(), "{}: the lookups disagree", t);
        check!(d.get_global_attr_len(n) == w.map(|a| a.len()), "{}: get_global_attr_len is {:?}", t, d.get_global_attr_len(n));
        check!(d.get_global_attr_data_type(n) == w.map(|a| dt(a.ty)), "{}: get_global_attr_data_type is {:?}", t, d.get_global_attr_data_type(n));
        check!(d.get_global_attr_as_string(n) == w.and_then(text), "{}: get_global_attr_as_string is {:?}", t, d.get_global_attr_as_string(n));
        match w {
            Some(a) => {
                check_attr(&t, d.get_global_attr(n).unwrap(), a, obs)?;
                typed!(obs, t, a.ty, &a.data[..],
                    Ty::I8, of_i8, d.get_global_attr_i8(n);
                    Ty::U8, |x: &[u8]| x.to_vec(), d.get_global_attr_u8(n);
                    Ty::I16, of_i16, d.get_global_attr_i16(n);
                    Ty::I32, of_i32, d.get_global_attr_i32(n);
                    Ty::F32, of_f32, d.get_global_attr_f32(n);
                    Ty::F64, of_f64, d.get_global_attr_f64(n));
            }
            None => {
                obs.add("unknown names", 1);
                let any = d.get_global_attr_i8(n).is_some() || d.get_global_attr_u8(n).is_some() || d.get_global_attr_i16(n).is_some() || d.get_global_attr_i32(n).is_some() || d.get_global_attr_f32(n).is_some() || d.get_global_attr_f64(n).is_some();
                check!(!any, "{}: a typed getter returns data", t);
            }
        }
    }
    // variables
    let names: Vec<String> = s.vars.iter().map(|x| x.name.clone()).collect();
    check!(d.num_vars() == names.len() && d.get_var_names() == names, "get_var_names is {:?} instead of {:?}", d.get_var_names(), names);
    let vars = d.get_vars();
    check!(vars.len() == names.len(), "get_vars returns {} variables", vars.len());
    for n in names.iter().chain(unknown.iter()) {
        let i = names.iter().position(|x| x == n);
        let t = format!("variable {:?}", n);
        check!(d.has_var(n) == i.is_some() && d.get_var(n).is_some() == i.is_some(), "{}: the lookups disagree", t);
        check!(d.is_record_var(n) == i.map(|i| s.is_rec(i)), "{}: is_record_var is {:?}", t, d.is_record_var(n));
        check!(d.var_data_type(n) == i.map(|i| dt(s.vars[i].ty)), "{}: var_data_type is {:?}", t, d.var_data_type(n));
        check!(d.var_len(n) == i.map(|i| s.chunk_len(i) as usize * s.nchunks(i)), "{}: var_len is {:?}", t, d.var_len(n));
        check!(d.num_var_attrs(n) == i.map(|i| s.vars[i].attrs.len()), "{}: num_var_attrs is {:?}", t, d.num_var_attrs(n));
        let list = d.get_var_attrs(n).map(|l| l.iter().map(|a| a.name().to_string()).collect::<Vec<_>>());
        check!(list == i.map(|i| s.vars[i].attrs.iter().map(|a| a.name.clone()).collect()), "{}: get_var_attrs is {:?}", t, list);
        if let Some(i) = i {
            check_var(&format!("get_var({:?})", n), d.get_var(n).unwrap(), s, i, unknown, obs)?;
            check_var(&format!("get_vars, {:?}", n), vars[i], s, i, unknown, obs)?;
        }
        let defined: Vec<String> = i.map(|i| s.vars[i].attrs.iter().map(|a| a.name.clone()).collect()).unwrap_or_default();
        for k in defined.iter().chain(unknown.iter()) {
            let w = i.and_then(|i| s.vars[i].attrs.iter().find(|a| a.name == *k));
            let t = format!("variable {:?}, attribute {:?}", n, k);
            check!(d.has_var_attr(n, k) == i.map(|_| w.is_some()), "{}: has_var_attr is {:?}", t, d.has_var_attr(n, k));
            check!(d.get_var_attr(n, k).is_some() == w.is_some(), "{}: get_var_attr is {:?}", t, d.get_var_attr(n, k));
            check!(d.get_var_attr_len(n, k) == w.map(|a| a.len()), "{}: get_var_attr_len is {:?}", t, d.get_var_attr_len(n, k));
            check!(d.get_var_attr_data_type(n, k) == w.map(|a| dt(a.ty)), "{}: get_var_attr_data_type is {:?}", t, d.get_var_attr_data_type(n, k));
            check!(d.get_var_attr_as_string(n, k) == w.and_then(text), "{}: get_var_attr_as_string is {:?}", t, d.get_var_attr_as_string(n, k));
            match w {
                Some(a) => {
                    check_attr(&t, d.get_var_attr(n, k).unwrap(), a, obs)?;
                    typed!(obs, t, a.ty, &a.data[..],
                        Ty::I8, of_i8, d.get_var_attr_i8(n, k);
                        Ty::U8, |x: &[u8]| x.to_vec(), d.get_var_attr_u8(n, k);
                        Ty::I16, of_i16, d.get_var_attr_i16(n, k);
                        Ty::I32, of_i32, d.get_var_attr_i32(n, k);
                        Ty::F32, of_f32, d.get_var_attr_f32(n, k);
                        Ty::F64, of_f64, d.get_var_attr_f64(n, k));
                }
                None => {
                    let any = d.get_var_attr_i8(n, k).is_some() || d.get_var_attr_u8(n, k).is_some() || d.get_var_attr_i16(n, k).is_some() || d.get_var_attr_i32(n, k).is_some() || d.get_var_attr_f32(n, k).is_some() || d.get_var_attr_f64(n, k).is_some();
                    check!(!any, "{}: a typed getter returns data", t);
                }
            }
        }
    }
    obs.add("getters compared", 1);
    Ok(())
}

fn check_vector(r: &mut Rng, obs: &mut Obs) -> Res {
    let t = *r.pick(&TYS);
    let n = r.below(6);
    let b = gen::values(r, t, n);
    let x = to_dv(t, &b);
    check!(x.data_type() == dt(t) && x.len() == n, "a vector of {} {:?} says {} {:?}", n, t, x.len(), x.data_type());
    typed!(obs, "vector", t, &b[..],
        Ty::I8, of_i8, x.get_i8();
        Ty::U8, |x: &[u8]| x.to_vec(), x.get_u8();
        Ty::I16, of_i16, x.get_i16();
        Ty::I32, of_i32, x.get_i32();
        Ty::F32, of_f32, x.get_f32();
        Ty::F64, of_f64, x.get_f64());
    // owned: the vector, or itself back
    macro_rules! owned {
        ($($ty:expr, $f:ident, $conv:expr);+) => {
            $(
                match to_dv(t, &b).$f() {
                    Ok(v) => {
                        let g: Vec<u8> = $conv(&v[..]);
                        check!(t == $ty && g == b, "{} of {:?} {:?} returns {:?}", stringify!($f), t, b, g);
                    }
                    Err(back) => {
                        check!(t != $ty, "{} of {:?} is refused", stringify!($f), t);
                        let (gt, gb) = dv(&back);
                        check!(gt == t && gb == b, "{} of {:?} gives back {:?} {:?} instead of {:?}", stringify!($f), t, gt, gb, b);
                    }
                }
                obs.add("typed getters compared", 1);
            )+
        };
    }
    owned!(Ty::I8, get_i8_into, of_i8; Ty::U8, get_u8_into, |x: &[u8]| x.to_vec(); Ty::I16, get_i16_into, of_i16; Ty::I32, get_i32_into, of_i32; Ty::F32, get_f32_into, of_f32; Ty::F64, get_f64_into, of_f64);
    // equality is the one of the values
    let same = to_dv(t, &b);
    let nan = match t {
        Ty::F32 => to_f32(&b).iter().any(|x| x.is_nan()),
        Ty::F64 => to_f64(&b).iter().any(|x| x.is_nan()),
        _ => false,
    };
    check!((x == same) == !nan, "a vector of {:?} {:?} compared with itself", t, b);
    let u = *r.pick(&TYS);
    if u != t {
        let other = to_dv(u, &vec![0; n * u.size()]);
        check!(x != other, "vectors of {:?} and {:?} are equal", t, u);
    }
    Ok(())
}

fn check_codes(r: &mut Rng, obs: &mut Obs) -> Res {
    let any = [r.below(8) as u32, r.next() as u32, (r.next() as u32) & 0xFF, 1 << r.below(32), (1 << r.below(32)) | r.below(8) as u32];
    for x in any {
        let got = DataType::try_from(x).ok();
        check!(got.as_ref().map(ty) == Ty::from_code(x), "DataType::try_from({}) is {:?}", x, got);
        let v = Version::try_from(x as u8).ok();
        check!(v.as_ref().map(version_num) == (if x as u8 == 1 || x as u8 == 2 { Some(x as u8) } else { None }), "Version::try_from({}) is {:?}", x as u8, v);
        obs.add("codes", 2);
    }
    let c_names = ["NC_BYTE", "NC_CHAR", "NC_SHORT", "NC_INT", "NC_FLOAT", "NC_DOUBLE"];
    let names = ["I8", "U8", "I16", "I32", "F32", "F64"];
    for (i, t) in TYS.iter().enumerate() {
        let x = dt(*t);
        check!(x.size_of() == t.size() && x.c_api_name() == c_names[i] && x.to_string() == format!("DataType::{}", names[i]) && x.clone() as u32 == t.code(), "{:?}: size {}, {}, {}", t, x.size_of(), x.c_api_name(), x);
    }
    Ok(())
}

fn c22(c: &mut Ctx) -> Res {
    let s = if c.rng.one_in(200) { wide_spec(&mut c.rng, &Knobs::small(), 1, 4_000, &mut c.obs) } else if c.rng.bool() { any_spec(&mut c.rng, &Knobs::small()) } else { gen::spec(&mut c.rng, &Knobs { dims: 8, vars: 8, attrs: 6, elems: 60, ..Knobs::default() }) };
    // undefined names, among them names of other things and names next to defined ones
    let mut near: Vec<String> = vec![String::new(), "undefined".to_string()];
    let all: Vec<String> = s.dims.iter().map(|x| x.name.clone()).chain(s.gattrs.iter().map(|x| x.name.clone())).chain(s.vars.iter().flat_map(|v| v.attrs.iter().map(|a| a.name.clone()).chain(std::iter::once(v.name.clone())))).collect();
    for _ in 0..3 {
        if !all.is_empty() {
            let x = c.rng.pick(&all).clone();
            near.push(match c.rng.below(5) {
                0 => format!("{} ", x),
                1 => format!("{}\0", x),
                2 => x.to_lowercase(),
                3 => x.chars().take(x.chars().count() / 2).collect(),
                _ => x,
            });
        }
    }
    near.retain(|x| !x.is_empty() || c.idx % 2 == 0);
    let d = match c.rng.below(3) {
        0 => build_detour(&s, &mut c.rng),
        _ => build(&s, &mut c.rng),
    }
    .map_err(|e| format!("a valid definition is refused: {:?}", e))?;
    check_set(&d, &s, &near, &mut c.rng, &mut c.obs)?;
    // and as read from a file
    let path = c.path("a.nc");
    let vals = s.filled();
    std::fs::write(&path, canonical(&s, 0, &vals)).map_err(|e| format!("harness: {}", e))?;
    let rd = FileReader::open(&path).map_err(|e| format!("open: {:?}", e))?;
    check!(rd.file_path() == path.as_path(), "file_path is {:?}", rd.file_path());
    check_set(rd.data_set(), &s, &near, &mut c.rng, &mut c.obs).map_err(|e| format!("in the data set of the reader: {}", e))?;
    let v = rd.version();
    let (d, w) = rd.close();
    check!(version_num(&w) == s.version && v == w, "close returns version {:?}", w);
    check_set(&d, &s, &near, &mut c.rng, &mut c.obs).map_err(|e| format!("in the data set returned by close: {}", e))?;
    // elements taken out
    if let Some(a) = s.gattrs.first() {
        let mut d = build(&s, &mut c.rng).map_err(|e| format!("a valid definition is refused: {:?}", e))?;
        let out = d.remove_global_attr(&a.name).map_err(|e| format!("remove_global_attr: {:?}", e))?;
        check_attr("removed global attribute", &out, a, &mut c.obs)?;
    }
    if !s.vars.is_empty() {
        let mut d = build(&s, &mut c.rng).map_err(|e| format!("a valid definition is refused: {:?}", e))?;
        let i = c.rng.below(s.vars.len());
        let out = d.remove_var(&s.vars[i].name).map_err(|e| format!("remove_var: {:?}", e))?;
        let missing: Vec<String> = near.iter().filter(|n| s.vars[i].attrs.iter().all(|a| a.name != **n)).cloned().collect();
        check_var("removed variable", &out, &s, i, &missing, &mut c.obs)?;
    }
    for _ in 0..4 {
        check_vector(&mut c.rng, &mut c.obs)?;
    }
    check_codes(&mut c.rng, &mut c.obs)?;
    let t = s.brief();
    c.obs.distinct(hash_of(&s));
    c.obs.sample(|| t);
    Ok(())
}

/// Any edit, for the sessions of other checks.
pub fn any_edit(r: &mut Rng, m: &Model, names: &[String]) -> Edit {
    match r.below(8) {
        0 => {
            let n = pick_name(r, names);
            Edit::AddGAttr(attr(r, n))
        }
        1 => Edit::RenameGAttr(pick_name(r, names), pick_name(r, names)),
        2 => Edit::RemoveGAttr(pick_name(r, names)),
        3 => Edit::RemoveVAttr(pick_name(r, names), pick_name(r, names)),
        _ => dim_var_edit(r, m, names, names),
    }
}
