//! Reference model of the editable data set: ordered lists and names, nothing else. Each edit tells
//! which refusals are justified; if none is, the edit must succeed.

use crate::drive;
use crate::rng::Rng;
use crate::spec::*;
use netcdf3::{DataSet, InvalidDataSet};

#[derive(Clone, Debug)]
pub struct MDim {
    pub id: u64,
    pub name: String,
    pub unlimited: bool,
    pub size: usize,
}

#[derive(Clone, Debug)]
pub struct MVar {
    pub name: String,
    pub dims: Vec<u64>,
    pub ty: Ty,
    pub attrs: Vec<Attr>,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub dims: Vec<MDim>,
    pub gattrs: Vec<Attr>,
    pub vars: Vec<MVar>,
    next: u64,
}

#[derive(Clone, Debug)]
pub enum Edit {
    AddFixed(String, usize),
    AddUnlimited(String, usize),
    RemoveDim(String),
    RenameDim(String, String),
    AddVar(String, Vec<String>, Ty),
    RemoveVar(String),
    RenameVar(String, String),
    AddGAttr(Attr),
    RemoveGAttr(String),
    RenameGAttr(String, String),
    AddVAttr(String, Attr),
    RemoveVAttr(String, String),
    RenameVAttr(String, String, String),
}

impl Edit {
    pub fn kind(&self) -> &'static str {
        match self {
            Edit::AddFixed(..) => "add_fixed_dim",
            Edit::AddUnlimited(..) => "set_unlimited_dim",
            Edit::RemoveDim(..) => "remove_dim",
            Edit::RenameDim(..) => "rename_dim",
            Edit::AddVar(..) => "add_var",
            Edit::RemoveVar(..) => "remove_var",
            Edit::RenameVar(..) => "rename_var",
            Edit::AddGAttr(..) => "add_global_attr",
            Edit::RemoveGAttr(..) => "remove_global_attr",
            Edit::RenameGAttr(..) => "rename_global_attr",
            Edit::AddVAttr(..) => "add_var_attr",
            Edit::RemoveVAttr(..) => "remove_var_attr",
            Edit::RenameVAttr(..) => "rename_var_attr",
        }
    }
}

/// Removed element.
#[derive(Clone, Debug, PartialEq)]
pub enum Gone {
    Nothing,
    Dim(String, Option<usize>, usize),
    Var(String, Ty, Vec<String>, Vec<Attr>),
    Attr(Attr),
}

impl Model {
    pub fn dim(&self, name: &str) -> Option<usize> {
        self.dims.iter().position(|d| d.name == name)
    }
    pub fn var(&self, name: &str) -> Option<usize> {
        self.vars.iter().position(|v| v.name == name)
    }
    fn by_id(&self, id: u64) -> usize {
        self.dims.iter().position(|d| d.id == id).expect("model: unknown dimension")
    }
    pub fn of(s: &Spec) -> Model {
        let mut m = Model::default();
        for (i, d) in s.dims.iter().enumerate() {
            m.dims.push(MDim { id: i as u64, name: d.name.clone(), size: d.size.unwrap_or(s.numrecs), unlimited: d.size.is_none() });
        }
        m.next = s.dims.len() as u64;
        m.gattrs = s.gattrs.clone();
        for v in &s.vars {
            m.vars.push(MVar { name: v.name.clone(), dims: v.dims.iter().map(|d| *d as u64).collect(), ty: v.ty, attrs: v.attrs.clone() });
        }
        m
    }
    pub fn spec(&self) -> Spec {
        let mut s = Spec::empty(1);
        for d in &self.dims {
            s.dims.push(Dim { name: d.name.clone(), size: if d.unlimited { None } else { Some(d.size) } });
            if d.unlimited {
                s.numrecs = d.size;
            }
        }
        s.gattrs = self.gattrs.clone();
        for v in &self.vars {
            s.vars.push(Var { name: v.name.clone(), dims: v.dims.iter().map(|d| self.by_id(*d)).collect(), ty: v.ty, attrs: v.attrs.clone() });
        }
        s
    }

    /// The justified refusals. Without any, the edit is applied.
    pub fn apply(&mut self, e: &Edit) -> (Vec<InvalidDataSet>, Gone) {
        use InvalidDataSet::*;
        let mut no: Vec<InvalidDataSet> = vec![];
        let mut gone = Gone::Nothing;
        match e {
            Edit::AddFixed(n, size) => {
                if self.dim(n).is_some() {
                    no.push(DimensionAlreadyExists(n.clone()));
                }
                if !name_ok(n) {
                    no.push(DimensionNameNotValid(n.clone()));
                }
                if *size == 0 {
                    no.push(FixedDimensionWithZeroSize(n.clone()));
                }
                if *size > i32::MAX as usize - 3 {
                    no.push(MaximumFixedDimensionSizeExceeded { dim_name: n.clone(), get: *size });
                }
                if no.is_empty() {
                    self.next += 1;
                    self.dims.push(MDim { id: self.next, name: n.clone(), unlimited: false, size: *size });
                }
            }
            Edit::AddUnlimited(n, size) => {
                if let Some(u) = self.dims.iter().find(|d| d.unlimited) {
                    no.push(UnlimitedDimensionAlreadyExists(u.name.clone()));
                }
                if self.dim(n).is_some() {
                    no.push(DimensionAlreadyExists(n.clone()));
                }
                if !name_ok(n) {
                    no.push(DimensionNameNotValid(n.clone()));
                }
                if no.is_empty() {
                    self.next += 1;
                    self.dims.push(MDim { id: self.next, name: n.clone(), unlimited: true, size: *size });
                }
            }
            Edit::RemoveDim(n) => match self.dim(n) {
                None => no.push(DimensionNotDefined(n.clone())),
                Some(i) => {
                    let id = self.dims[i].id;
                    let users: Vec<String> = self.vars.iter().filter(|v| v.dims.contains(&id)).map(|v| v.name.clone()).collect();
                    if !users.is_empty() {
                        no.push(DimensionYetUsed { var_names: users, dim_name: n.clone() });
                    } else {
                        let d = self.dims.remove(i);
                        gone = Gone::Dim(d.name, if d.unlimited { None } else { Some(d.size) }, d.size);
                    }
                }
            },
            Edit::RenameDim(a, b) => {
                if a == b {
                    return (no, gone);
                }
                if self.dim(a).is_none() {
                    no.push(DimensionNotDefined(a.clone()));
                }
                if self.dim(b).is_some() {
                    no.push(DimensionAlreadyExists(b.clone()));
                }
                if !name_ok(b) {
                    no.push(DimensionNameNotValid(b.clone()));
                }
                if no.is_empty() {
                    let i = self.dim(a).unwrap();
                    self.dims[i].name = b.clone();
                }
            }
            Edit::AddVar(n, dims, ty) => {
                let known: Vec<usize> = dims.iter().filter_map(|d| self.dim(d)).collect();
                if known.len() != dims.len() {
                    let undef: Vec<String> = dims.iter().filter(|d| self.dim(d).is_none()).cloned().collect();
                    no.push(DimensionsNotDefined { var_name: n.clone(), undef_dim_names: undef });
                }
                if self.var(n).is_some() {
                    no.push(VariableAlreadyExists(n.clone()));
                }
                if !name_ok(n) {
                    no.push(VariableNameNotValid(n.clone()));
                }
                let late = dims.iter().skip(1).find(|d| self.dim(d).map_or(false, |i| self.dims[i].unlimited));
                if let Some(u) = late {
                    no.push(UnlimitedDimensionMustBeDefinedFirst { var_name: n.clone(), unlim_dim_name: u.clone(), get_dim_names: dims.clone() });
                }
                let mut seen = known.clone();
                seen.sort();
                seen.dedup();
                if seen.len() != known.len() {
                    no.push(DimensionsUsedMultipleTimes { var_name: n.clone(), get_dim_names: dims.clone() });
                }
                if dims.len() > 1024 {
                    no.push(MaximumDimensionsPerVariableExceeded { var_name: n.clone(), num_dims: dims.len() });
                }
                if no.is_empty() {
                    let ids = known.iter().map(|i| self.dims[*i].id).collect();
                    self.vars.push(MVar { name: n.clone(), dims: ids, ty: *ty, attrs: vec![] });
                }
            }
            Edit::RemoveVar(n) => match self.var(n) {
                None => no.push(VariableNotDefined(n.clone())),
                Some(i) => {
                    let v = self.vars.remove(i);
                    let names = v.dims.iter().map(|d| self.dims[self.by_id(*d)].name.clone()).collect();
                    gone = Gone::Var(v.name, v.ty, names, v.attrs);
                }
            },
            Edit::RenameVar(a, b) => {
                if a == b {
                    return (no, gone);
                }
                if self.var(a).is_none() {
                    no.push(VariableNotDefined(a.clone()));
                }
                if self.var(b).is_some() {
                    no.push(VariableAlreadyExists(b.clone()));
                }
                if !name_ok(b) {
                    no.push(VariableNameNotValid(b.clone()));
                }
                if no.is_empty() {
                    let i = self.var(a).unwrap();
                    self.vars[i].name = b.clone();
                }
            }
            Edit::AddGAttr(a) => {
                if self.gattrs.iter().any(|x| x.name == a.name) {
                    no.push(GlobalAttributeAlreadyExists(a.name.clone()));
                }
                if !name_ok(&a.name) {
                    no.push(GlobalAttributeNameNotValid(a.name.clone()));
                }
                if no.is_empty() {
                    self.gattrs.push(a.clone());
                }
            }
            Edit::RemoveGAttr(n) => match self.gattrs.iter().position(|x| x.name == *n) {
                None => no.push(GlobalAttributeNotDefined(n.clone())),
                Some(i) => gone = Gone::Attr(self.gattrs.remove(i)),
            },
            Edit::RenameGAttr(a, b) => {
                if a == b {
                    return (no, gone);
                }
                let i = self.gattrs.iter().position(|x| x.name == *a);
                if i.is_none() {
                    no.push(GlobalAttributeNotDefined(a.clone()));
                }
                if self.gattrs.iter().any(|x| x.name == *b) {
                    no.push(GlobalAttributeAlreadyExists(b.clone()));
                }
                if !name_ok(b) {
                    no.push(GlobalAttributeNameNotValid(b.clone()));
                }
                if no.is_empty() {
                    self.gattrs[i.unwrap()].name = b.clone();
                }
            }
            Edit::AddVAttr(v, a) => match self.var(v) {
                None => no.push(VariableNotDefined(v.clone())),
                Some(i) => {
                    if self.vars[i].attrs.iter().any(|x| x.name == a.name) {
                        no.push(VariableAttributeAlreadyExists { var_name: v.clone(), attr_name: a.name.clone() });
                    }
                    if !name_ok(&a.name) {
                        no.push(VariableAttributeNameNotValid { var_name: v.clone(), attr_name: a.name.clone() });
                    }
                    if no.is_empty() {
                        self.vars[i].attrs.push(a.clone());
                    }
                }
            },
            Edit::RemoveVAttr(v, n) => match self.var(v) {
                None => no.push(VariableNotDefined(v.clone())),
                Some(i) => match self.vars[i].attrs.iter().position(|x| x.name == *n) {
                    None => no.push(VariableAttributeNotDefined { var_name: v.clone(), attr_name: n.clone() }),
                    Some(k) => gone = Gone::Attr(self.vars[i].attrs.remove(k)),
                },
            },
            Edit::RenameVAttr(v, a, b) => match self.var(v) {
                None => no.push(VariableNotDefined(v.clone())),
                Some(i) => {
                    if a == b {
                        return (no, gone);
                    }
                    let k = self.vars[i].attrs.iter().position(|x| x.name == *a);
                    if k.is_none() {
                        no.push(VariableAttributeNotDefined { var_name: v.clone(), attr_name: a.clone() });
                    }
                    if self.vars[i].attrs.iter().any(|x| x.name == *b) {
                        no.push(VariableAttributeAlreadyExists { var_name: v.clone(), attr_name: b.clone() });
                    }
                    if !name_ok(b) {
                        no.push(VariableAttributeNameNotValid { var_name: v.clone(), attr_name: b.clone() });
                    }
                    if no.is_empty() {
                        self.vars[i].attrs[k.unwrap()].name = b.clone();
                    }
                }
            },
        }
        (no, gone)
    }
}

/// Renaming something undefined to its own name: nothing is specified.
pub fn unspecified(m: &Model, e: &Edit) -> bool {
    match e {
        Edit::RenameDim(a, b) => a == b && m.dim(a).is_none(),
        Edit::RenameVar(a, b) => a == b && m.var(a).is_none(),
        Edit::RenameGAttr(a, b) => a == b && !m.gattrs.iter().any(|x| x.name == *a),
        Edit::RenameVAttr(v, a, b) => a == b && m.var(v).map_or(false, |i| !m.vars[i].attrs.iter().any(|x| x.name == *a)),
        _ => false,
    }
}

/// Runs the edit on the real data set.
pub fn run(d: &mut DataSet, e: &Edit, r: &mut Rng) -> Result<Gone, InvalidDataSet> {
    match e {
        Edit::AddFixed(n, size) => drive::add_dim(d, &Dim { name: n.clone(), size: Some(*size) }, 0, r)?,
        Edit::AddUnlimited(n, size) => drive::add_dim(d, &Dim { name: n.clone(), size: None }, *size, r)?,
        Edit::RemoveDim(n) => {
            let x = d.remove_dim(n)?;
            return Ok(Gone::Dim(x.name(), if x.is_unlimited() { None } else { Some(x.size()) }, x.size()));
        }
        Edit::RenameDim(a, b) => d.rename_dim(a, b)?,
        Edit::AddVar(n, dims, ty) => drive::add_var(d, n, dims, *ty, r)?,
        Edit::RemoveVar(n) => {
            let v = d.remove_var(n)?;
            let attrs: Result<Vec<Attr>, String> = v.get_attrs().into_iter().map(drive::observe_attr).collect();
            return Ok(Gone::Var(v.name().to_string(), drive::ty(&v.data_type()), v.dim_names(), attrs.unwrap_or_default()));
        }
        Edit::RenameVar(a, b) => d.rename_var(a, b)?,
        Edit::AddGAttr(a) => drive::add_gattr(d, a, r)?,
        Edit::RemoveGAttr(n) => {
            let a = d.remove_global_attr(n)?;
            return Ok(Gone::Attr(drive::observe_attr(&a).unwrap_or(Attr { name: "?".into(), ty: Ty::I8, data: vec![] })));
        }
        Edit::RenameGAttr(a, b) => d.rename_global_attr(a, b)?,
        Edit::AddVAttr(v, a) => drive::add_vattr(d, v, a, r)?,
        Edit::RemoveVAttr(v, n) => {
            let a = if r.bool() {
                match d.get_var_mut(v) {
                    Some(x) => x.remove_attr(n)?,
                    None => d.remove_var_attr(v, n)?,
                }
            } else {
                d.remove_var_attr(v, n)?
            };
            return Ok(Gone::Attr(drive::observe_attr(&a).unwrap_or(Attr { name: "?".into(), ty: Ty::I8, data: vec![] })));
        }
        Edit::RenameVAttr(v, a, b) => d.rename_var_attr(v, a, b)?,
    }
    Ok(Gone::Nothing)
}

/// The order of the lists of elements found is not part of the contract; a list given by the caller is
/// shown as it is.
pub fn same_error(a: &InvalidDataSet, b: &InvalidDataSet) -> bool {
    use InvalidDataSet::*;
    fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> {
        let mut v = v.to_vec();
        v.sort();
        v
    }
    match (a, b) {
        (DimensionYetUsed { var_names: x, dim_name: n }, DimensionYetUsed { var_names: y, dim_name: m }) => n == m && sorted(x) == sorted(y),
        (DimensionsNotDefined { var_name: n, undef_dim_names: x }, DimensionsNotDefined { var_name: m, undef_dim_names: y }) => n == m && sorted(x) == sorted(y),
        (DimensionIdsNotFound { defined: d, searched: s, not_found: n }, DimensionIdsNotFound { defined: e, searched: t, not_found: m }) => sorted(d) == sorted(e) && s == t && sorted(n) == sorted(m),
        _ => a == b,
    }
}

/// Applies an edit to both and compares the outcomes.
pub fn step(m: &mut Model, d: &mut DataSet, e: &Edit, r: &mut Rng, obs: &mut crate::report::Obs) -> Result<(), String> {
    let free = unspecified(m, e);
    let before = m.spec();
    let (refusals, gone) = m.apply(e);
    let got = run(d, e, r);
    obs.add(e.kind(), 1);
    if !free {
        match (&got, refusals.is_empty()) {
            (Ok(g), true) => {
                if *g != gone {
                    return Err(format!("{:?} returned {:?} instead of {:?}", e, g, gone));
                }
                obs.add("edits accepted", 1);
            }
            (Err(x), true) => return Err(format!("{:?} is refused with {:?} on {}", e, x, before.brief())),
            (Ok(_), false) => return Err(format!("{:?} is accepted instead of being refused with one of {:?}", e, refusals)),
            (Err(x), false) => {
                if !refusals.iter().any(|y| same_error(x, y)) {
                    return Err(format!("{:?} is refused with {:?} instead of one of {:?}", e, x, refusals));
                }
                obs.add("edits refused", 1);
            }
        }
    }
    let seen = drive::observe(d, 1)?;
    let want = m.spec();
    drive::compare_defs(&seen, &want).map_err(|x| format!("after {:?} ({:?}): {}", e, got.as_ref().map(|_| ()), x))
}
