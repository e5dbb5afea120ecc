//! Equality and clones.

use super::Prop;
use crate::check;
use crate::drive::*;
use crate::gen::{self, Knobs};
use crate::report::{hash_of, Ctx, Obs, Res};
use crate::rng::Rng;
use crate::spec::*;
use super::defs::MAX_DIM;
use netcdf3::{DataSet, FileReader, Variable};

pub const C27: Prop = Prop {
    id: "C27",
    quick: 240000,
    thorough: 1500000,
    level: "exploration",
    rule: "pairs of definitions which are the same or differ in one detail (a name by one character, a value by one bit, a type with the same bytes, a length, the order of two elements, the dimension of a variable, the number of records), each built directly, through a detour and read from a file; the data sets, variables, dimensions, attributes and vectors are compared by == in both directions and by the model; clones are compared with their original, before and after this one is edited; distinct by pair",
    assumptions: &["floating-point values are compared as numbers (NaN differs from itself, the two zeros are equal)"],
    required: &["equal pairs", "different pairs", "pairs with NaN", "clones", "vectors compared", "large definitions", "many records"],
    run: c27,
};

/// Equality of values as numbers.
fn same_values(t: Ty, a: &[u8], b: &[u8]) -> bool {
    match t {
        Ty::F32 => to_f32(a) == to_f32(b),
        Ty::F64 => to_f64(a) == to_f64(b),
        _ => a == b,
    }
}

fn same_attr(a: &Attr, b: &Attr) -> bool {
    a.name == b.name && a.ty == b.ty && a.data.len() == b.data.len() && same_values(a.ty, &a.data, &b.data)
}

fn same_attrs(a: &[Attr], b: &[Attr]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_attr(x, y))
}

/// A dimension as seen from outside.
fn dim_of(s: &Spec, i: usize) -> (&str, bool, usize) {
    let d = &s.dims[i];
    (&d.name, d.size.is_none(), d.size.unwrap_or(s.numrecs))
}

fn same_var(s: &Spec, v: &Var, t: &Spec, w: &Var) -> bool {
    v.name == w.name && v.ty == w.ty && v.dims.len() == w.dims.len() && v.dims.iter().zip(&w.dims).all(|(i, j)| dim_of(s, *i) == dim_of(t, *j)) && same_attrs(&v.attrs, &w.attrs)
}

fn same(s: &Spec, t: &Spec) -> bool {
    s.dims.len() == t.dims.len()
        && (0..s.dims.len()).all(|i| dim_of(s, i) == dim_of(t, i))
        && same_attrs(&s.gattrs, &t.gattrs)
        && s.vars.len() == t.vars.len()
        && s.vars.iter().zip(&t.vars).all(|(v, w)| same_var(s, v, t, w))
}

fn other_name(r: &mut Rng, n: &str, used: &[String]) -> String {
    for _ in 0..20 {
        let mut x: Vec<char> = n.chars().collect();
        let i = r.below(x.len());
        match r.below(4) {
            0 => x.push('_'),
            1 => x[i] = if x[i].is_ascii_lowercase() { x[i].to_ascii_uppercase() } else { 'k' },
            2 if x.len() > 1 => {
                x.remove(i);
            }
            _ => x[i] = *r.pick(&['a', 'Z', '0', 'é']),
        }
        let x: String = x.into_iter().collect();
        if name_ok(&x) && !used.contains(&x) {
            return x;
        }
    }
    n.to_string()
}

fn change_attrs(r: &mut Rng, l: &mut Vec<Attr>) {
    if l.is_empty() || r.one_in(6) {
        if l.iter().all(|a| a.name != "one_more") {
            l.push(Attr { name: "one_more".into(), ty: *r.pick(&TYS), data: vec![] });
        }
        return;
    }
    let long = l.iter().position(|a| a.data.len() > 60);
    let i = match long {
        Some(i) if r.bool() => i,
        _ => r.below(l.len()),
    };
    match r.below(7) {
        0 => {
            let used: Vec<String> = l.iter().map(|a| a.name.clone()).collect();
            l[i].name = other_name(r, &used[i], &used);
        }
        1 => {
            // another type, the same bytes
            let t = *r.pick(&TYS);
            if l[i].data.len() % t.size() == 0 {
                l[i].ty = t;
            }
        }
        2 => {
            // one bit
            if !l[i].data.is_empty() {
                let n = l[i].data.len();
                let k = if r.one_in(4) { n - 1 } else { r.below(n) };
                l[i].data[k] ^= 1 << r.below(8);
            }
        }
        3 => {
            // one value less
            let n = l[i].data.len();
            if n > 0 {
                let m = n - l[i].ty.size();
                l[i].data.truncate(m);
            }
        }
        4 => {
            let more = gen::values(r, l[i].ty, 1);
            l[i].data.extend(more);
        }
        5 => {
            let j = r.below(l.len());
            l.swap(i, j);
        }
        _ => {
            l.remove(i);
        }
    }
}

/// Many records.
fn many(r: &mut Rng) -> usize {
    let base = *r.pick(&[70000, MAX_DIM, i32::MAX as usize, 1 << 31, u32::MAX as usize, 1 << 32, (1 << 32) + 2, 1 << 40, i64::MAX as usize, usize::MAX - 9]);
    base + r.below(4)
}

/// Changes one detail (sometimes none).
fn change(r: &mut Rng, s: &Spec) -> Spec {
    let mut t = s.clone();
    match r.below(12) {
        0 => t.version = 3 - t.version,
        1 | 2 => change_attrs(r, &mut t.gattrs),
        3 | 4 if !t.vars.is_empty() => {
            let i = r.below(t.vars.len());
            change_attrs(r, &mut t.vars[i].attrs);
        }
        5 if !t.vars.is_empty() => {
            let used: Vec<String> = t.vars.iter().map(|v| v.name.clone()).collect();
            let i = r.below(t.vars.len());
            t.vars[i].name = other_name(r, &used[i], &used);
        }
        6 if !t.vars.is_empty() => {
            let i = r.below(t.vars.len());
            t.vars[i].ty = *r.pick(&TYS);
        }
        7 if !t.vars.is_empty() => {
            let (i, j) = (r.below(t.vars.len()), r.below(t.vars.len()));
            t.vars.swap(i, j);
        }
        8 if !t.vars.is_empty() => {
            let i = r.below(t.vars.len());
            let v = &mut t.vars[i];
            let first = v.dims.first().map_or(0, |d| t.dims[*d].size.is_none() as usize);
            match r.below(3) {
                0 if v.dims.len() > first => {
                    v.dims.pop();
                }
                1 if v.dims.len() > first + 1 => v.dims[first..].reverse(),
                _ => {
                    let fixed: Vec<usize> = (0..t.dims.len()).filter(|d| t.dims[*d].size.is_some() && !v.dims.contains(d)).collect();
                    if !fixed.is_empty() {
                        v.dims.push(*r.pick(&fixed));
                    }
                }
            }
        }
        9 if !t.dims.is_empty() => {
            let used: Vec<String> = t.dims.iter().map(|v| v.name.clone()).collect();
            let i = r.below(t.dims.len());
            t.dims[i].name = other_name(r, &used[i], &used);
        }
        10 if !t.dims.is_empty() => {
            let i = r.below(t.dims.len());
            match t.dims[i].size {
                None if t.numrecs > 1000 => {
                    // by a little, by one bit, or in the lower half only
                    t.numrecs = match r.below(5) {
                        0 => t.numrecs.wrapping_add(1).max(1001),
                        1 => t.numrecs - 1,
                        2 => t.numrecs ^ (1 << r.below(64)),
                        3 => t.numrecs ^ (1 << 32),
                        _ => many(r),
                    }
                }
                None => t.numrecs = if r.one_in(10) { many(r) } else { r.below(6) },
                Some(n) => {
                    let l = [n + 1, 1, n, n ^ (1 << r.below(31)), r.below(MAX_DIM)];
                    t.dims[i].size = Some((*r.pick(&l)).max(1).min(MAX_DIM));
                }
            }
        }
        _ if t.dims.len() > 1 => {
            // two dimensions trade places, the variables keep theirs or not
            let (i, j) = (r.below(t.dims.len()), r.below(t.dims.len()));
            t.dims.swap(i, j);
            let fixed_both = t.dims[i].size.is_some() && t.dims[j].size.is_some();
            if !fixed_both || r.bool() {
                for v in t.vars.iter_mut() {
                    for d in v.dims.iter_mut() {
                        *d = if *d == i { j } else if *d == j { i } else { *d };
                    }
                }
            }
        }
        _ => {}
    }
    t
}

/// A dimension unlimited in one, fixed with the same size in the other.
fn unlimited_or_fixed(s: &Spec) -> Option<Spec> {
    let u = s.unlim()?;
    if s.numrecs == 0 || s.numrecs > MAX_DIM {
        return None;
    }
    let mut t = s.clone();
    t.dims[u].size = Some(s.numrecs);
    t.numrecs = 0;
    Some(t)
}

fn variants(c: &mut Ctx, s: &Spec) -> Result<Vec<(&'static str, DataSet)>, String> {
    let bad = |e| format!("a valid definition is refused: {:?}", e);
    let mut l = vec![("built", build(s, &mut c.rng).map_err(bad)?)];
    if c.rng.bool() {
        l.push(("built through a detour", build_detour(s, &mut c.rng).map_err(bad)?));
    }
    // (the size of the file)
    let bytes = |v: &Var| v.dims.iter().fold(8u128, |p, d| p.saturating_mul(s.dims[*d].size.unwrap_or(s.numrecs).max(1) as u128));
    if c.rng.bool() && s.numrecs <= 100000 && s.vars.iter().map(bytes).fold(0, u128::saturating_add) < 8 << 20 {
        let path = c.path("a.nc");
        std::fs::write(&path, canonical(s, 0, &s.filled())).map_err(|e| format!("harness: {}", e))?;
        let rd = FileReader::open(&path).map_err(|e| format!("open: {:?}", e))?;
        l.push(("read from a file", rd.close().0));
    }
    Ok(l)
}

fn judge<T: PartialEq>(what: &str, x: &T, y: &T, want: bool) -> Res {
    check!((x == y) == want, "{}: == is {} instead of {}", what, x == y, want);
    check!((y == x) == want, "{}: == is {} instead of {} in the other direction", what, y == x, want);
    check!((x != y) != want, "{}: != is {} instead of {}", what, x != y, !want);
    Ok(())
}

fn compare_parts(a: &DataSet, s: &Spec, b: &DataSet, t: &Spec, obs: &mut Obs) -> Res {
    for (i, x) in a.get_vars().into_iter().enumerate() {
        for (j, y) in b.get_vars().into_iter().enumerate() {
            if i == j || (s.vars.len() < 50 && s.vars[i].name == t.vars[j].name) || i + j < 3 {
                judge(&format!("variables {:?} and {:?}", x.name(), y.name()), x, y, same_var(s, &s.vars[i], t, &t.vars[j]))?;
                for (p, q) in x.get_attrs().into_iter().zip(y.get_attrs()).zip(s.vars[i].attrs.iter().zip(&t.vars[j].attrs)).map(|((x, y), (p, q))| ((x, p), (y, q))) {
                    judge(&format!("attributes {:?} and {:?}", p.1.name, q.1.name), p.0, q.0, same_attr(p.1, q.1))?;
                }
            }
        }
    }
    for (i, x) in a.get_dims().iter().enumerate() {
        for (j, y) in b.get_dims().iter().enumerate().filter(|(j, _)| *j == i || i + j < 40) {
            judge(&format!("dimensions {:?} and {:?}", x.name(), y.name()), &**x, &**y, dim_of(s, i) == dim_of(t, j))?;
        }
    }
    for (i, (x, p)) in a.get_global_attrs().into_iter().zip(&s.gattrs).enumerate() {
        for (_, (y, q)) in b.get_global_attrs().into_iter().zip(&t.gattrs).enumerate().filter(|(j, _)| *j == i || i + j < 40) {
            judge(&format!("attributes {:?} and {:?}", p.name, q.name), x, y, same_attr(p, q))?;
        }
    }
    obs.add("parts compared", 1);
    Ok(())
}

fn clones(c: &mut Ctx, s: &Spec, d: &mut DataSet) -> Res {
    if s.vars.is_empty() {
        return Ok(());
    }
    let i = c.rng.below(s.vars.len());
    let v = &s.vars[i];
    let attrs_of = |x: &Variable| -> Result<Vec<Attr>, String> { x.get_attrs().into_iter().map(observe_attr).collect() };
    let mut copy = d.get_var(&v.name).ok_or("variable not found")?.clone();
    check!((copy == *d.get_var(&v.name).unwrap()) == same_attrs(&v.attrs, &v.attrs), "a clone of the variable {:?} differs from it", v.name);
    check!(attrs_of(&copy)? == v.attrs, "the clone of the variable {:?} has other attributes", v.name);
    check!(copy.name() == v.name && copy.data_type() == dt(v.ty) && copy.num_dims() == v.dims.len(), "the clone of the variable {:?} has another definition", v.name);
    // the original changes: the clone does not
    let new = Attr { name: "only_in_the_original".into(), ty: Ty::I16, data: vec![1, 2] };
    add_vattr(d, &v.name, &new, &mut c.rng).map_err(|e| format!("{:?}", e))?;
    if let Some(a) = v.attrs.first() {
        d.remove_var_attr(&v.name, &a.name).map_err(|e| format!("{:?}", e))?;
    }
    check!(attrs_of(&copy)? == v.attrs, "the clone of the variable {:?} follows the edits of the original", v.name);
    // and the other way
    let kept = attrs_of(d.get_var(&v.name).unwrap())?;
    copy.add_attr_u8("only_in_the_clone", vec![9]).map_err(|e| format!("{:?}", e))?;
    if let Some(a) = v.attrs.last() {
        copy.remove_attr(&a.name).map_err(|e| format!("{:?}", e))?;
    }
    check!(attrs_of(d.get_var(&v.name).unwrap())? == kept, "the variable {:?} follows the edits of its clone", v.name);
    check!(copy != *d.get_var(&v.name).unwrap(), "the variable {:?} equals a clone with other attributes", v.name);
    if let Some(a) = s.gattrs.first() {
        let x = d.get_global_attr(&a.name).ok_or("attribute not found")?.clone();
        d.remove_global_attr(&a.name).map_err(|e| format!("{:?}", e))?;
        check!(observe_attr(&x)? == *a, "the clone of the attribute {:?} changes when this one is removed", a.name);
    }
    c.obs.add("clones", 1);
    Ok(())
}

fn vectors(r: &mut Rng, obs: &mut Obs) -> Res {
    let n = match r.below(100) {
        0 => gen::threshold(r, 140000),
        1..=9 => r.below(300),
        _ => r.below(6),
    };
    let (t, u) = (*r.pick(&TYS), *r.pick(&TYS));
    let b = gen::values(r, t, n);
    let x = to_dv(t, &b);
    let copy = x.clone();
    check!(dv(&copy) == (t, b.clone()), "the clone of a vector of {} {:?} has other values", n, t);
    judge("a vector and its clone", &x, &copy, same_values(t, &b, &b))?;
    let mut o = b.clone();
    if !o.is_empty() {
        let k = r.below(o.len());
        o[k] ^= 1 << r.below(8);
    }
    judge(&format!("vectors of {} {:?} which differ by one bit", n, t), &x, &to_dv(t, &o), same_values(t, &b, &o))?;
    if b.len() % u.size() == 0 {
        judge(&format!("vectors of {:?} and {:?}", t, u), &x, &to_dv(u, &b), t == u && same_values(t, &b, &b))?;
    }
    let mut longer = b.clone();
    longer.extend(gen::values(r, t, 1));
    judge("vectors of two lengths", &x, &to_dv(t, &longer), false)?;
    obs.add("vectors compared", 1);
    Ok(())
}

fn c27(c: &mut Ctx) -> Res {
    let mut s = gen::spec(&mut c.rng, &Knobs::small());
    if c.rng.one_in(30) {
        if c.rng.bool() {
            gen::enlarge(&mut c.rng, &mut s, 20000);
        } else {
            // a long attribute
            let (ty, n) = (*c.rng.pick(&TYS), gen::threshold(&mut c.rng, 20000));
            let a = Attr { name: "long".into(), ty, data: gen::values(&mut c.rng, ty, n) };
            let l = match s.vars.first_mut() {
                Some(v) if c.rng.bool() => &mut v.attrs,
                _ => &mut s.gattrs,
            };
            if l.iter().all(|x| x.name != "long") {
                l.insert(0, a);
            }
        }
        c.obs.add("large definitions", 1);
    }
    if s.unlim().is_some() && c.rng.one_in(12) {
        s.numrecs = many(&mut c.rng);
        c.obs.add("many records", 1);
    }
    let s = s;
    let long = |a: &Attr| a.name == "long";
    let t = match c.rng.below(12) {
        6.. if s.gattrs.iter().chain(s.vars.iter().flat_map(|v| &v.attrs)).any(long) => {
            // one bit of the long attribute, anywhere
            let mut t = s.clone();
            let a = t.gattrs.iter_mut().chain(t.vars.iter_mut().flat_map(|v| v.attrs.iter_mut())).find(|a| a.name == "long").unwrap();
            let k = c.rng.below(a.data.len());
            a.data[k] ^= 1 << c.rng.below(8);
            t
        }
        0 => s.clone(),
        1 => unlimited_or_fixed(&s).unwrap_or(s.clone()),
        2 => {
            let t = change(&mut c.rng, &s);
            change(&mut c.rng, &t)
        }
        _ => change(&mut c.rng, &s),
    };
    c.obs.note(|| format!("{:?}\n{:?}", s, t));
    let (a, b) = (variants(c, &s)?, variants(c, &t)?);
    let nan = !same(&s, &s);
    for (l, p, m, q, want) in [(&a, &s, &b, &t, same(&s, &t)), (&a, &s, &a, &s, same(&s, &s))] {
        for (how, x) in l {
            for (how2, y) in m {
                let text = || format!("{} {} and {} {}", p.brief(), how, q.brief(), how2);
                judge("data sets", x, y, want).map_err(|e| format!("{} ({})", e, text()))?;
                compare_parts(x, p, y, q, &mut c.obs).map_err(|e| format!("{} ({})", e, text()))?;
                c.obs.add(if want { "equal pairs" } else { "different pairs" }, 1);
                if nan {
                    c.obs.add("pairs with NaN", 1);
                }
            }
        }
    }
    for (_, mut d) in a {
        clones(c, &s, &mut d).map_err(|e| format!("{} ({})", e, s.brief()))?;
    }
    vectors(&mut c.rng, &mut c.obs)?;
    c.obs.distinct(hash_of(&(&s, &t)));
    c.obs.sample(|| format!("{} and {}", s.brief(), t.brief()));
    Ok(())
}
