use crate::Src;
use rust_3d::*;
fn ops<S: Src, IC: IsIndexContainer>(s: &mut S, small: bool) {
    let mut ic = match s.below(4) {
        0 => IC::default(),
        1 => IC::with_capacity(s.below(20)),
        2 => { let x = s.usize(); IC::with_support_for(x) }
        _ => { let x = s.usize(); IC::with_capacity_and_support_for(s.below(20), x) }
    };
    s.ck(ic.len() == 0, "a new index container is empty");
    let mut model: Vec<usize> = vec![];
    let n = s.below(12);
    for _ in 0..n {
        let mut v = s.usize();
        if small { v &= 0xffff_ffff }
        match s.below(8) {
            0 | 1 | 2 | 3 => { ic.push(v); model.push(v) }
            4 | 5 => if !model.is_empty() { let i = s.below(model.len()); ic.set(i, v); model[i] = v },
            6 => ic.ensure_supported(v),
            _ => ic.reserve(v & 0xff),
        }
        agree(s, &ic, &model);
    }
    let c = ic.clone();
    agree(s, &c, &model);
}
fn agree<S: Src, IC: IsIndexContainer>(s: &mut S, ic: &IC, model: &[usize]) {
    s.ck(ic.len() == model.len(), "len agrees with the list");
    for i in 0..model.len() {
        s.ck(ic.get(i) == model[i], "get agrees with the list");
    }
    let it: Vec<usize> = ic.iter().take(model.len() + 2).collect();
    s.ck(it == model, "iteration yields the list");
}
pub fn dpiv_ops<S: Src>(s: &mut S) { ops::<S, DynamicPrecisionIndexVec>(s, false) }
pub fn vec_ops<S: Src>(s: &mut S) { ops::<S, Vec<usize>>(s, false) }
pub fn u32_ops<S: Src>(s: &mut S) { ops::<S, U32IndexVec>(s, true) }
fn variant<S: Src>(s: &mut S, d: &DynamicPrecisionIndexVec) {
    let n = [d.get_u8().is_some(), d.get_u16().is_some(), d.get_u32().is_some()].iter().filter(|x| **x).count();
    s.ck(n <= 1, "at most one width at a time");
}
pub fn dpiv_from<S: Src>(s: &mut S) {
    let n = s.below(10);
    let mut v: Vec<usize> = vec![];
    for _ in 0..n { let x = s.usize(); v.push(x) }
    match s.below(4) {
        0 => {
            let d: DynamicPrecisionIndexVec = if s.bool() { (&v).into() } else { v.clone().into() };
            variant(s, &d); agree(s, &d, &v)
        }
        1 => {
            let w: Vec<u32> = v[..].iter().map(|x| *x as u32).collect();
            let m: Vec<usize> = w[..].iter().map(|x| *x as usize).collect();
            let d: DynamicPrecisionIndexVec = if s.bool() { (&w).into() } else { w.into() };
            variant(s, &d); agree(s, &d, &m)
        }
        2 => {
            let w: Vec<u16> = v[..].iter().map(|x| *x as u16).collect();
            let m: Vec<usize> = w[..].iter().map(|x| *x as usize).collect();
            let d: DynamicPrecisionIndexVec = if s.bool() { (&w).into() } else { w.into() };
            variant(s, &d); agree(s, &d, &m)
        }
        _ => {
            let w: Vec<u8> = v[..].iter().map(|x| *x as u8).collect();
            let m: Vec<usize> = w[..].iter().map(|x| *x as usize).collect();
            let d: DynamicPrecisionIndexVec = if s.bool() { (&w).into() } else { w.into() };
            variant(s, &d); agree(s, &d, &m)
        }
    }
}
/// the views of the current storage width, and the upgraded one, show the list
pub fn dpiv_inner<S: Src>(s: &mut S) {
    let n = s.below(8);
    let mut d = DynamicPrecisionIndexVec::new();
    let mut v: Vec<usize> = vec![];
    for _ in 0..n { let x = s.usize(); v.push(x); d.push(x) }
    let m: Vec<usize> = match (d.get_u8(), d.get_u16(), d.get_u32()) {
        (Some(a), None, None) => a.iter().map(|x| *x as usize).collect(),
        (None, Some(a), None) => a.iter().map(|x| *x as usize).collect(),
        (None, None, Some(a)) => a.iter().map(|x| *x as usize).collect(),
        (None, None, None) => v.clone(),
        _ => { s.ck(false, "at most one width at a time"); vec![] }
    };
    s.ck(m == v, "inner vector of the current width equals the list");
    let up = d.get_usize_upgraded().clone();
    s.ck(up == v, "upgrading to usize keeps the list");
    agree(s, &d, &v);
}
crate::natives! { dpiv_ops: 60000, vec_ops: 20000, u32_ops: 20000, dpiv_from: 40000, dpiv_inner: 40000 }
