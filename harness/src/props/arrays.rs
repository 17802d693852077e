//! C02..C06: encode/decode, scalar_at, slice, take, filter on every encoding
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;
use crate::{Prop, Sub};
use vortex::array::*;
use vortex::compute::{filter, slice, take};
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_dtype::PType;

pub fn label_col(g: &mut G, col: &Col) {
    let l = format!("ty:{}", col.ty.class());
    g.label(l);
    if col.nulls() > 0 {
        g.label("has_nulls");
    }
    if col.len() == 0 {
        g.label("empty");
    }
    if col.len() > 1000 {
        g.label("long");
    }
}

/// generate a column and an array holding it
pub fn gen_array(g: &mut G, c: &Cfg) -> Result<(Array, Col, String), String> {
    let col = gen_col(g, c);
    label_col(g, &col);
    g.note(|| format!("column {col:?}"));
    let (a, d) = build(g, &col, c.depth)?;
    g.note(|| format!("array {d}"));
    Ok((a, col, d))
}

fn nontriv(g: &mut G, a: &Array, col: &Col) {
    let id = enc_id(&a);
    g.label(format!("root:{id}"));
    if col.len() >= 2 && !matches!(id.as_str(), "vortex.primitive" | "vortex.bool" | "vortex.null") {
        g.nontrivial = true;
    }
}

fn p_decode(g: &mut G) -> Res {
    let (a, col, _) = gen_array(g, &Cfg::default())?;
    nontriv(g, &a, &col);
    check_all(g, &a, &col)
}

fn p_slice(g: &mut G) -> Res {
    let (mut a, mut col, _) = gen_array(g, &Cfg::default())?;
    nontriv(g, &a, &col);
    let k = g.range(1, 3);
    for _ in 0..k {
        let n = col.len();
        let x = g.range(0, n);
        let y = g.range(x, n);
        g.note(|| format!("slice {x}..{y} of {n} ({})", a.encoding().id()));
        let s = slice(&a, x, y).map_err(|e| format!("slice error | {} : {}", a.encoding().id(), e2s(e)))?;
        col = col.slice(x, y);
        a = s;
        check_all(g, &a, &col).map_err(|e| format!("after slice: {e}"))?;
    }
    Ok(())
}

pub fn idx_array(g: &mut G, idx: &[usize], depth: u32) -> Result<Array, String> {
    let mx = idx.iter().copied().max().unwrap_or(0) as i128;
    let ps: Vec<PType> = INTS.iter().copied().filter(|p| int_range(*p).1 >= mx).collect();
    let p = *g.pick(&ps);
    let c = Col { ty: Ty::Prim(p, false), vals: idx.iter().map(|i| V::I(*i as i128)).collect() };
    g.label(format!("idx:{p}"));
    Ok(if depth > 0 && g.chance(1, 3) { build(g, &c, depth)?.0 } else { prim_from(p, &c.vals, Validity::NonNullable).into_array() })
}

pub fn gen_indices(g: &mut G, n: usize) -> Vec<usize> {
    if n == 0 {
        return vec![];
    }
    let kind = g.usize(5);
    match kind {
        0 => {
            let k = g.range(0, 12);
            (0..k).map(|_| g.usize(n)).collect()
        }
        1 => {
            let k = g.range(0, 8);
            let mut v: Vec<usize> = (0..k).map(|_| g.usize(n)).collect();
            v.sort();
            v
        }
        2 => {
            let mut r = g.bulk();
            let d = 1 + r.below(8);
            (0..n).filter(|_| r.below(d) == 0).collect()
        }
        3 => {
            let k = g.range(0, 200);
            let mut r = g.bulk();
            (0..k).map(|_| r.below(n as u64) as usize).collect()
        }
        _ => {
            if g.bool() {
                (0..n).rev().collect()
            } else {
                (0..n).collect()
            }
        }
    }
}

fn p_take(g: &mut G) -> Res {
    let (a, col, _) = gen_array(g, &Cfg::default())?;
    let idx = gen_indices(g, col.len());
    if !idx.is_empty() {
        nontriv(g, &a, &col);
    }
    let ia = idx_array(g, &idx, 2)?;
    g.note(|| format!("take {} {:?}", a.encoding().id(), &idx[..idx.len().min(40)]));
    let t = take(&a, &ia).map_err(|e| format!("take error | {} ({}) : {}", a.encoding().id(), col.ty.class(), e2s(e)))?;
    let c2 = col.take(&idx);
    check_all(g, &t, &c2).map_err(|e| format!("after take of {}: {e}", a.encoding().id()))?;
    if g.chance(1, 3) && c2.len() > 0 {
        let idx2 = gen_indices(g, c2.len());
        let ia2 = idx_array(g, &idx2, 0)?;
        let t2 = take(&t, &ia2).map_err(|e| format!("take of take error | {} ({}) : {}", t.encoding().id(), col.ty.class(), e2s(e)))?;
        check_all(g, &t2, &c2.take(&idx2)).map_err(|e| format!("after take of take {}: {e}", a.encoding().id()))?;
    }
    Ok(())
}

pub fn mask_array(g: &mut G, m: &[bool], depth: u32) -> Result<Array, String> {
    let c = Col { ty: Ty::Bool(false), vals: m.iter().map(|b| V::Bool(*b)).collect() };
    Ok(if depth > 0 && g.chance(1, 3) {
        build(g, &c, depth)?.0
    } else {
        BoolArray::from_vec(m.to_vec(), Validity::NonNullable).into_array()
    })
}

fn p_filter(g: &mut G) -> Res {
    let (a, col, _) = gen_array(g, &Cfg::default())?;
    let m = gen_bools(g, col.len());
    if m.iter().any(|b| *b) && m.iter().any(|b| !*b) {
        nontriv(g, &a, &col);
    }
    let ma = mask_array(g, &m, 2)?;
    g.note(|| format!("filter {} by {} {:?}", a.encoding().id(), ma.encoding().id(), &m[..m.len().min(60)]));
    let t = filter(&a, &ma).map_err(|e| format!("filter error | {} ({}) mask {} : {}", a.encoding().id(), col.ty.class(), ma.encoding().id(), e2s(e)))?;
    let c2 = col.filter(&m);
    check_all(g, &t, &c2).map_err(|e| format!("after filter of {}: {e}", a.encoding().id()))
}

/// the kernels of the canonical arrays, called as the encodings call them
fn p_filter_kernel(g: &mut G) -> Res {
    use vortex::compute::FilterFn;
    let ty = if g.bool() {
        Ty::Bool(g.bool())
    } else {
        gen_prim_ty(g)
    };
    let n = gen_len(g, 2500);
    let mut col = Col { vals: gen_vals(g, &ty, n), ty };
    let (mut a, d) = build_plain(g, &col, 1)?;
    if g.bool() {
        let lo = g.range(0, n);
        let hi = g.range(lo, n);
        a = slice(&a, lo, hi).map_err(|e| format!("slice error | {}", e2s(e)))?;
        col = col.slice(lo, hi);
    }
    let m = gen_bools(g, col.len());
    if m.iter().any(|b| *b) && m.iter().any(|b| !*b) {
        g.nontrivial = true;
    }
    let ma = mask_array(g, &m, 2)?;
    g.note(|| format!("{col:?} {d} filter kernel, mask {} {:?}", ma.encoding().id(), &m[..m.len().min(60)]));
    let r = if matches!(col.ty, Ty::Bool(_)) {
        match BoolArray::try_from(&a) {
            Ok(b) => FilterFn::filter(&b, &ma),
            Err(_) => return Ok(()),
        }
    } else {
        match PrimitiveArray::try_from(&a) {
            Ok(b) => FilterFn::filter(&b, &ma),
            Err(_) => return Ok(()),
        }
    };
    let t = match r {
        Ok(t) => t,
        Err(e) => return Err(format!("filter kernel error | {} mask {}: {}", col.ty.class(), ma.encoding().id(), e2s(e))),
    };
    check_all(g, &t, &col.filter(&m)).map_err(|e| format!("after filter kernel: {e}"))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C02",
            rule: "array of length >= 2 whose root encoding is not a plain primitive/bool/null array",
            assumptions: &[],
            subs: vec![Sub { name: "decode", f: p_decode, quick: 280000, thorough: 1500000 }],
            known: vec![],
        },
        Prop {
            id: "C04",
            rule: "array of length >= 2 whose root encoding is not a plain primitive/bool/null array",
            assumptions: &[],
            subs: vec![Sub { name: "slice", f: p_slice, quick: 280000, thorough: 1500000 }],
            known: vec![],
        },
        Prop {
            id: "C05",
            rule: "at least one index, array of length >= 2 whose root encoding is not a plain primitive/bool/null array",
            assumptions: &[],
            subs: vec![Sub { name: "take", f: p_take, quick: 280000, thorough: 1500000 }],
            known: vec![],
        },
        Prop {
            id: "C06",
            rule: "mask with both selected and unselected rows, array whose root encoding is not a plain primitive/bool/null array",
            assumptions: &[],
            subs: vec![
                Sub { name: "filter", f: p_filter, quick: 280000, thorough: 1500000 },
                Sub { name: "kernel", f: p_filter_kernel, quick: 60000, thorough: 400000 },
            ],
            known: vec![],
        },
    ]
}
