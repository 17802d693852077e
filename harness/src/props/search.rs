//! C07: searching sorted arrays
use super::arrays::*;
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;
use crate::{Prop, Sub};
use std::cmp::Ordering;
use vortex::array::*;
use vortex::compute::{
    search_sorted, search_sorted_many, search_sorted_u64, search_sorted_u64_many, slice, SearchResult, SearchSorted, SearchSortedSide as Side,
};
use vortex::Array;
use vortex_dtype::{DType, PType};
use vortex_scalar::{PValue, Scalar};

pub fn expect(col: &Col, t: &V, side: Side) -> SearchResult {
    let lo = col.vals.iter().filter(|v| !v.is_null() && v.tcmp(t) == Ordering::Less).count();
    let hi = col.vals.iter().filter(|v| !v.is_null() && v.tcmp(t) != Ordering::Greater).count();
    if lo == hi {
        SearchResult::NotFound(lo)
    } else {
        match side {
            Side::Left => SearchResult::Found(lo),
            Side::Right => SearchResult::Found(hi),
        }
    }
}

pub fn sorted_col(g: &mut G, ints: bool) -> Col {
    let ty = if ints {
        let n = g.bool();
        Ty::Prim(*g.pick(&INTS), n)
    } else {
        gen_ty(g, &Cfg { structs: false, null_ty: false, ..Default::default() })
    };
    let n = gen_len(g, 2500);
    let mut vals = gen_vals(g, &ty, n);
    vals.sort_by(|a, b| a.ncmp(b));
    Col { ty, vals }
}

/// a non-null search target: a value of the array, a neighbour of one, or anything
fn target(g: &mut G, col: &Col) -> V {
    let nn = col.vals.iter().filter(|v| !v.is_null()).count();
    let kind = g.usize(4);
    if nn > 0 && kind < 3 {
        let v = col.vals[g.usize(nn)].clone();
        if kind == 0 {
            return v;
        }
        let st = match &col.ty {
            Ty::Ext(_, s) => (**s).clone(),
            t => t.clone(),
        };
        if let (V::I(i), Ty::Prim(p, _)) = (&v, &st) {
            let (lo, hi) = int_range(*p);
            let d = [1i128, -1, 2, -2, 16, -16][g.usize(6)];
            return V::I((i + d).clamp(lo, hi));
        }
        if let V::S(s) = &v {
            let mut s = s.clone();
            match g.usize(3) {
                0 => s.push(b'a'),
                1 => {
                    while let Some(b) = s.pop() {
                        if b & 0xc0 != 0x80 {
                            break;
                        }
                    }
                }
                _ => s.insert(0, b'm'),
            }
            return V::S(s);
        }
    }
    gen_nn(g, &col.ty.with_null(false), 1).pop().unwrap()
}

fn side(g: &mut G) -> Side {
    if g.bool() {
        Side::Right
    } else {
        Side::Left
    }
}

/// the target as a scalar: of the array's own type or another integer type that can hold it
fn target_scalar(g: &mut G, t: &V, ty: &Ty) -> Scalar {
    if let (Ty::Prim(p, _), V::I(i)) = (ty, t) {
        if g.chance(1, 4) {
            let ps: Vec<PType> = INTS.iter().copied().filter(|q| int_range(*q).0 <= *i && *i <= int_range(*q).1).collect();
            let q = *g.pick(&ps);
            if q != *p {
                g.label("other_int_width");
            }
            return v_to_scalar(t, &Ty::Prim(q, g.bool()));
        }
    }
    v_to_scalar(t, &ty.with_null(g.bool()))
}

fn build_sorted(g: &mut G, ints: bool) -> Result<(Array, Col), String> {
    let mut col = sorted_col(g, ints);
    label_col(g, &col);
    g.note(|| format!("column {col:?}"));
    let (mut a, d) = build(g, &col, 2)?;
    g.note(|| format!("array {d}"));
    if g.chance(1, 4) {
        let x = g.range(0, col.len());
        let y = g.range(x, col.len());
        g.note(|| format!("sliced {x}..{y}"));
        a = slice(&a, x, y).map_err(|e| format!("slice error | {} : {}", a.encoding().id(), e2s(e)))?;
        col = col.slice(x, y);
    }
    let id = enc_id(&a);
    g.label(format!("root:{id}"));
    if col.len() >= 2 {
        g.nontrivial = true;
    }
    Ok((a, col))
}

fn p_one(g: &mut G) -> Res {
    let (a, col) = build_sorted(g, false)?;
    for _ in 0..g.range(1, 4) {
        let t = target(g, &col);
        let s = side(g);
        let sc = target_scalar(g, &t, &col.ty);
        g.note(|| format!("search {t:?} as {} {s} in {}", sc.dtype(), a.encoding().id()));
        let r = search_sorted(&a, sc, s).map_err(|e| format!("search_sorted error | {} ({}): {}", a.encoding().id(), col.ty.class(), e2s(e)))?;
        let e = expect(&col, &t, s);
        g.label(match e {
            SearchResult::Found(_) => "found",
            _ => "not_found",
        });
        if r != e {
            return Err(format!("search_sorted mismatch | {} ({}) target {t:?} {s}: got {r} expected {e}", a.encoding().id(), col.ty.dtype()));
        }
    }
    Ok(())
}

fn p_many(g: &mut G) -> Res {
    let (a, col) = build_sorted(g, false)?;
    let k = g.range(0, 6);
    let mut ts = vec![];
    let mut scs: Vec<Scalar> = vec![];
    let mut sides = vec![];
    for _ in 0..k {
        let t = target(g, &col);
        scs.push(target_scalar(g, &t, &col.ty));
        ts.push(t);
        sides.push(side(g));
    }
    g.note(|| format!("search_many {ts:?} {sides:?} in {}", a.encoding().id()));
    let r = search_sorted_many(&a, &scs, &sides).map_err(|e| format!("search_sorted_many error | {} ({}): {}", a.encoding().id(), col.ty.class(), e2s(e)))?;
    let e: Vec<SearchResult> = ts.iter().zip(&sides).map(|(t, s)| expect(&col, t, *s)).collect();
    if r != e {
        return Err(format!("search_sorted_many mismatch | {} ({}) targets {ts:?} {sides:?}: got {r:?} expected {e:?}", a.encoding().id(), col.ty.dtype()));
    }
    Ok(())
}

fn p_u64(g: &mut G) -> Res {
    let (a, col) = build_sorted(g, true)?;
    let k = g.range(1, 5);
    let mut ts: Vec<u64> = vec![];
    let mut sides = vec![];
    for _ in 0..k {
        let t = match target(g, &col) {
            V::I(i) if i >= 0 => i as u64,
            V::I(i) => i.unsigned_abs() as u64,
            _ => 0,
        };
        let t = if g.chance(1, 8) { g.u64() } else { t };
        ts.push(t);
        sides.push(side(g));
    }
    let Ty::Prim(p, _) = col.ty else { return Ok(()) };
    let fits = |t: u64| t as i128 <= int_range(p).1;
    g.note(|| format!("search_u64 {ts:?} {sides:?} in {}", a.encoding().id()));
    for (t, s) in ts.iter().zip(&sides) {
        let e = expect(&col, &V::I(*t as i128), *s);
        match search_sorted_u64(&a, *t, *s) {
            Ok(r) if r == e => {}
            Ok(r) => {
                return Err(format!("search_sorted_u64 mismatch | {} ({}) target {t} {s}: got {r} expected {e}", a.encoding().id(), col.ty.dtype()))
            }
            Err(_) if !fits(*t) => g.label("refused_too_large"),
            Err(e) => return Err(format!("search_sorted_u64 error | {} ({}): {}", a.encoding().id(), col.ty.class(), e2s(e))),
        }
    }
    if ts.iter().all(|t| fits(*t)) {
        let e: Vec<SearchResult> = ts.iter().zip(&sides).map(|(t, s)| expect(&col, &V::I(*t as i128), *s)).collect();
        let r = search_sorted_u64_many(&a, &ts, &sides).map_err(|e| format!("search_sorted_u64_many error | {} ({}): {}", a.encoding().id(), col.ty.class(), e2s(e)))?;
        if r != e {
            return Err(format!("search_sorted_u64_many mismatch | {} ({}) targets {ts:?} {sides:?}: got {r:?} expected {e:?}", a.encoding().id(), col.ty.dtype()));
        }
    }
    Ok(())
}

fn p_slice_generic(g: &mut G) -> Res {
    let n = gen_len(g, 300);
    let mut v = gen_ints(g, PType::U16, n);
    v.sort();
    let vs: Vec<u16> = v.iter().map(|x| *x as u16).collect();
    let col = Col { ty: Ty::Prim(PType::U16, false), vals: v.into_iter().map(V::I).collect() };
    if n >= 2 {
        g.nontrivial = true;
    }
    let t = target(g, &col);
    let s = side(g);
    g.note(|| format!("search slice {vs:?} {t:?} {s}"));
    let r = SearchSorted::search_sorted(vs.as_slice(), &(t.int() as u16), s);
    let e = expect(&col, &t, s);
    if r != e {
        return Err(format!("slice search mismatch | got {r} expected {e}"));
    }
    if r.to_index() != match e { SearchResult::Found(i) | SearchResult::NotFound(i) => i } {
        return Err(format!("to_index | {r} as {}", r.to_index()));
    }
    if r.to_found() != match e { SearchResult::Found(i) => Some(i), _ => None } {
        return Err(format!("to_found | {r} as {:?}", r.to_found()));
    }
    // which part a row is in, from where the parts start and from where they end
    let mut ends: Vec<u16> = vs.iter().copied().filter(|v| *v > 0).collect();
    ends.dedup();
    if let Some(last) = ends.last().copied() {
        let mut starts = vec![0u16];
        starts.extend(&ends);
        let row = if g.bool() { g.usize(last as usize) as u16 } else { ends[g.usize(ends.len())] - 1 };
        let row = if g.bool() && row + 1 < last { row + 1 } else { row };
        let part = ends.iter().filter(|e| **e <= row).count();
        let a = SearchSorted::search_sorted(starts.as_slice(), &row, Side::Left).to_offsets_index(starts.len());
        let b = SearchSorted::search_sorted(ends.as_slice(), &row, Side::Right).to_ends_index(ends.len());
        if a != part || b != part {
            return Err(format!("part of a row | row {row} is in part {part} of {ends:?}: by starts {a}, by ends {b}"));
        }
        let b = SearchSorted::search_sorted(ends.as_slice(), &last, Side::Right).to_ends_index(ends.len());
        if b != ends.len() - 1 {
            return Err(format!("part of the end | {b} of {}", ends.len()));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C07",
        rule: "searched array (after slicing) of length >= 2",
        assumptions: &[],
        subs: vec![
            Sub { name: "one", f: p_one, quick: 240000, thorough: 1500000 },
            Sub { name: "many", f: p_many, quick: 120000, thorough: 800000 },
            Sub { name: "u64", f: p_u64, quick: 160000, thorough: 1000000 },
            Sub { name: "native", f: p_slice_generic, quick: 80000, thorough: 400000 },
        ],
        known: vec![],
    }]
}
