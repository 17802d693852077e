//! C08 compare, C09 and/or, C10 cast / subtract / fill-forward
use super::arrays::*;
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;
use crate::{Prop, Sub};
use std::cmp::Ordering;
use vortex::array::*;
use vortex::compute::unary::*;
use vortex::compute::*;
use vortex::stats::ArrayStatistics;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_dtype::{DType, PType};
use vortex_scalar::Scalar;

pub const OPS: [Operator; 6] = [Operator::Eq, Operator::NotEq, Operator::Lt, Operator::Lte, Operator::Gt, Operator::Gte];

pub fn op_true(op: Operator, o: Ordering) -> bool {
    match op {
        Operator::Eq => o == Ordering::Equal,
        Operator::NotEq => o != Ordering::Equal,
        Operator::Lt => o == Ordering::Less,
        Operator::Lte => o != Ordering::Greater,
        Operator::Gt => o == Ordering::Greater,
        Operator::Gte => o != Ordering::Less,
    }
}

pub fn cmp_model(a: &V, b: &V, op: Operator) -> V {
    if a.is_null() || b.is_null() {
        V::Null
    } else {
        V::Bool(op_true(op, a.tcmp(b)))
    }
}

/// sometimes compute (and so cache) statistics before an operation
pub fn warm_stats(g: &mut G, a: &Array) {
    if g.chance(1, 3) {
        g.note(|| "stats computed".into());
        for s in ALL_STATS {
            let _ = a.statistics().compute(s);
        }
    }
}

/// a second column of the same type and length, related to the first
pub fn related_col(g: &mut G, a: &Col) -> Col {
    let nl = g.bool();
    let ty = if matches!(a.ty, Ty::Ext(..)) { a.ty.with_null(nl) } else { a.ty.with_null(nl) };
    let n = a.len();
    let mut vals = match g.usize(4) {
        0 => gen_vals(g, &ty, n),
        1 => {
            // one value everywhere, often taken from the other side
            let v = if n > 0 && g.chance(2, 3) {
                a.vals[g.usize(n)].clone()
            } else {
                gen_vals(g, &ty, 1).pop().unwrap()
            };
            vec![v; n]
        }
        _ => {
            // a copy with some changed places
            let mut v = a.vals.clone();
            let other = gen_vals(g, &ty, n);
            let d = 1 + g.below(8);
            let mut r = g.bulk();
            for i in 0..n {
                if r.below(d) == 0 {
                    v[i] = other[i].clone();
                }
            }
            v
        }
    };
    if !nl {
        let z = gen_nn(g, &ty, 1).pop().unwrap();
        for v in vals.iter_mut() {
            if v.is_null() {
                *v = z.clone();
            }
        }
    }
    if matches!(ty, Ty::Null) {
        vals = vec![V::Null; n];
    }
    Col { ty, vals }
}

pub fn check_bool_result(g: &mut G, r: &Array, exp: Vec<V>, what: &str) -> Res {
    let DType::Bool(n) = r.dtype() else { return Err(format!("{what} result type | {} {}", r.encoding().id(), r.dtype())) };
    let n = *n == vortex_dtype::Nullability::Nullable;
    if !n && exp.iter().any(|v| v.is_null()) {
        return Err(format!("{what} result type | {} not nullable but nulls expected", r.encoding().id()));
    }
    check_all(g, r, &Col { ty: Ty::Bool(n), vals: exp }).map_err(|e| format!("{what}: {e}"))
}

fn p_compare(g: &mut G) -> Res {
    let cfg = Cfg { structs: false, max_len: 1500, ..Default::default() };
    let (a, ca, da) = gen_array(g, &cfg)?;
    let cb = related_col(g, &ca);
    g.note(|| format!("other {cb:?}"));
    let (b, db) = if all_equal(&cb) && cb.len() > 0 && !matches!(cb.ty, Ty::Null) && g.chance(2, 3) {
        g.label("constant_side");
        (ConstantArray::new(v_to_scalar(&cb.vals[0], &cb.ty), cb.len()).into_array(), "constant".to_string())
    } else {
        build(g, &cb, 2)?
    };
    g.note(|| format!("other array {db}"));
    warm_stats(g, &a);
    warm_stats(g, &b);
    let op = *g.pick(&OPS);
    let swap = g.bool();
    let (l, r, cl, cr) = if swap { (&b, &a, &cb, &ca) } else { (&a, &b, &ca, &cb) };
    let ids = format!("{} {op} {}", l.encoding().id(), r.encoding().id());
    g.note(|| ids.clone());
    let _ = da;
    let exp: Vec<V> = cl.vals.iter().zip(&cr.vals).map(|(x, y)| cmp_model(x, y, op)).collect();
    if exp.iter().any(|v| *v == V::Bool(true)) && exp.iter().any(|v| *v == V::Bool(false)) {
        g.nontrivial = true;
    }
    let res = match compare(l, r, op) {
        Ok(r) => r,
        Err(e) => {
            if matches!(ca.ty, Ty::Null) {
                g.label("refused_null_type");
                return Ok(());
            }
            return Err(format!("compare error | {ids} ({}): {}", ca.ty.class(), e2s(e)));
        }
    };
    check_bool_result(g, &res, exp, &format!("compare | {ids} ({})", ca.ty.class()))
}

fn p_bool(g: &mut G) -> Res {
    let n = gen_len(g, 2000);
    let mk = |g: &mut G| -> Result<(Array, Col), String> {
        let nl = g.bool();
        let ty = Ty::Bool(nl);
        let vals = if g.chance(1, 4) { let v = gen_vals(g, &ty, 1); vec![v[0].clone(); n] } else { gen_vals(g, &ty, n) };
        let c = Col { ty, vals };
        g.note(|| format!("column {c:?}"));
        // (constants of no rows are constants, too)
        if (all_equal(&c) || n == 0) && g.chance(1, 3) {
            let v = c.vals.first().cloned().unwrap_or(V::Bool(true));
            g.note(|| "array constant".into());
            return Ok((ConstantArray::new(v_to_scalar(&v, &c.ty), n).into_array(), c));
        }
        let (a, d) = build(g, &c, 2)?;
        g.note(|| format!("array {d}"));
        Ok((a, c))
    };
    let (a, ca) = mk(g)?;
    let (b, cb) = mk(g)?;
    warm_stats(g, &a);
    warm_stats(g, &b);
    let is_and = g.bool();
    let exp: Vec<V> = ca
        .vals
        .iter()
        .zip(&cb.vals)
        .map(|(x, y)| match (x, y) {
            (V::Bool(x), V::Bool(y)) => V::Bool(if is_and { *x && *y } else { *x || *y }),
            _ => V::Null,
        })
        .collect();
    if n >= 2 && !all_equal(&ca) && !all_equal(&cb) {
        g.nontrivial = true;
    }
    let ids = format!("{} {} {}", a.encoding().id(), if is_and { "and" } else { "or" }, b.encoding().id());
    g.note(|| ids.clone());
    let r = if is_and { and(&a, &b) } else { or(&a, &b) }
    .map_err(|e| format!("and/or error | {ids}: {}", e2s(e)))?;
    check_bool_result(g, &r, exp, &format!("and/or | {ids}"))
}

/// Rust/`num_traits` value-preserving cast of one primitive value, None when it does not fit
pub fn cast_model(v: &V, from: PType, to: PType) -> Option<V> {
    use num_traits_lite::*;
    cast_value(v, from, to)
}

mod num_traits_lite {
    use super::*;
    use half::f16;
    pub fn cast_value(v: &V, from: PType, to: PType) -> Option<V> {
        if v.is_null() {
            return Some(V::Null);
        }
        if from == to {
            return Some(v.clone());
        }
        let x: f64;
        match v {
            V::I(i) => {
                if to.is_int() {
                    let (lo, hi) = int_range(to);
                    return if lo <= *i && *i <= hi { Some(V::I(*i)) } else { None };
                }
                return Some(match to {
                    PType::F16 => V::F16(if from.is_unsigned_int() { f16::from_f32(*i as u64 as f32) } else { f16::from_f32(*i as i64 as f32) }.to_bits()),
                    PType::F32 => V::F32((*i as f32).to_bits()),
                    _ => V::F64((*i as f64).to_bits()),
                });
            }
            V::F16(b) => x = f16::from_bits(*b).to_f64(),
            V::F32(b) => x = f32::from_bits(*b) as f64,
            V::F64(b) => x = f64::from_bits(*b),
            _ => return None,
        }
        if to.is_int() {
            if !x.is_finite() {
                return None;
            }
            let t = x.trunc();
            let (lo, hi) = int_range(to);
            if t < -1e38 || t > 1e38 {
                return None;
            }
            let i = t as i128;
            return if lo <= i && i <= hi { Some(V::I(i)) } else { None };
        }
        Some(match to {
            PType::F16 => V::F16(match v {
                V::F32(b) => f16::from_f32(f32::from_bits(*b)),
                _ => f16::from_f64(x),
            }.to_bits()),
            PType::F32 => V::F32((x as f32).to_bits()),
            _ => V::F64(x.to_bits()),
        })
    }
}

fn nan_eq(a: &V, b: &V) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn p_cast(g: &mut G) -> Res {
    let ty = gen_prim_ty(g);
    let n = gen_len(g, 1500);
    let vals = gen_vals(g, &ty, n);
    let mut col = Col { ty: ty.clone(), vals };
    let Ty::Prim(from, nl) = ty else { unreachable!() };
    let to = if g.chance(1, 3) { *g.pick(&FLOATS) } else { *g.pick(&INTS) };
    if g.chance(2, 3) {
        // keep the values inside the target's range
        let z = zero_of(&col.ty);
        for v in col.vals.iter_mut() {
            if cast_model(v, from, to).is_none() {
                *v = z.clone();
            }
        }
    }
    let to_nl = if g.chance(1, 3) { !nl } else { nl };
    let (a, d) = build(g, &col, 2)?;
    g.note(|| format!("column {col:?}; array {d}; cast to {to} nullable {to_nl}"));
    let target = DType::Primitive(to, nul(to_nl));
    let id = enc_id(&a);
    let exp: Vec<Option<V>> = col.vals.iter().map(|v| cast_model(v, from, to)).collect();
    let possible = exp.iter().all(|e| e.is_some()) && (to_nl || col.nulls() == 0);
    let r = match try_cast(&a, &target) {
        Ok(r) => r,
        Err(e) => {
            let m = e2s(e);
            if !possible {
                g.label("refused_impossible");
                return Ok(());
            }
            // a refusal is only acceptable where the library says it has no cast for the encoding
            if m.contains("not implemented") || m.contains("No compute kernel") {
                g.label(format!("unsupported:{id}"));
                return Ok(());
            }
            if !to_nl && nl {
                g.label("refused_nullability");
                return Ok(());
            }
            return Err(format!("try_cast error | {id} {from} -> {to}: {m}"));
        }
    };
    if n > 0 && from != to {
        g.nontrivial = true;
    }
    if !possible {
        return Err(format!("try_cast accepted | {id} {from}{} -> {target}: values do not fit", if nl { "?" } else { "" }));
    }
    let want: Vec<V> = exp.into_iter().map(|e| e.unwrap()).collect();
    let ty2 = Ty::Prim(to, to_nl);
    if r.dtype() != &target || r.len() != n {
        return Err(format!("try_cast type | {id} {from} -> {target}: got {} of length {}", r.dtype(), r.len()));
    }
    let got = canonical_vals(&r, &ty2)?;
    for i in 0..n {
        if !nan_eq(&want[i], &got[i]) {
            return Err(format!("try_cast mismatch | {id} {from} -> {to} at {i}: {:?} became {:?} expected {:?}", col.vals[i], got[i], want[i]));
        }
    }
    let idx = probe_indices(g, n, 6);
    for i in idx {
        let s = scalar_at(&r, i).map_err(|e| format!("scalar_at error | {}", e2s(e)))?;
        let v = scalar_to_v(&s, &ty2)?;
        if !nan_eq(&v, &got[i]) {
            return Err(format!("try_cast scalar mismatch | {id} at {i}: {v:?} and {:?}", got[i]));
        }
    }
    Ok(())
}

fn p_subtract(g: &mut G) -> Res {
    let ty = gen_prim_ty(g);
    let Ty::Prim(p, _) = ty else { unreachable!() };
    let n = gen_len(g, 1500);
    let col = Col { vals: gen_vals(g, &ty, n), ty };
    let (a, d) = build(g, &col, 2)?;
    let id = enc_id(&a);
    let valid: Vec<V> = col.vals.iter().filter(|v| !v.is_null()).cloned().collect();
    let sv = match g.usize(3) {
        0 if p.is_int() && !valid.is_empty() => V::I(valid.iter().map(|v| v.int()).min().unwrap()),
        1 if !valid.is_empty() => valid[g.usize(valid.len())].clone(),
        _ => gen_nn(g, &Ty::Prim(p, false), 1).pop().unwrap(),
    };
    let s = v_to_scalar(&sv, &col.ty);
    g.note(|| format!("column {col:?}; array {d}; subtract {sv:?}"));
    let exp: Vec<V> = col
        .vals
        .iter()
        .map(|v| match (v, &sv) {
            (V::I(x), V::I(y)) => V::I(*x - *y),
            (V::F16(x), V::F16(y)) => V::F16((half::f16::from_bits(*x) - half::f16::from_bits(*y)).to_bits()),
            (V::F32(x), V::F32(y)) => V::F32((f32::from_bits(*x) - f32::from_bits(*y)).to_bits()),
            (V::F64(x), V::F64(y)) => V::F64((f64::from_bits(*x) - f64::from_bits(*y)).to_bits()),
            (x, _) => x.clone(),
        })
        .collect();
    if p.is_int() {
        let (lo, hi) = int_range(p);
        // a difference outside the type has no answer in the type; not part of this property
        if exp.iter().any(|v| matches!(v, V::I(i) if *i < lo || *i > hi)) {
            g.label("difference_out_of_range");
            return Ok(());
        }
    }
    let r = match subtract_scalar(&a, &s) {
        Ok(r) => r,
        Err(e) => {
            let m = e2s(e);
            if m.contains("not implemented") || m.contains("No compute kernel") {
                g.label(format!("unsupported:{id}"));
                return Ok(());
            }
            return Err(format!("subtract_scalar error | {id}: {m}"));
        }
    };
    if n > 0 {
        g.nontrivial = true;
    }
    if r.len() != n || *r.dtype() != col.ty.dtype() {
        return Err(format!("subtract_scalar shape | {id}: {} of length {}", r.dtype(), r.len()));
    }
    let got = canonical_vals(&r, &col.ty.with_null(r.dtype().is_nullable()))?;
    for i in 0..n {
        if !nan_eq(&exp[i], &got[i]) {
            return Err(format!("subtract_scalar mismatch | {id} {p} at {i}: {:?} - {sv:?} gave {:?}", col.vals[i], got[i]));
        }
    }
    Ok(())
}

fn p_fill(g: &mut G) -> Res {
    let ty = gen_ty(g, &Cfg { structs: false, ..Default::default() });
    let n = gen_len(g, 1500);
    let col = Col { vals: gen_vals(g, &ty, n), ty };
    let (a, d) = build(g, &col, 2)?;
    let id = enc_id(&a);
    g.note(|| format!("column {col:?}; array {d}; fill_forward"));
    // byte-sized booleans do not offer theirs to the dispatcher
    let direct = if matches!(col.ty, Ty::Bool(_)) { vortex_bytebool::ByteBoolArray::try_from(&a).ok() } else { None };
    if direct.is_some() {
        g.label("bytebool kernel");
    }
    let r = match direct.map(|b| FillForwardFn::fill_forward(&b)).unwrap_or_else(|| fill_forward(&a)) {
        Ok(r) => r,
        Err(e) => {
            let m = e2s(e);
            if m.contains("not implemented") || m.contains("No compute kernel") {
                g.label(format!("unsupported:{id}"));
                return Ok(());
            }
            return Err(format!("fill_forward error | {id}: {m}"));
        }
    };
    if col.nulls() > 0 && col.nulls() < n {
        g.nontrivial = true;
    }
    if r.len() != n || !r.dtype().eq_ignore_nullability(&col.ty.dtype()) {
        return Err(format!("fill_forward shape | {id}: {} of length {}", r.dtype(), r.len()));
    }
    let got = canonical_vals(&r, &col.ty.with_null(r.dtype().is_nullable()))?;
    let mut last: Option<V> = None;
    for i in 0..n {
        let v = &col.vals[i];
        let want = if v.is_null() { last.clone() } else { Some(v.clone()) };
        if !v.is_null() {
            last = Some(v.clone());
        }
        // leading nulls have nothing to be filled from; any value or null is allowed there
        if let Some(w) = want {
            if got[i] != w {
                return Err(format!("fill_forward mismatch | {id} ({}) at {i}: got {:?} expected {w:?}", col.ty.class(), got[i]));
            }
        }
    }
    Ok(())
}

/// the operators themselves
fn p_operators(g: &mut G) -> Res {
    let op = *g.pick(&[Operator::Eq, Operator::NotEq, Operator::Gt, Operator::Gte, Operator::Lt, Operator::Lte]);
    let (a, b) = (g.usize(4) as i64 - 1, g.usize(4) as i64 - 1);
    g.nontrivial = true;
    let want = match op {
        Operator::Eq => a == b,
        Operator::NotEq => a != b,
        Operator::Gt => a > b,
        Operator::Gte => a >= b,
        Operator::Lt => a < b,
        Operator::Lte => a <= b,
    };
    let (x, y) = (a as f64, b as f64);
    if op.to_fn()(a, b) != want || op.to_fn()(x, y) != want || op.swap().to_fn()(b, a) != want {
        return Err(format!("operator | {a} {op:?} {b}"));
    }
    match op.inverse() {
        i if i.to_fn()(a, b) == want => Err(format!("inverse | {a} {op:?} {b}, inverse {i:?}")),
        _ => Ok(()),
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            rule: "the expected answer contains both true and false",
            assumptions: &["floating point values compare in IEEE total order, as Arrow's kernels do", "struct columns are not compared (not supported by the library)"],
            subs: vec![
                Sub { name: "compare", f: p_compare, quick: 420000, thorough: 1500000 },
                Sub { name: "operators", f: p_operators, quick: 2000, thorough: 2000 },
            ],
            known: vec![],
        },
        Prop {
            id: "C09",
            rule: "two boolean columns of length >= 2, neither constant",
            assumptions: &["a null on either side gives null (the library's documented Arrow `and`/`or` kernels, not Kleene logic)"],
            subs: vec![Sub { name: "and_or", f: p_bool, quick: 280000, thorough: 1000000 }],
            known: vec![],
        },
        Prop {
            id: "C10",
            rule: "non-empty column actually cast to another type / subtracted from / column with both nulls and values filled",
            assumptions: &["an encoding that reports it has no kernel for the operation is outside the property", "differences outside the type's range are outside the property"],
            subs: vec![
                Sub { name: "cast", f: p_cast, quick: 280000, thorough: 1000000 },
                Sub { name: "subtract", f: p_subtract, quick: 140000, thorough: 500000 },
                Sub { name: "fill_forward", f: p_fill, quick: 140000, thorough: 500000 },
            ],
            known: vec![],
        },
    ]
}

use vortex::stats::Stat;
pub const ALL_STATS: [Stat; 10] = [
    Stat::BitWidthFreq,
    Stat::TrailingZeroFreq,
    Stat::IsConstant,
    Stat::IsSorted,
    Stat::IsStrictSorted,
    Stat::Max,
    Stat::Min,
    Stat::RunCount,
    Stat::TrueCount,
    Stat::NullCount,
];
