//! C23: iterators, accessors and typed views present the array's own rows
//! C24: splitting, joining, iterating and streaming chunks keeps the rows
use super::arrays::*;
use super::ipc::{check_chunked, concat, gen_chunks};
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;
use crate::{Known, Prop, Sub};
use vortex::accessor::ArrayAccessor;
use vortex::array::*;
use vortex::compute::slice;
use vortex::elementwise::{BinaryFn, UnaryFn};
use vortex::iter::{AccessorRef, ArrayIterator, ArrayIteratorAdapter, ArrayIteratorExt, VectorizedArrayIter};
use vortex::stream::{ArrayStream, ArrayStreamAdapter, ArrayStreamExt};
use vortex::validity::ArrayValidity;
use vortex::variants::*;
use vortex::{Array, ArrayDType, IntoArray, IntoCanonical};
use vortex_dtype::field::Field;
use vortex_dtype::{DType, NativePType, PType};
use vortex_error::VortexResult;

fn prim_v<T: NativePType>(x: T) -> V {
    fn f<T: NativePType>(x: T) -> Option<V> {
        Some(match T::PTYPE {
            PType::F16 => V::F16(unsafe { std::mem::transmute_copy::<T, u16>(&x) }),
            PType::F32 => V::F32(unsafe { std::mem::transmute_copy::<T, u32>(&x) }),
            PType::F64 => V::F64(unsafe { std::mem::transmute_copy::<T, u64>(&x) }),
            PType::U64 => V::I(unsafe { std::mem::transmute_copy::<T, u64>(&x) } as i128),
            PType::U32 => V::I(unsafe { std::mem::transmute_copy::<T, u32>(&x) } as i128),
            PType::U16 => V::I(unsafe { std::mem::transmute_copy::<T, u16>(&x) } as i128),
            PType::U8 => V::I(unsafe { std::mem::transmute_copy::<T, u8>(&x) } as i128),
            PType::I64 => V::I(unsafe { std::mem::transmute_copy::<T, i64>(&x) } as i128),
            PType::I32 => V::I(unsafe { std::mem::transmute_copy::<T, i32>(&x) } as i128),
            PType::I16 => V::I(unsafe { std::mem::transmute_copy::<T, i16>(&x) } as i128),
            PType::I8 => V::I(unsafe { std::mem::transmute_copy::<T, i8>(&x) } as i128),
        })
    }
    f(x).unwrap()
}

fn v_native<T: NativePType>(v: &V) -> T {
    macro_rules! c {
        ($x:expr) => {{
            let y = $x;
            unsafe { std::mem::transmute_copy::<_, T>(&y) }
        }};
    }
    match (v, T::PTYPE) {
        (V::F16(b), _) => c!(*b),
        (V::F32(b), _) => c!(*b),
        (V::F64(b), _) => c!(*b),
        (V::I(i), PType::U64 | PType::I64) => c!(*i as u64),
        (V::I(i), PType::U32 | PType::I32) => c!(*i as u32),
        (V::I(i), PType::U16 | PType::I16) => c!(*i as u16),
        (V::I(i), PType::U8 | PType::I8) => c!(*i as u8),
        _ => panic!("harness: not a number {v:?}"),
    }
}

fn check_accessor<T: NativePType>(g: &mut G, id: &str, acc: AccessorRef<T>, iter: Option<VectorizedArrayIter<T>>, col: &Col) -> Res {
    let n = col.len();
    if acc.array_len() != n {
        return Err(format!("accessor length | {id}: {} not {n}", acc.array_len()));
    }
    let val = lv_to_vec(acc.array_validity().to_logical(n), n)?;
    for i in 0..n {
        if val[i] == col.vals[i].is_null() {
            return Err(format!("accessor validity | {id} at {i} of {n}: {:?}", col.vals[i]));
        }
    }
    for i in probe_indices(g, n, 10) {
        if acc.is_valid(i) == col.vals[i].is_null() {
            return Err(format!("accessor is_valid | {id} at {i} of {n}: {:?}", col.vals[i]));
        }
        if !col.vals[i].is_null() {
            let v = prim_v(acc.value_unchecked(i));
            if v != col.vals[i] {
                return Err(format!("accessor value | {id} at {i} of {n}: {v:?} not {:?}", col.vals[i]));
            }
        }
    }
    if n > 0 {
        let start = g.usize(n);
        let b = acc.decode_batch(start);
        if b.is_empty() || b.len() != acc.batch_size(start) || start + b.len() > n {
            return Err(format!("batch length | {id} at {start} of {n}: {} elements", b.len()));
        }
        for (k, x) in b.iter().enumerate() {
            let w = &col.vals[start + k];
            if !w.is_null() && prim_v(*x) != *w {
                return Err(format!("batch value | {id} from {start} at {k} of {n}: {:?} not {w:?}", prim_v(*x)));
            }
        }
    }
    let mut it = iter.ok_or_else(|| format!("iterator | {id} has an accessor but no iterator"))?;
    let mut at = 0;
    let mut batches = vec![];
    let mut sizes = vec![];
    loop {
        sizes.push(it.size_hint());
        let Some(b) = it.next() else { break };
        if b.is_empty() {
            return Err(format!("empty batch | {id}"));
        }
        for k in 0..b.len() {
            let w = col.vals.get(at + k).ok_or_else(|| format!("iterator | {id} has more than the {n} rows"))?;
            if b.is_valid(k) == w.is_null() {
                return Err(format!("batch validity | {id} at {} of {n}: {w:?}", at + k));
            }
            if !w.is_null() && prim_v(b.data()[k]) != *w {
                return Err(format!("iterated value | {id} at {} of {n}: {:?} not {w:?}", at + k, prim_v(b.data()[k])));
            }
        }
        at += b.len();
        batches.push(b);
    }
    if at != n {
        return Err(format!("iterator | {id} ends after {at} of {n} rows"));
    }
    for (k, (lo, hi)) in sizes.iter().enumerate() {
        let left = batches.len() - k;
        if *lo > left || hi.map(|h| h < left).unwrap_or(false) {
            return Err(format!("size hint | {id}: ({lo}, {hi:?}) with {left} batches left"));
        }
    }
    if batches.len() > 1 {
        g.label("many_batches");
    }
    let mut at = 0;
    for b in batches {
        let mut f = b.into_iter();
        let mut left = f.len();
        while let Some(x) = f.next() {
            let w = &col.vals[at];
            match x {
                None if w.is_null() => {}
                Some(v) if !w.is_null() && prim_v(v) == *w => {}
                _ => return Err(format!("flattened value | {id} at {at} of {n}: {:?} not {w:?}", x.map(prim_v))),
            }
            at += 1;
            left -= 1;
            if f.len() != left {
                return Err(format!("flattened length | {id} at {at}: {} not {left}", f.len()));
            }
        }
    }
    Ok(())
}

fn p_accessor(g: &mut G) -> Res {
    let n = gen_len(g, 4000);
    let ty = gen_prim_ty(g);
    let vals = gen_vals(g, &ty, n);
    let col = Col { ty: ty.clone(), vals };
    label_col(g, &col);
    let (a, d) = build(g, &col, 2)?;
    g.note(|| format!("array {d} of {col:?}"));
    let Ty::Prim(p, _) = ty else { unreachable!() };
    let id = enc_id(&a);
    let mut has = 0;
    a.with_dyn(|x| -> Res {
        let v = x.as_primitive_array().ok_or_else(|| format!("typed view | {id} of {p} is no primitive array"))?;
        macro_rules! one {
            ($t:ident, $P:ident, $acc:ident, $it:ident) => {
                if let Some(acc) = v.$acc() {
                    if p != PType::$P {
                        return Err(format!("accessor | {id} of {p} has a {}", stringify!($acc)));
                    }
                    has += 1;
                    check_accessor::<$t>(g, &id, acc, v.$it(), &col)?;
                }
            };
        }
        one!(u8, U8, u8_accessor, u8_iter);
        one!(u16, U16, u16_accessor, u16_iter);
        one!(u32, U32, u32_accessor, u32_iter);
        one!(u64, U64, u64_accessor, u64_iter);
        one!(i8, I8, i8_accessor, i8_iter);
        one!(i16, I16, i16_accessor, i16_iter);
        one!(i32, I32, i32_accessor, i32_iter);
        one!(i64, I64, i64_accessor, i64_iter);
        one!(f32, F32, f32_accessor, f32_iter);
        one!(f64, F64, f64_accessor, f64_iter);
        if let Some(acc) = v.f16_accessor() {
            has += 1;
            check_accessor::<half::f16>(g, &id, acc, v.f16_iter(), &col)?;
        }
        Ok(())
    })?;
    if has > 0 {
        g.label(format!("accessor:{id}"));
        g.nontrivial = n > 1;
    }
    Ok(())
}

fn p_with_iterator(g: &mut G) -> Res {
    let c = Cfg { structs: false, ext: false, null_ty: false, ..Cfg::default() };
    let (mut a, mut col, _) = gen_array(g, &c)?;
    let id = enc_id(&a);
    if !matches!(id.as_str(), "vortex.bool" | "vortex.primitive" | "vortex.varbin" | "vortex.varbinview") {
        a = a.into_canonical().map_err(|e| format!("decode error | {id}: {}", e2s(e)))?.into();
        if g.bool() {
            let x = g.range(0, col.len());
            let y = g.range(x, col.len());
            a = slice(&a, x, y).map_err(|e| format!("slice error | {id}: {}", e2s(e)))?;
            col = col.slice(x, y);
        }
    }
    let id = enc_id(&a);
    g.label(format!("root:{id}"));
    g.nontrivial = col.len() > 1;
    let take = if g.chance(1, 4) { g.range(0, col.len()) } else { col.len() };
    let got: VortexResult<Vec<Option<V>>> = match id.as_str() {
        "vortex.bool" => BoolArray::try_from(&a).and_then(|b| {
            b.with_iterator(|it| it.take(take).map(|x| x.map(|b| V::Bool(*b))).collect())
        }),
        "vortex.varbin" => VarBinArray::try_from(&a).and_then(|b| {
            b.with_iterator(|it| it.take(take).map(|x| x.map(|b| V::S(b.to_vec()))).collect())
        }),
        "vortex.varbinview" => VarBinViewArray::try_from(&a).and_then(|b| {
            b.with_iterator(|it| it.take(take).map(|x| x.map(|b| V::S(b.to_vec()))).collect())
        }),
        "vortex.primitive" => PrimitiveArray::try_from(&a).and_then(|b| {
            vortex_dtype::match_each_native_ptype!(b.ptype(), |$T| {
                ArrayAccessor::<$T>::with_iterator(&b, |it| it.take(take).map(|x| x.map(|b| prim_v(*b))).collect())
            })
        }),
        _ => return Ok(()),
    };
    let got = got.map_err(|e| format!("with_iterator error | {id}: {}", e2s(e)))?;
    let got: Vec<V> = got.into_iter().map(|x| x.unwrap_or(V::Null)).collect();
    if let Some(d) = diff(&col.vals[..take], &got) {
        return Err(format!("with_iterator mismatch | {id} ({}) {d}", col.ty.dtype()));
    }
    Ok(())
}

fn check_bools(a: &dyn BoolArrayTrait, id: &str, col: &Col) -> Res {
    let n = col.len();
    let t = |i: usize| col.vals[i] == V::Bool(true);
    let idx: Vec<usize> = a.maybe_null_indices_iter().collect();
    if idx.windows(2).any(|w| w[0] >= w[1]) || idx.last().map(|l| *l >= n).unwrap_or(false) {
        return Err(format!("set indices | {id} of {n}: not increasing or out of range: {:?}", &idx[..idx.len().min(30)]));
    }
    let mut set = vec![false; n];
    for i in &idx {
        set[*i] = true;
    }
    for i in 0..n {
        if !col.vals[i].is_null() && set[i] != t(i) {
            return Err(format!("set indices | {id} of {n}: row {i} is {:?}", col.vals[i]));
        }
    }
    let sl: Vec<(usize, usize)> = a.maybe_null_slices_iter().collect();
    if sl.iter().any(|(x, y)| x >= y || *y > n) || sl.windows(2).any(|w| w[0].1 >= w[1].0) {
        if n > 0 {
            return Err(format!("set slices | {id} of {n}: not disjoint, maximal and in range: {:?}", &sl[..sl.len().min(30)]));
        }
    }
    let mut set = vec![false; n];
    for (x, y) in &sl {
        for s in set.iter_mut().take(*y).skip(*x) {
            *s = true;
        }
    }
    for i in 0..n {
        if !col.vals[i].is_null() && set[i] != t(i) {
            return Err(format!("set slices | {id} of {n}: row {i} is {:?}", col.vals[i]));
        }
    }
    let c = a.true_count();
    let w = (0..n).filter(|i| t(*i)).count();
    if c != w {
        return Err(format!("true count | {id} of {n}: {c} not {w}"));
    }
    Ok(())
}

fn p_bool_view(g: &mut G) -> Res {
    let n = gen_len(g, 3000);
    let nl = g.bool();
    let ty = Ty::Bool(nl);
    let vals = gen_vals(g, &ty, n);
    let col = Col { ty, vals };
    label_col(g, &col);
    let (a, d) = build(g, &col, 2)?;
    g.note(|| format!("array {d} of {col:?}"));
    let id = enc_id(&a);
    g.label(format!("root:{id}"));
    g.nontrivial = n > 1 && id != "vortex.bool" || col.nulls() > 0;
    a.with_dyn(|x| {
        let b = x.as_bool_array().ok_or_else(|| format!("typed view | {id} is no boolean array"))?;
        check_bools(b, &id, &col)
    })?;
    macro_rules! inv {
        ($t:ty) => {
            <$t>::try_from(&a).and_then(|x| x.invert())
        };
    }
    let i = match id.as_str() {
        "vortex.bool" => inv!(BoolArray),
        "vortex.chunked" => inv!(ChunkedArray),
        "vortex.constant" => inv!(ConstantArray),
        "vortex.sparse" => inv!(SparseArray),
        "vortex.bytebool" => inv!(vortex_bytebool::ByteBoolArray),
        "vortex.runendbool" => inv!(vortex_runend_bool::RunEndBoolArray),
        "vortex.roaring_bool" => inv!(vortex_roaring::RoaringBoolArray),
        _ => {
            g.label("invert:other");
            return Ok(());
        }
    }
    .map_err(|e| format!("invert error | {id}: {}", e2s(e)))?;
    g.label("inverted");
    let want = Col {
        ty: col.ty.clone(),
        vals: col.vals.iter().map(|v| if let V::Bool(b) = v { V::Bool(!b) } else { V::Null }).collect(),
    };
    check_all(g, &i, &want).map_err(|e| format!("inverted {id}: {e}"))
}

/// rows of a field: only those where the struct itself is there
fn check_field(g: &mut G, f: &Array, col: &Col, i: usize, what: &str) -> Res {
    let want = col.field(i);
    if f.len() != want.len() || f.dtype() != &want.ty.dtype() {
        return Err(format!("{what} | {} of {} instead of {} of {}", f.len(), f.dtype(), want.len(), want.ty.dtype()));
    }
    if f.is_empty() && want.ty.has_ext() {
        g.excluded += 1;
        return Ok(());
    }
    let got = canonical_vals(f, &want.ty).map_err(|e| format!("{what}: {e}"))?;
    for k in 0..col.len() {
        if !col.vals[k].is_null() && got[k] != want.vals[k] {
            return Err(format!("{what} | row {k} of {} is {:?} not {:?}", col.len(), got[k], want.vals[k]));
        }
    }
    Ok(())
}

fn p_struct_view(g: &mut G) -> Res {
    let k = g.range(0, 4);
    let cfg = Cfg::default();
    let fs: Vec<(String, Ty)> = (0..k)
        .map(|i| {
            let nm = if g.chance(1, 8) { "f0".to_string() } else { format!("f{i}") };
            (nm, gen_ty(g, &cfg))
        })
        .collect();
    let nl = g.bool();
    let ty = Ty::Struct(fs.clone(), nl);
    let n = small_len(g, 200);
    let col = Col { vals: gen_vals(g, &ty, n), ty: ty.clone() };
    label_col(g, &col);
    let konst = g.chance(1, 6) && n > 0 && !col.vals[0].is_null() && fs.iter().all(|f| !matches!(f.1, Ty::Struct(..) | Ty::Ext(..)));
    let (a, col, d) = if konst {
        let m = g.range(1, 5);
        let c = Col { ty: ty.clone(), vals: vec![col.vals[0].clone(); m] };
        (ConstantArray::new(v_to_scalar(&col.vals[0], &ty), m).into_array(), c, "const".to_string())
    } else {
        let (a, d) = build(g, &col, 2)?;
        (a, col, d)
    };
    g.note(|| format!("array {d} of {col:?}"));
    let id = enc_id(&a);
    g.label(format!("root:{id}"));
    g.nontrivial = col.len() > 1 && k > 1;
    // the projection: fields in any order, repeated, by name or position
    let m = if k == 0 { 0 } else { g.range(0, k + 1) };
    let sel: Vec<usize> = (0..m).map(|_| g.usize(k)).collect();
    let unique = |i: usize| fs.iter().position(|f| f.0 == fs[i].0) == Some(i);
    let proj: Vec<Field> = sel
        .iter()
        .map(|i| if unique(*i) && g.bool() { Field::from(fs[*i].0.as_str()) } else { Field::from(*i) })
        .collect();
    let bad = g.chance(1, 10);
    a.with_dyn(|x| -> Res {
        let s = x.as_struct_array().ok_or_else(|| format!("typed view | {id} is no struct array"))?;
        if s.nfields() != k || s.names().len() != k || s.dtypes().len() != k {
            return Err(format!("fields | {id} has {} not {k}", s.nfields()));
        }
        for i in 0..k {
            if s.names()[i].as_ref() != fs[i].0 || s.dtypes()[i] != fs[i].1.dtype() {
                return Err(format!("field {i} | {id}: {} {}", s.names()[i], s.dtypes()[i]));
            }
            let f = s.field(i).ok_or_else(|| format!("field | {id}: no field {i} of {k}"))?;
            check_field(g, &f, &col, i, &format!("field of {id}"))?;
            let f = s.field_by_name(&fs[i].0).ok_or_else(|| format!("field by name | {id}: no field {i} of {k}"))?;
            let first = fs.iter().position(|f| f.0 == fs[i].0).unwrap();
            check_field(g, &f, &col, first, &format!("field by name of {id}"))?;
        }
        if s.field(k).is_some() || s.field_by_name("no such").is_some() {
            return Err(format!("field | {id}: a field that does not exist"));
        }
        if bad {
            let p = if g.bool() { Field::from("no such") } else { Field::from(k) };
            let mut v = proj.clone();
            v.push(p);
            g.label("bad_projection");
            return match guard(|| s.project(&v)) {
                Ok(Err(_)) => Ok(()),
                Ok(Ok(_)) => Err(format!("projection | {id} of a field that does not exist")),
                Err(e) => Err(format!("projection panic | {id}: {e}")),
            };
        }
        let p = s.project(&proj).map_err(|e| format!("projection error | {id} {proj:?}: {}", e2s(e)))?;
        let pt = Ty::Struct(sel.iter().map(|i| fs[*i].clone()).collect(), nl);
        if p.len() != col.len() || p.dtype() != &pt.dtype() {
            return Err(format!("projection | {id} {proj:?}: {} of {} instead of {} of {}", p.len(), p.dtype(), col.len(), pt.dtype()));
        }
        let v = validity_of(&p)?;
        for i in 0..col.len() {
            if v[i] == col.vals[i].is_null() {
                return Err(format!("projection validity | {id} row {i} of {}", col.len()));
            }
        }
        p.with_dyn(|y| -> Res {
            let q = y.as_struct_array().ok_or_else(|| format!("typed view | projection of {id}"))?;
            for (j, i) in sel.iter().enumerate() {
                let f = q.field(j).ok_or_else(|| format!("projected field | {id}: no field {j}"))?;
                check_field(g, &f, &col, *i, &format!("projected field of {id}"))?;
            }
            Ok(())
        })
    })
}

fn p_ext_view(g: &mut G) -> Res {
    let nl = g.bool();
    let ty = if g.chance(1, 3) { custom_ext(g, nl) } else { temporal_ty(g, nl) };
    let n = gen_len(g, 1500);
    let mut col = Col { vals: gen_vals(g, &ty, n), ty: ty.clone() };
    let Ty::Ext(e, st) = &ty else { unreachable!() };
    label_col(g, &col);
    let mut konst = g.chance(1, 5) && n > 0;
    if konst && col.vals[0].is_null() {
        // KF5: the storage type of a null constant is not known
        g.excluded += 1;
        konst = false;
    }
    let (a, d) = if konst {
        col = Col { ty: ty.clone(), vals: vec![col.vals[0].clone(); n] };
        (ConstantArray::new(v_to_scalar(&col.vals[0], &ty), n).into_array(), "const".to_string())
    } else {
        build(g, &col, 2)?
    };
    g.note(|| format!("array {d} of {col:?}"));
    let id = enc_id(&a);
    g.label(format!("root:{id}"));
    g.nontrivial = n > 1;
    a.with_dyn(|x| -> Res {
        let s = x.as_extension_array().ok_or_else(|| format!("typed view | {id} is no extension array"))?;
        if s.ext_dtype() != e {
            return Err(format!("extension type | {id}: {:?}", s.ext_dtype()));
        }
        let st_arr = s.storage_array();
        let want = Col { ty: (**st).clone(), vals: col.vals.clone() };
        check_all(g, &st_arr, &want).map_err(|e| format!("storage of {id}: {e}"))
    })
}

fn un_i<T: NativePType>(x: T) -> T {
    // bits of the complement, which is defined on every pattern
    v_native::<T>(&match prim_v(x) {
        V::I(i) => V::I(!i),
        V::F16(b) => V::F16(b ^ 0x8000),
        V::F32(b) => V::F32(b ^ 0x8000_0000),
        V::F64(b) => V::F64(b ^ (1 << 63)),
        v => v,
    })
}
fn un_o<T: NativePType>(x: T) -> u8 {
    match prim_v(x) {
        V::I(i) => (i as u8).wrapping_mul(3),
        V::F16(b) => b as u8,
        V::F32(b) => b as u8,
        V::F64(b) => b as u8,
        _ => 0,
    }
}
fn bin_o<T: NativePType>(x: T, y: T) -> u64 {
    un_o(x) as u64 * 1000 + un_o(y) as u64
}

fn p_elementwise(g: &mut G) -> Res {
    let n = gen_len(g, 4000);
    let Ty::Prim(p, _) = gen_prim_ty(g) else { unreachable!() };
    let tl = Ty::Prim(p, g.bool());
    let tr = Ty::Prim(p, g.bool());
    let l = Col { vals: gen_vals(g, &tl, n), ty: tl.clone() };
    let r = Col { vals: gen_vals(g, &tr, n), ty: tr.clone() };
    g.note(|| format!("left {l:?} right {r:?}"));
    g.nontrivial = n > 1;
    let la = build_prim(g, &l, 1);
    let (ra, rd) = build(g, &r, 2)?;
    g.note(|| format!("right array {rd}"));
    g.label(format!("right:{}", ra.encoding().id()));
    vortex_dtype::match_each_native_ptype!(p, |$T| {
        // same width
        let u = la.unary::<$T, $T, _>(un_i::<$T>).map_err(|e| format!("unary error | {p}: {}", e2s(e)))?;
        let want = Col { ty: tl.clone(), vals: l.vals.iter().map(|v| if v.is_null() { V::Null } else { prim_v(un_i::<$T>(v_native::<$T>(v))) }).collect() };
        check_all(g, &u, &want).map_err(|e| format!("unary {p}: {e}"))?;
        let u = la.unary::<$T, u8, _>(un_o::<$T>).map_err(|e| format!("unary error | {p}: {}", e2s(e)))?;
        let want = Col { ty: Ty::Prim(PType::U8, tl.nullable()), vals: l.vals.iter().map(|v| if v.is_null() { V::Null } else { V::I(un_o::<$T>(v_native::<$T>(v)) as i128) }).collect() };
        check_all(g, &u, &want).map_err(|e| format!("unary {p} to u8: {e}"))?;
        let b = la.binary::<$T, $T, u64, _>(ra.clone(), bin_o::<$T>).map_err(|e| format!("binary error | {p}, {}: {}", ra.encoding().id(), e2s(e)))?;
        let nl = tl.nullable() || tr.nullable();
        let want = Col {
            ty: Ty::Prim(PType::U64, nl),
            vals: l.vals.iter().zip(&r.vals).map(|(x, y)| if x.is_null() || y.is_null() { V::Null } else { V::I(bin_o::<$T>(v_native::<$T>(x), v_native::<$T>(y)) as i128) }).collect(),
        };
        check_all(g, &b, &want).map_err(|e| format!("binary {p} with {}: {e}", ra.encoding().id()))?;
        // operands that do not fit each other
        let k = if n > 0 && g.bool() { n - 1 } else { n + 1 };
        let c = Col { vals: gen_vals(g, &tr, k), ty: tr.clone() };
        let short = build_prim(g, &c, 1).into_array();
        let q = *g.pick(&[PType::I16, PType::U32, PType::F64]);
        let c = Col { vals: gen_vals(g, &Ty::Prim(q, false), n), ty: Ty::Prim(q, false) };
        let other = build_prim(g, &c, 1).into_array();
        match guard(|| la.binary::<$T, $T, u64, _>(short.clone(), bin_o::<$T>).is_ok()) {
            Ok(false) => {}
            r => return Err(format!("binary | {n} with {k} rows: {r:?}")),
        }
        match guard(|| la.binary::<$T, $T, u64, _>(other.clone(), bin_o::<$T>).is_ok()) {
            Ok(x) if x == (p == q) => {}
            r => return Err(format!("binary | {p} with {q}: {r:?}")),
        }
    });
    Ok(())
}

// ---------------------------------------------------------------- chunks

struct It<I: ArrayIterator>(I);
impl<I: ArrayIterator> Iterator for It<I> {
    type Item = VortexResult<Array>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next()
    }
}
impl<I: ArrayIterator> ArrayIterator for It<I> {
    fn dtype(&self) -> &DType {
        self.0.dtype()
    }
}
impl<I: ArrayIterator> ArrayIteratorExt for It<I> {}

/// the rows of the chunks, one chunk after the other
fn check_parts(g: &mut G, c: &ChunkedArray, col: &Col, what: &str) -> Res {
    let mut at = 0;
    for i in 0..c.nchunks() {
        let x = c.chunk(i).map_err(|e| format!("{what} | chunk {i} of {}: {}", c.nchunks(), e2s(e)))?;
        if at + x.len() > col.len() {
            return Err(format!("{what} | chunks hold more than the {} rows", col.len()));
        }
        let want = col.slice(at, at + x.len());
        if x.is_empty() && col.ty.has_ext() {
            continue;
        }
        check_all(g, &x, &want).map_err(|e| format!("{what} chunk {i}: {e}"))?;
        at += x.len();
    }
    if at != col.len() {
        return Err(format!("{what} | chunks hold {at} of the {} rows", col.len()));
    }
    if c.chunk(c.nchunks()).is_ok() {
        return Err(format!("{what} | a chunk past the last"));
    }
    Ok(())
}

fn p_chunks(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 300, ..Cfg::default() };
    let (ty, arrays, cols) = gen_chunks(g, &cfg, 6)?;
    let col = concat(&ty, &cols);
    g.nontrivial = cols.iter().filter(|c| c.len() > 0).count() > 1;
    let dt = ty.dtype();
    let c = ChunkedArray::try_new(arrays.clone(), dt.clone()).map_err(|e| format!("chunked error | {}", e2s(e)))?;
    if c.nchunks() != arrays.len() || c.len() != col.len() {
        return Err(format!("chunked | {} chunks of {} rows", c.nchunks(), c.len()));
    }
    // a chunk of another type is refused
    if g.chance(1, 8) {
        let other = Ty::Struct(vec![("other".into(), ty.clone())], false);
        if ChunkedArray::try_new(arrays.clone(), other.dtype()).is_ok() && !arrays.is_empty() {
            return Err("chunked | a chunk of another type was accepted".into());
        }
    }
    match g.usize(4) {
        0 => {
            g.label("iterate");
            let it = c.array_iterator();
            if it.dtype() != &dt {
                return Err(format!("iterator type | {}", it.dtype()));
            }
            let d = It(it).try_into_chunked().map_err(|e| format!("iterator error | {}", e2s(e)))?;
            check_parts(g, &d, &col, "iterated")?;
            check_chunked(g, &d.into_array(), &col)
        }
        1 => {
            g.label("stream");
            let d = if g.bool() {
                let s = c.array_stream();
                if s.dtype() != &dt {
                    return Err(format!("stream type | {}", s.dtype()));
                }
                futures::executor::block_on(s.collect_chunked())
            } else {
                futures::executor::block_on(It(c.array_iterator()).into_stream().collect_chunked())
            }
            .map_err(|e| format!("stream error | {}", e2s(e)))?;
            check_parts(g, &d, &col, "streamed")?;
            check_chunked(g, &d.into_array(), &col)
        }
        2 => {
            // a failing source is reported, not cut short
            g.label("failing");
            let at = g.range(0, arrays.len());
            let mut items: Vec<VortexResult<Array>> = arrays.iter().cloned().map(Ok).collect();
            items.insert(at, Err(vortex_error::vortex_err!("source failed")));
            if g.bool() {
                if It(ArrayIteratorAdapter::new(dt.clone(), items.into_iter())).try_into_chunked().is_ok() {
                    return Err("iterator | a failing source was taken for complete".into());
                }
            } else {
                let s = ArrayStreamAdapter::new(dt.clone(), futures::stream::iter(items));
                if futures::executor::block_on(s.collect_chunked()).is_ok() {
                    return Err("stream | a failing source was taken for complete".into());
                }
            }
            Ok(())
        }
        _ => {
            g.label("rechunk");
            let total: usize = c.clone().into_array().nbytes();
            let tb = match g.usize(4) {
                0 => usize::MAX,
                1 => 0,
                2 => g.range(0, total + 1),
                _ => g.range(0, 512),
            };
            let tr = match g.usize(4) {
                0 => usize::MAX / 2,
                1 => 0,
                2 => g.range(0, col.len() + 1),
                _ => g.range(0, 100),
            };
            g.note(|| format!("rechunk to {tb} bytes, {tr} rows"));
            let tb = tb.min(usize::MAX / 2);
            let d = c.rechunk(tb, tr).map_err(|e| format!("rechunk error | {}", e2s(e)))?;
            if d.dtype() != &dt {
                return Err(format!("rechunk type | {}", d.dtype()));
            }
            if d.nchunks() < arrays.len() {
                g.label("combined");
            }
            check_parts(g, &d, &col, "rechunked")?;
            // no chunk is larger than asked for unless it was before
            let big = arrays.iter().filter(|a| a.len() > tr).count();
            let got = d.chunks().filter(|a| a.len() > tr).count();
            if got > big {
                return Err(format!("rechunk | {got} chunks of more than {tr} rows, {big} before"));
            }
            rechunked(&arrays, &d, tb, tr)?;
            check_chunked(g, &d.into_array(), &col)
        }
    }
}

/// Chunks are only merged, as far as the limits on bytes and rows allow
fn rechunked(old: &[Array], new: &ChunkedArray, tb: usize, tr: usize) -> Res {
    // chunks without rows could belong to either neighbour
    if old.iter().any(|a| a.is_empty()) {
        return Ok(());
    }
    let (mut i, mut last) = (0, None::<(usize, usize)>);
    for (k, c) in new.chunks().enumerate() {
        let (from, mut rows, mut bytes) = (i, 0, 0);
        while i < old.len() && rows < c.len() {
            rows += old[i].len();
            bytes += old[i].nbytes();
            i += 1;
        }
        if rows != c.len() {
            return Err(format!("rechunk | new chunk {k} ends within chunk {}", i.wrapping_sub(1)));
        }
        if i - from > 1 && (rows > tr || bytes > tb) {
            return Err(format!("rechunk | {} chunks merged to {rows} rows and {bytes} bytes, {tr} and {tb} allowed", i - from));
        }
        if let Some((r, b)) = last {
            let (r1, b1) = (old[from].len(), old[from].nbytes());
            if r + r1 <= tr && b + b1 <= tb {
                return Err(format!("rechunk | chunks of {r} and {r1} rows, {b} and {b1} bytes not merged, {tr} and {tb} allowed"));
            }
        }
        last = Some((rows, bytes));
    }
    Ok(())
}

fn kf5() -> Option<String> {
    let ty = Ty::Ext(vortex_dtype::ExtDType::new("vx.ext".into(), None), Box::new(Ty::Prim(PType::I32, true)));
    let a = ConstantArray::new(v_to_scalar(&V::Null, &ty), 2).into_array();
    let t = a.with_dyn(|x| x.as_extension_array_unchecked().storage_array().dtype().clone());
    (t != DType::Primitive(PType::I32, vortex_dtype::Nullability::Nullable)).then(|| "the storage of a null constant of an extension type has the null type".to_string())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C23",
            rule: "more than one row; boolean views also need an encoding other than the bitmap, or nulls; struct views more than one field; accessors an encoding that has one",
            assumptions: &[],
            subs: vec![
                Sub { name: "accessor", f: p_accessor, quick: 100_000, thorough: 800000 },
                Sub { name: "with_iterator", f: p_with_iterator, quick: 100_000, thorough: 600000 },
                Sub { name: "bool", f: p_bool_view, quick: 100_000, thorough: 600000 },
                Sub { name: "struct", f: p_struct_view, quick: 50_000, thorough: 400000 },
                Sub { name: "ext", f: p_ext_view, quick: 50_000, thorough: 400000 },
                Sub { name: "elementwise", f: p_elementwise, quick: 50_000, thorough: 400000 },
            ],
            known: vec![Known { id: "KF5", f: kf5 }],
        },
        Prop {
            id: "C24",
            rule: "more than one chunk with rows",
            assumptions: &[],
            subs: vec![Sub { name: "chunks", f: p_chunks, quick: 100_000, thorough: 800000 }],
            known: vec![],
        },
    ]
}
