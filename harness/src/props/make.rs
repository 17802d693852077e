//! C30 arrays, builders and validities made from Rust values hold exactly those values
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;
use crate::{Prop, Sub};
use arrow_buffer::{BooleanBuffer, NullBuffer, OffsetBuffer, ScalarBuffer};
use vortex::array::builder::VarBinBuilder;
use vortex::array::*;
use vortex::compute::slice;
use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
use vortex_buffer::Buffer;
use vortex_bytebool::ByteBoolArray;
use vortex_dict::{dict_encode_primitive, dict_encode_varbin, dict_encode_varbinview, DictArray};
use vortex_dtype::{DType, NativePType, PType};
use vortex_fastlanes::DeltaArray;
use vortex_roaring::{RoaringBoolArray, RoaringIntArray};
use vortex_runend::compress::{runend_decode, runend_encode};
use vortex_runend_bool::compress::{runend_bool_decode, runend_bool_encode, runend_bool_encode_slice};
use vortex_runend_bool::RunEndBoolArray;
use vortex_zigzag::ZigZagArray;

/// the array holds the column's values; its nullability is the one named by the constructor
fn holds(g: &mut G, a: &Array, col: &Col, nullable: Option<bool>) -> Result<(), String> {
    let n = nullable.unwrap_or_else(|| a.dtype().is_nullable());
    check_all(g, a, &Col { ty: col.ty.with_null(n), vals: col.vals.clone() })
}

fn bools_of(col: &Col) -> Vec<bool> {
    col.vals.iter().map(|v| matches!(v, V::Bool(true))).collect()
}

fn p_bools(g: &mut G) -> Result<(), String> {
    let n = gen_len(g, 3000);
    let nullable = g.bool();
    let col = Col { vals: gen_vals(g, &Ty::Bool(nullable), n), ty: Ty::Bool(nullable) };
    let raw = bools_of(&filled_col(g, &col));
    let opts: Vec<Option<bool>> = col.vals.iter().map(|v| if let V::Bool(b) = v { Some(*b) } else { None }).collect();
    if n > 1 && (!nullable || col.nulls() > 0) {
        g.nontrivial = true;
    }
    let (from, to) = (g.usize(40), g.usize(40));
    let buffer = || {
        let mut v = vec![true; from];
        v.extend(&raw);
        v.extend(vec![false; to]);
        BooleanBuffer::from(v).slice(from, n)
    };
    let kinds: &[&str] = if nullable {
        &["from_vec", "from_iter", "ByteBool try_from_vec", "ByteBool from options", "try_new", "RoaringBool?"]
    } else {
        &["from vec", "from buffer", "ByteBool from", "RunEndBool", "RunEndBool slice", "RoaringBool", "null buffer", "from_vec", "try_new"]
    };
    let k = *g.pick(kinds);
    g.label(k);
    let valid: Vec<bool> = col.vals.iter().map(|v| !v.is_null()).collect();
    let validity = |g: &mut G| if nullable { gen_validity(g, &col, 1) } else { Validity::NonNullable };
    let (a, nul) = match k {
        "from vec" => (BoolArray::from(raw.clone()).into_array(), Some(false)),
        "from_vec" => (BoolArray::from_vec(raw.clone(), validity(g)).into_array(), Some(nullable)),
        "from_iter" => (BoolArray::from_iter(opts.clone()).into_array(), Some(true)),
        "from buffer" => (BoolArray::from(buffer()).into_array(), Some(false)),
        "try_new" => (BoolArray::try_new(buffer(), validity(g)).map_err(|e| format!("build | {}", e2s(e)))?.into_array(), Some(nullable)),
        "null buffer" => (Array::from(NullBuffer::new(buffer())), Some(false)),
        "ByteBool from" => (ByteBoolArray::from(raw.clone()).into_array(), None),
        "ByteBool from options" => (ByteBoolArray::from(opts.clone()).into_array(), Some(true)),
        "ByteBool try_from_vec" => {
            let v: Result<_, _> = if g.bool() {
                ByteBoolArray::try_from_vec(raw.clone(), validity(g))
            } else {
                ByteBoolArray::try_from_vec(raw.clone(), valid.clone())
            };
            (v.map_err(|e| format!("build | {}", e2s(e)))?.into_array(), Some(true))
        }
        "RoaringBool?" => {
            // roaring booleans have no nulls: refused, or else kept
            let a = BoolArray::from_vec(raw.clone(), validity(g)).into_array();
            match RoaringBoolArray::encode(a) {
                Err(_) => {
                    g.label("refused");
                    return Ok(());
                }
                Ok(a) => (a, None),
            }
        }
        "RoaringBool" => (
            RoaringBoolArray::encode(BoolArray::from(buffer()).into_array()).map_err(|e| format!("build | {}", e2s(e)))?,
            Some(false),
        ),
        _ => {
            let b = buffer();
            let (ends, start) = if k == "RunEndBool" {
                runend_bool_encode(&BoolArray::from(b))
            } else {
                let (v, s) = runend_bool_encode_slice(&b);
                (PrimitiveArray::from(v), s)
            };
            // the ends rise and the last one is the length
            let e = ends.maybe_null_slice::<u64>();
            if e.windows(2).any(|w| w[0] >= w[1]) || e.last() != Some(&(n as u64)) {
                return Err(format!("run ends | {e:?} for {n} booleans"));
            }
            if n > 0 && g.bool() {
                let lo = g.usize(n);
                let len = g.range(1, n - lo);
                // ends before the offset cannot be decoded: the array slices them off first
                if e[0] as usize >= lo {
                    let d = runend_bool_decode(&ends, start, Validity::NonNullable, lo, len).map_err(|e| format!("decode | {}", e2s(e)))?;
                    return holds(g, &d.into_array(), &col.slice(lo, lo + len), Some(false));
                }
            }
            if n == 0 {
                return Ok(());
            }
            (
                RunEndBoolArray::try_new(ends.into_array(), start, Validity::NonNullable).map_err(|e| format!("build | {}", e2s(e)))?.into_array(),
                Some(false),
            )
        }
    };
    holds(g, &a, &col, nul)
}

fn filled_col(g: &mut G, col: &Col) -> Col {
    Col { ty: col.ty.clone(), vals: filled(g, col) }
}

trait FromV: NativePType {
    fn from_v(v: &V) -> Self;
}
macro_rules! fv {
    ($($t:ty),*) => { $(impl FromV for $t { fn from_v(v: &V) -> Self { if let V::I(i) = v { *i as $t } else { 0 } } })* };
}
fv!(u8, u16, u32, u64, i8, i16, i32, i64);
impl FromV for half::f16 {
    fn from_v(v: &V) -> Self {
        if let V::F16(b) = v { half::f16::from_bits(*b) } else { half::f16::ZERO }
    }
}
impl FromV for f32 {
    fn from_v(v: &V) -> Self {
        if let V::F32(b) = v { f32::from_bits(*b) } else { 0.0 }
    }
}
impl FromV for f64 {
    fn from_v(v: &V) -> Self {
        if let V::F64(b) = v { f64::from_bits(*b) } else { 0.0 }
    }
}

fn prims<T: FromV>(g: &mut G, col: &Col) -> Result<(), String>
where
    Vec<T>: IntoArray,
    T: arrow_buffer::ArrowNativeType,
{
    let nullable = col.ty.nullable();
    let vals: Vec<T> = filled(g, col).iter().map(T::from_v).collect();
    let opts: Vec<Option<T>> = col.vals.iter().map(|v| if v.is_null() { None } else { Some(T::from_v(v)) }).collect();
    let kinds: &[&str] = if nullable {
        &["from_vec", "from_nullable_vec", "new", "dict", "runend"]
    } else {
        &["from", "into_array", "from_vec", "scalar buffer", "new", "dict", "runend"]
    };
    let k = *g.pick(kinds);
    g.label(k);
    let n = vals.len();
    let err = |e| format!("build | {}", e2s(e));
    let (a, nul) = match k {
        "from" => (PrimitiveArray::from(vals).into_array(), Some(false)),
        "into_array" => (vals.into_array(), Some(false)),
        "from_vec" => (PrimitiveArray::from_vec(vals, gen_validity(g, col, 1)).into_array(), Some(nullable)),
        "from_nullable_vec" => (PrimitiveArray::from_nullable_vec(opts).into_array(), Some(true)),
        "scalar buffer" => {
            let at = g.usize(5);
            let mut v = vec![T::default(); at];
            v.extend(vals);
            (Array::from(ScalarBuffer::<T>::from(v).slice(at, n)), Some(false))
        }
        "new" => (PrimitiveArray::new(Buffer::from(vals), T::PTYPE, gen_validity(g, col, 1)).into_array(), Some(nullable)),
        "dict" => {
            let p = PrimitiveArray::from_vec(vals, gen_validity(g, col, 1));
            let (codes, values) = dict_encode_primitive(&p);
            (DictArray::try_new(codes.into_array(), values.into_array()).map_err(err)?.into_array(), Some(nullable))
        }
        _ => {
            if n == 0 {
                return Ok(());
            }
            let validity = gen_validity(g, col, 1);
            let p = PrimitiveArray::from_vec(vals, validity.clone());
            let (ends, values) = runend_encode(&p);
            let lo = if g.bool() { 0 } else { g.usize(ends.maybe_null_slice::<u64>()[0] as usize + 1).min(n - 1) };
            let len = if g.bool() { n - lo } else { g.range(1, n - lo) };
            let v = validity.slice(lo, lo + len).map_err(err)?;
            let d = runend_decode(&ends, &values, v, lo, len).map_err(err)?;
            return holds(g, &d.into_array(), &col.slice(lo, lo + len), Some(nullable));
        }
    };
    holds(g, &a, col, nul)
}

fn p_prims(g: &mut G) -> Result<(), String> {
    let ty = gen_prim_ty(g);
    let n = gen_len(g, 3000);
    let col = Col { vals: gen_vals(g, &ty, n), ty };
    if n > 1 && (!col.ty.nullable() || col.nulls() > 0) {
        g.nontrivial = true;
    }
    let Ty::Prim(p, nullable) = col.ty.clone() else { return Err("harness: type".into()) };
    if !nullable && p.is_unsigned_int() && g.chance(1, 5) {
        g.label("delta");
        let vals = &col.vals;
        let a = match p {
            PType::U8 => DeltaArray::try_from_vec(vals.iter().map(u8::from_v).collect()),
            PType::U16 => DeltaArray::try_from_vec(vals.iter().map(u16::from_v).collect()),
            PType::U32 => DeltaArray::try_from_vec(vals.iter().map(u32::from_v).collect()),
            _ => DeltaArray::try_from_vec(vals.iter().map(u64::from_v).collect()),
        }
        .map_err(|e| format!("build | {}", e2s(e)))?;
        return holds(g, &a.into_array(), &col, Some(false));
    }
    if p.is_signed_int() && g.chance(1, 5) {
        g.label("zigzag");
        let a = ZigZagArray::encode(&build_prim(g, &col, 1).into_array()).map_err(|e| format!("build | {}", e2s(e)))?;
        return holds(g, &a, &col, Some(nullable));
    }
    if p == PType::U8 && !nullable && g.bool() {
        g.label("bytes");
        let v: Vec<u8> = col.vals.iter().map(u8::from_v).collect();
        let a = match g.usize(3) {
            0 => PrimitiveArray::from_bytes(v.into(), Validity::NonNullable).into_array(),
            1 => Array::from(arrow_buffer::Buffer::from(v.as_slice())),
            _ => Array::from(arrow_buffer::Buffer::from(v)),
        };
        return holds(g, &a, &col, Some(false));
    }
    match p {
        PType::U8 => prims::<u8>(g, &col),
        PType::U16 => prims::<u16>(g, &col),
        PType::U32 => prims::<u32>(g, &col),
        PType::U64 => prims::<u64>(g, &col),
        PType::I8 => prims::<i8>(g, &col),
        PType::I16 => prims::<i16>(g, &col),
        PType::I32 => prims::<i32>(g, &col),
        PType::I64 => prims::<i64>(g, &col),
        PType::F16 => Ok(()),
        PType::F32 => prims::<f32>(g, &col),
        PType::F64 => prims::<f64>(g, &col),
    }
}

/// sets: increasing integers into offsets buffers and roaring integers
fn p_sets(g: &mut G) -> Result<(), String> {
    let n = gen_len(g, 2500);
    let step = *g.pick(&[1usize, 3, 100, 70000]);
    let mut r = g.bulk();
    let mut at = r.below(step as u64 + 1) as i128;
    let mut vals = vec![];
    for _ in 0..n {
        vals.push(V::I(at));
        at += 1 + r.below(step as u64) as i128;
        if at > i32::MAX as i128 {
            break;
        }
    }
    let n = vals.len();
    if n > 1 {
        g.nontrivial = true;
    }
    let last = vals.last().map(|v| v.int()).unwrap_or(0);
    let k = *g.pick(&["roaring", "offsets32", "offsets64"]);
    g.label(k);
    let p = match k {
        "offsets32" => PType::I32,
        "offsets64" => PType::I64,
        _ => *g.pick(&UINTS.iter().copied().filter(|p| int_range(*p).1 >= last).collect::<Vec<_>>()),
    };
    let col = Col { ty: Ty::Prim(p, false), vals };
    let a = match k {
        "roaring" => match RoaringIntArray::encode(prim_from(p, &col.vals, Validity::NonNullable).into_array()) {
            Ok(a) => a,
            Err(e) => return Err(format!("build | {}", e2s(e))),
        },
        _ if n == 0 => return Ok(()),
        "offsets32" => Array::from(OffsetBuffer::<i32>::new(col.vals.iter().map(|v| v.int() as i32).collect::<Vec<_>>().into())),
        _ => Array::from(OffsetBuffer::<i64>::new(col.vals.iter().map(|v| v.int() as i64).collect::<Vec<_>>().into())),
    };
    holds(g, &a, &col, Some(false))
}

fn p_strings(g: &mut G) -> Result<(), String> {
    let (utf8, nullable) = (g.bool(), g.bool());
    let ty = if utf8 { Ty::Utf8(nullable) } else { Ty::Bin(nullable) };
    let n = gen_len(g, 1500);
    let col = Col { vals: gen_vals(g, &ty, n), ty };
    if n > 1 && (!nullable || col.nulls() > 0) {
        g.nontrivial = true;
    }
    let dt = col.ty.dtype();
    let bytes: Vec<Vec<u8>> = col.vals.iter().map(|v| if let V::S(s) = v { s.clone() } else { vec![] }).collect();
    let obytes: Vec<Option<Vec<u8>>> = col.vals.iter().map(|v| if let V::S(s) = v { Some(s.clone()) } else { None }).collect();
    let text = |b: &Vec<u8>| String::from_utf8(b.clone()).unwrap_or_default();
    let k = match (utf8, nullable) {
        (true, false) => *g.pick(&["From<Vec<&str>>", "From<Vec<String>>", "from_vec", "from_iter_nonnull", "view str", "view from_iter", "dict", "dict view"]),
        (true, true) => *g.pick(&["FromIterator str", "FromIterator String", "from_iter", "view nullable str", "view FromIterator str", "view FromIterator String", "view from_iter", "dict", "dict view"]),
        (false, false) => *g.pick(&["From<Vec<&[u8]>>", "From<Vec<Vec<u8>>>", "from_vec", "from_iter_nonnull", "view bin", "view from_iter", "dict", "dict view"]),
        (false, true) => *g.pick(&["FromIterator bytes", "FromIterator Vec", "from_iter", "view nullable bin", "view FromIterator bytes", "view FromIterator Vec", "view from_iter", "dict", "dict view"]),
    };
    g.label(k);
    let strs: Vec<String> = if utf8 { bytes.iter().map(text).collect() } else { vec![] };
    let ostrs: Vec<Option<String>> = if utf8 { obytes.iter().map(|b| b.as_ref().map(text)).collect() } else { vec![] };
    let err = |e| format!("build | {}", e2s(e));
    let a = match k {
        "From<Vec<&str>>" => VarBinArray::from(strs.iter().map(|s| s.as_str()).collect::<Vec<_>>()).into_array(),
        "From<Vec<String>>" => VarBinArray::from(strs).into_array(),
        "From<Vec<&[u8]>>" => VarBinArray::from(bytes.iter().map(|s| s.as_slice()).collect::<Vec<_>>()).into_array(),
        "From<Vec<Vec<u8>>>" => VarBinArray::from(bytes).into_array(),
        "from_vec" => VarBinArray::from_vec(bytes, dt.clone()).into_array(),
        "from_iter" => VarBinArray::from_iter(obytes, dt.clone()).into_array(),
        "from_iter_nonnull" => VarBinArray::from_iter_nonnull(bytes, dt.clone()).into_array(),
        "FromIterator str" => ostrs.iter().map(|s| s.as_deref()).collect::<VarBinArray>().into_array(),
        "FromIterator String" => ostrs.into_iter().collect::<VarBinArray>().into_array(),
        "FromIterator bytes" => obytes.iter().map(|s| s.as_deref()).collect::<VarBinArray>().into_array(),
        "FromIterator Vec" => obytes.into_iter().collect::<VarBinArray>().into_array(),
        "view str" => VarBinViewArray::from_iter_str(strs).into_array(),
        "view nullable str" => VarBinViewArray::from_iter_nullable_str(ostrs).into_array(),
        "view bin" => VarBinViewArray::from_iter_bin(bytes).into_array(),
        "view nullable bin" => VarBinViewArray::from_iter_nullable_bin(obytes).into_array(),
        "view FromIterator str" => ostrs.iter().map(|s| s.as_deref()).collect::<VarBinViewArray>().into_array(),
        "view FromIterator String" => ostrs.into_iter().collect::<VarBinViewArray>().into_array(),
        "view FromIterator bytes" => obytes.iter().map(|s| s.as_deref()).collect::<VarBinViewArray>().into_array(),
        "view FromIterator Vec" => obytes.into_iter().collect::<VarBinViewArray>().into_array(),
        "view from_iter" => VarBinViewArray::from_iter(obytes, dt.clone()).into_array(),
        "dict" => {
            let (codes, values) = dict_encode_varbin(&build_varbin(g, &col));
            DictArray::try_new(codes.into_array(), values.into_array()).map_err(err)?.into_array()
        }
        _ => {
            let (codes, values) = dict_encode_varbinview(&build_view(g, &col));
            DictArray::try_new(codes.into_array(), values.into_array()).map_err(err)?.into_array()
        }
    };
    holds(g, &a, &col, if k == "view bin" { None } else { Some(nullable) })
}

/// a history of builder calls
fn builder<O: NativePType + 'static>(g: &mut G, utf8: bool, nullable: bool, max: usize) -> Result<(), String>
where
    usize: num_traits::AsPrimitive<O>,
{
    let ty = if utf8 { Ty::Utf8(nullable) } else { Ty::Bin(nullable) };
    let mut b = if g.bool() { VarBinBuilder::<O>::new() } else { VarBinBuilder::<O>::with_capacity(g.usize(20)) };
    let mut vals: Vec<V> = vec![];
    let mut total = 0usize;
    let ops = g.usize(30);
    let mut trace = vec![];
    let mut bulk = 0;
    for _ in 0..ops {
        let k = g.usize(4);
        let m = if k == 3 { g.usize(6) } else { 1 };
        let s = gen_strings(g, m, utf8);
        let len: usize = s.iter().map(|x| x.len()).sum();
        if total + len > max {
            continue;
        }
        match k {
            0 => {
                b.push_value(&s[0]);
                trace.push("value".to_string());
                vals.push(V::S(s[0].clone()));
                total += len;
            }
            1 => {
                let null = nullable && g.bool();
                b.push(if null { None } else { Some(s[0].as_slice()) });
                trace.push(format!("push {}", !null));
                vals.push(if null { V::Null } else { V::S(s[0].clone()) });
                total += if null { 0 } else { len };
            }
            2 if nullable => {
                b.push_null();
                trace.push("null".into());
                vals.push(V::Null);
            }
            3 => {
                let mut at = 0;
                let ends: Vec<O> = s
                    .iter()
                    .map(|x| {
                        at += x.len();
                        num_traits::AsPrimitive::<O>::as_(at)
                    })
                    .collect();
                b.push_values(&s.concat(), ends.into_iter(), m);
                trace.push(format!("values {m}"));
                vals.extend(s.into_iter().map(V::S));
                total += len;
                bulk += 1;
            }
            _ => {}
        }
    }
    if vals.len() > 1 && (bulk > 0 || vals.iter().any(|v| v.is_null())) {
        g.nontrivial = true;
    }
    g.note(|| format!("builder of {}: {trace:?}", O::PTYPE));
    let col = Col { ty, vals };
    let a = b.finish(col.ty.dtype());
    if a.offsets().dtype() != &DType::from(O::PTYPE) {
        return Err(format!("offsets | of {} from a builder of {}", a.offsets().dtype(), O::PTYPE));
    }
    let a = a.into_array();
    holds(g, &a, &col, Some(nullable))?;
    if col.len() > 1 {
        let lo = g.usize(col.len());
        let hi = g.range(lo, col.len());
        let s = slice(&a, lo, hi).map_err(|e| format!("slice | {}", e2s(e)))?;
        holds(g, &s, &col.slice(lo, hi), Some(nullable))?;
    }
    Ok(())
}

fn p_builder(g: &mut G) -> Result<(), String> {
    let (utf8, nullable) = (g.bool(), g.bool());
    match g.usize(8) {
        0 => builder::<u8>(g, utf8, nullable, u8::MAX as usize),
        1 => builder::<i8>(g, utf8, nullable, i8::MAX as usize),
        2 => builder::<u16>(g, utf8, nullable, u16::MAX as usize),
        3 => builder::<i16>(g, utf8, nullable, i16::MAX as usize),
        4 => builder::<u32>(g, utf8, nullable, 1 << 20),
        5 => builder::<i32>(g, utf8, nullable, 1 << 20),
        6 => builder::<u64>(g, utf8, nullable, 1 << 20),
        _ => builder::<i64>(g, utf8, nullable, 1 << 20),
    }
}

/// structs, chunks and constants from their parts
fn p_nested(g: &mut G) -> Result<(), String> {
    let c = Cfg { max_len: 600, ..Default::default() };
    match g.usize(3) {
        0 => {
            let n = gen_len(g, 600);
            let k = g.range(1, 5);
            let mut fields = vec![];
            let mut cols = vec![];
            for i in 0..k {
                let ty = gen_ty(g, &Cfg { structs: false, ..Default::default() });
                let col = Col { vals: gen_vals(g, &ty, n), ty };
                let (a, _) = build(g, &col, 1)?;
                fields.push((format!("f{}", i), a));
                cols.push(col);
            }
            if n > 1 && k > 1 {
                g.nontrivial = true;
            }
            g.label("struct");
            let a = StructArray::from_fields(&fields).map_err(|e| format!("build | {}", e2s(e)))?;
            let ty = Ty::Struct(fields.iter().zip(&cols).map(|((f, _), c)| (f.clone(), c.ty.clone())).collect(), false);
            let vals = (0..n).map(|i| V::Struct(cols.iter().map(|c| c.vals[i].clone()).collect())).collect();
            holds(g, &a.into_array(), &Col { ty, vals }, Some(false))
        }
        1 => {
            g.label("chunks");
            let ty = gen_ty(g, &c);
            let k = g.range(1, 6);
            let mut vals = vec![];
            let mut parts = vec![];
            for _ in 0..k {
                let n = small_len(g, 300);
                let col = Col { vals: gen_vals(g, &ty, n), ty: ty.clone() };
                parts.push(build(g, &col, 1)?.0);
                vals.extend(col.vals);
            }
            if k > 1 && vals.len() > 1 {
                g.nontrivial = true;
            }
            let nullable = ty.nullable();
            let a = ChunkedArray::from_iter(parts);
            holds(g, &a.into_array(), &Col { ty, vals }, Some(nullable))
        }
        _ => {
            g.label("constant");
            let n = gen_len(g, 600);
            let (a, ty, v): (_, Ty, V) = match g.usize(6) {
                0 => {
                    let x = g.u64();
                    (ConstantArray::new(x, n), Ty::Prim(PType::U64, false), V::I(x as i128))
                }
                1 => {
                    let x = g.u64() as i32;
                    (ConstantArray::new(x, n), Ty::Prim(PType::I32, false), V::I(x as i128))
                }
                2 => {
                    let x = f64::from_bits(g.u64());
                    (ConstantArray::new(x, n), Ty::Prim(PType::F64, false), V::F64(x.to_bits()))
                }
                3 => {
                    let x = g.bool();
                    (ConstantArray::new(x, n), Ty::Bool(false), V::Bool(x))
                }
                4 => {
                    let s = gen_strings(g, 1, true).remove(0);
                    let t = String::from_utf8(s.clone()).map_err(|_| "harness: text")?;
                    (ConstantArray::new(t.as_str(), n), Ty::Utf8(false), V::S(s))
                }
                _ => {
                    let x: Option<i16> = if g.bool() { Some(g.u64() as i16) } else { None };
                    (ConstantArray::new(x, n), Ty::Prim(PType::I16, true), x.map(|x| V::I(x as i128)).unwrap_or(V::Null))
                }
            };
            if n > 1 {
                g.nontrivial = true;
            }
            let nullable = ty.nullable();
            holds(g, &a.into_array(), &Col { ty, vals: vec![v; n] }, Some(nullable))
        }
    }
}

/// every encoder of an encoding, given any array of its kind: refused, or else decoded to the same values
fn p_encoders(g: &mut G) -> Result<(), String> {
    let c = Cfg { max_len: 3000, structs: false, null_ty: false, ..Default::default() };
    let ty = gen_ty(g, &c);
    let n = gen_len(g, 3000);
    let mut vals = gen_vals(g, &ty, n);
    if g.chance(1, 3) {
        vals.sort_by(|a, b| a.ncmp(b));
        if g.chance(1, 3) {
            vals.dedup();
        }
    }
    let col = Col { vals, ty };
    let n = col.len();
    if n > 1 {
        g.nontrivial = true;
    }
    type R = vortex_error::VortexResult<Array>;
    let (k, r): (&str, R) = match &col.ty {
        Ty::Prim(p, _) => {
            let prim = build_prim(g, &col, 1);
            let a = prim.clone().into_array();
            let mut opts = vec!["dict", "runend", "roaring int", "bitpacked", "for", "zigzag", "alp", "delta"];
            if matches!(p, PType::F32 | PType::F64) && n > 0 {
                opts.extend(["alprd", "alprd of another sample"]);
            }
            let k = *g.pick(&opts);
            let r = match k {
                "dict" => {
                    let (codes, values) = dict_encode_primitive(&prim);
                    DictArray::try_new(codes.into_array(), values.into_array()).map(|a| a.into_array())
                }
                "runend" => vortex_runend::RunEndArray::encode(a).map(|a| a.into_array()),
                "roaring int" => RoaringIntArray::encode(a),
                "bitpacked" => {
                    // any width, also ones which hold none of the values, and negative values
                    if !p.is_int() {
                        return Ok(());
                    }
                    let w = g.usize(p.bit_width() + 2) as u8;
                    vortex_fastlanes::BitPackedArray::encode(&a, w).map(|a| a.into_array())
                }
                "for" if p.is_int() => vortex_fastlanes::for_compress(&prim),
                "zigzag" => ZigZagArray::encode(&a),
                "alp" => vortex_alp::ALPArray::encode(a),
                "delta" if p.is_int() => vortex_fastlanes::delta_compress(&prim).and_then(|(b, d)| {
                    DeltaArray::try_from_delta_compress_parts(b.into_array(), d.into_array(), prim.validity()).map(|a| a.into_array())
                }),
                "alprd" | "alprd of another sample" => {
                    let other = {
                        let ty = Ty::Prim(*p, false);
                        let n = g.range(1, 200);
                        let o = Col { vals: gen_vals(g, &ty, n), ty };
                        build_prim(g, &o, 0)
                    };
                    let sample = if k == "alprd" { &prim } else { &other };
                    let x = if *p == PType::F32 {
                        vortex_alp::RDEncoder::new(sample.maybe_null_slice::<f32>()).encode(&prim)
                    } else {
                        vortex_alp::RDEncoder::new(sample.maybe_null_slice::<f64>()).encode(&prim)
                    };
                    Ok(x.into_array())
                }
                _ => return Ok(()),
            };
            (k, r)
        }
        Ty::Bool(nullable) => {
            let k = *g.pick(&["roaring bool", "runend bool", "runend bool"]);
            let r = if k == "roaring bool" {
                build_plain(g, &col, 1).and_then(|(a, _)| RoaringBoolArray::encode(a).map_err(e2s)).map_err(|e| vortex_error::vortex_err!("{e}"))
            } else {
                if n == 0 {
                    return Ok(());
                }
                let raw = bools_of(&filled_col(g, &col));
                let v = gen_validity(g, &col, 1);
                let (ends, start) = runend_bool_encode(&BoolArray::from_vec(raw, v.clone()));
                let _ = nullable;
                RunEndBoolArray::try_new(ends.into_array(), start, v).map(|a| a.into_array())
            };
            (k, r)
        }
        Ty::Utf8(_) | Ty::Bin(_) => {
            let k = *g.pick(&["fsst", "fsst of another sample", "dict"]);
            let a = if g.bool() { build_view(g, &col).into_array() } else { build_varbin(g, &col).into_array() };
            let r = match k {
                "dict" => {
                    let (codes, values) = dict_encode_varbin(&build_varbin(g, &col));
                    DictArray::try_new(codes.into_array(), values.into_array()).map(|a| a.into_array())
                }
                _ => {
                    let sample = if k == "fsst" {
                        a.clone()
                    } else {
                        let ty = col.ty.with_null(g.bool());
                        let n = small_len(g, 200);
                        let o = Col { vals: gen_vals(g, &ty, n), ty };
                        build_varbin(g, &o).into_array()
                    };
                    vortex_fsst::fsst_train_compressor(&sample).and_then(|c| vortex_fsst::fsst_compress(&a, &c)).map(|a| a.into_array())
                }
            };
            (k, r)
        }
        Ty::Ext(..) if is_temporal(&col.ty) => {
            let (a, _) = build_plain(g, &col, 1)?;
            let r = TemporalArray::try_from(&a).and_then(vortex_datetime_parts::split_temporal).and_then(|p| {
                vortex_datetime_parts::DateTimePartsArray::try_new(col.ty.dtype(), p.days, p.seconds, p.subseconds).map(|a| a.into_array())
            });
            ("datetime parts", r)
        }
        _ => return Ok(()),
    };
    g.label(k);
    match r {
        Err(e) => {
            g.label(format!("refused by {k}"));
            g.note(|| format!("{k} refused: {e}"));
            g.nontrivial = false;
            Ok(())
        }
        Ok(a) => holds(g, &a, &col, Some(col.ty.nullable())),
    }
}

fn check_valid(g: &mut G, v: &Validity, want: &[bool], what: &str) -> Result<(), String> {
    let n = want.len();
    for i in probe_indices(g, n, 12) {
        if v.is_valid(i) != want[i] || v.is_null(i) == want[i] {
            return Err(format!("validity of {what} | is_valid({i}) of {n} is {}", v.is_valid(i)));
        }
    }
    let l = v.to_logical(n);
    if l.len() != n || l.is_empty() != (n == 0) {
        return Err(format!("validity of {what} | logical length {} for {n}", l.len()));
    }
    if n > 0 && (l.all_valid() && want.contains(&false) || l.all_invalid() && want.contains(&true)) {
        return Err(format!("validity of {what} | all valid {} all invalid {}", l.all_valid(), l.all_invalid()));
    }
    let nb = l.to_null_buffer().map_err(|e| format!("null buffer | {}", e2s(e)))?;
    let got: Vec<bool> = match nb {
        None => vec![true; n],
        Some(b) => b.iter().collect(),
    };
    if got != want {
        return Err(format!("validity of {what} | null buffer {got:?} expected {want:?}"));
    }
    let arr: Vec<bool> = l.clone().into_array().into_bool().map_err(|e| format!("bools | {}", e2s(e)))?.boolean_buffer().iter().collect();
    if arr != want {
        return Err(format!("validity of {what} | array {arr:?} expected {want:?}"));
    }
    let back = l.into_validity().to_logical(n);
    if lv_to_vec(back, n)? != want {
        return Err(format!("validity of {what} | back to a validity"));
    }
    Ok(())
}

fn p_validity(g: &mut G) -> Result<(), String> {
    let n = gen_len(g, 2500);
    let want = if g.chance(1, 5) { vec![g.bool(); n] } else { gen_bools(g, n) };
    if want.contains(&true) && want.contains(&false) {
        g.nontrivial = true;
    }
    let from = g.usize(20);
    let buffer = || {
        let mut v = vec![false; from];
        v.extend(&want);
        BooleanBuffer::from(v).slice(from, n)
    };
    let k = *g.pick(&["bools", "buffer", "null buffer", "options", "logical", "array"]);
    g.label(k);
    let v = match k {
        "bools" => Validity::from(want.clone()),
        "buffer" => Validity::from(buffer()),
        "null buffer" => Validity::from(NullBuffer::new(buffer())),
        "options" => {
            let o: Vec<Option<u8>> = want.iter().map(|b| if *b { Some(1) } else { None }).collect();
            Validity::from_iter(o.iter())
        }
        "logical" => {
            // cut into pieces, each of which states itself in one of the ways it can
            let mut parts = vec![];
            let mut at = 0;
            while at < n {
                let len = g.range(1, n - at);
                let w = &want[at..at + len];
                parts.push(if w.iter().all(|b| *b) && g.chance(3, 4) {
                    LogicalValidity::AllValid(len)
                } else if !w.contains(&true) && g.chance(3, 4) {
                    LogicalValidity::AllInvalid(len)
                } else {
                    LogicalValidity::Array(BoolArray::from(w.to_vec()).into_array())
                });
                at += len;
                if g.chance(1, 4) {
                    parts.push(if g.bool() { LogicalValidity::AllValid(0) } else { LogicalValidity::AllInvalid(0) });
                }
            }
            if parts.len() > 1 {
                g.label("several parts");
            }
            if n == 0 {
                parts.clear();
            }
            Validity::from_iter(parts)
        }
        _ => {
            let c = Col { ty: Ty::Bool(false), vals: want.iter().map(|b| V::Bool(*b)).collect() };
            let (a, _) = build(g, &c, 1)?;
            let l = LogicalValidity::try_from(a).map_err(|e| format!("build | {}", e2s(e)))?;
            if n > 0 && (l.all_valid() != !want.contains(&false) || l.all_invalid() != !want.contains(&true)) {
                return Err(format!("logical validity | all valid {} all invalid {}", l.all_valid(), l.all_invalid()));
            }
            if l.len() != n {
                return Err(format!("logical validity | length {} for {n}", l.len()));
            }
            l.into_validity()
        }
    };
    check_valid(g, &v, &want, k)?;
    // the same facts stated by another constructor are equal
    let w = Validity::from(want.clone());
    if n > 0 && matches!((&v, &w), (Validity::Array(_), Validity::Array(_))) && v != w {
        return Err(format!("equality | the validity from {k} differs from the one from bools"));
    }
    if n > 0 {
        let mut other = want.clone();
        let i = g.usize(n);
        other[i] = !other[i];
        let o = Validity::from(other);
        if o == v {
            return Err(format!("equality | validities that differ at {i} of {n} are equal"));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        rule: "more than one value, with nulls where the type allows them; several parts; builder histories with a bulk push or a null",
        assumptions: &[],
        subs: vec![
            Sub { name: "bools", f: p_bools, quick: 60_000, thorough: 600000 },
            Sub { name: "numbers", f: p_prims, quick: 80_000, thorough: 800000 },
            Sub { name: "sets", f: p_sets, quick: 20_000, thorough: 200000 },
            Sub { name: "strings", f: p_strings, quick: 40_000, thorough: 400000 },
            Sub { name: "builder", f: p_builder, quick: 60_000, thorough: 600000 },
            Sub { name: "nested", f: p_nested, quick: 30_000, thorough: 300000 },
            Sub { name: "encoders", f: p_encoders, quick: 80_000, thorough: 800000 },
            Sub { name: "validity", f: p_validity, quick: 60_000, thorough: 600000 },
        ],
        known: vec![],
    }]
}
