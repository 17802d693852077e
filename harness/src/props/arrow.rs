//! C18: conversion to and from Arrow loses nothing
use super::arrays::*;
use super::stats::check_stats;
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;
use crate::{Prop, Sub};
use arrow_array as aa;
use arrow_array::{Array as _, ArrayRef, RecordBatch};
use arrow_buffer::{BooleanBuffer, NullBuffer, OffsetBuffer, ScalarBuffer};
use arrow_schema::{DataType, Field, Fields, Schema};
use std::sync::Arc;
use vortex::array::StructArray;
use vortex::arrow::{infer_data_type, infer_schema, FromArrowArray, FromArrowType};
use vortex::{Array, ArrayDType, IntoCanonical};
use vortex_dtype::{DType, PType};

/// does the type have an Arrow counterpart
pub fn has_arrow(ty: &Ty) -> bool {
    !ty.has(&|t| is_custom_ext(t))
}

pub fn arrow_type(ty: &Ty) -> DataType {
    infer_data_type(&ty.dtype()).expect("harness: arrow type")
}

/// an Arrow array of the given values; values hidden under nulls are arbitrary
pub fn build_arrow(g: &mut G, ty: &Ty, vals: &[V]) -> ArrayRef {
    // optionally built longer and sliced
    if g.chance(1, 3) && !matches!(ty, Ty::Null) {
        let (pre, post) = (g.usize(20), g.usize(20));
        let mut v = gen_vals(g, ty, pre);
        v.extend_from_slice(vals);
        v.extend(gen_vals(g, ty, post));
        return build_arrow1(g, ty, &v, None, false).slice(pre, vals.len());
    }
    build_arrow1(g, ty, vals, None, false)
}

fn build_arrow1(g: &mut G, ty: &Ty, vals: &[V], parent: Option<&[bool]>, nested: bool) -> ArrayRef {
    let col = Col { ty: ty.clone(), vals: vals.to_vec() };
    let mut valid: Vec<bool> = vals.iter().map(|v| !v.is_null()).collect();
    // under a null parent anything goes, even a null of a non-nullable field
    let mut masked = false;
    if let Some(p) = parent {
        if g.chance(1, 3) {
            for (v, p) in valid.iter_mut().zip(p) {
                if !p {
                    *v = false;
                    masked = true;
                }
            }
        }
    }
    let plain = valid.iter().all(|v| *v) && !masked;
    // (a struct rejects a null buffer without nulls in a non-nullable field)
    let nulls = if plain && ((nested && !ty.nullable()) || g.chance(2, 3)) { None } else { Some(NullBuffer::from(valid.clone())) };
    let f = filled(g, &col);
    let n = vals.len();
    macro_rules! prim {
        ($t:ty, $f:expr) => {{
            let v: Vec<<$t as aa::types::ArrowPrimitiveType>::Native> = f.iter().map($f).collect();
            Arc::new(aa::PrimitiveArray::<$t>::new(ScalarBuffer::from(v), nulls)) as ArrayRef
        }};
        ($t:ty, tz $tz:expr) => {{
            let v: Vec<i64> = f.iter().map(|x| x.int() as i64).collect();
            Arc::new(aa::PrimitiveArray::<$t>::new(ScalarBuffer::from(v), nulls).with_timezone_opt($tz)) as ArrayRef
        }};
    }
    fn bytes(v: &V) -> Vec<u8> {
        match v {
            V::S(b) => b.clone(),
            _ => vec![],
        }
    }
    use aa::types::*;
    use arrow_schema::TimeUnit as U;
    match ty {
        Ty::Null => Arc::new(aa::NullArray::new(n)),
        Ty::Bool(_) => {
            let b: Vec<bool> = f.iter().map(|v| matches!(v, V::Bool(true))).collect();
            Arc::new(aa::BooleanArray::new(BooleanBuffer::from(b), nulls))
        }
        Ty::Prim(p, _) => match p {
            PType::U8 => prim!(UInt8Type, |v| v.int() as u8),
            PType::U16 => prim!(UInt16Type, |v| v.int() as u16),
            PType::U32 => prim!(UInt32Type, |v| v.int() as u32),
            PType::U64 => prim!(UInt64Type, |v| v.int() as u64),
            PType::I8 => prim!(Int8Type, |v| v.int() as i8),
            PType::I16 => prim!(Int16Type, |v| v.int() as i16),
            PType::I32 => prim!(Int32Type, |v| v.int() as i32),
            PType::I64 => prim!(Int64Type, |v| v.int() as i64),
            PType::F16 => prim!(Float16Type, |v| if let V::F16(b) = v { half::f16::from_bits(*b) } else { half::f16::ZERO }),
            PType::F32 => prim!(Float32Type, |v| if let V::F32(b) = v { f32::from_bits(*b) } else { 0.0 }),
            PType::F64 => prim!(Float64Type, |v| if let V::F64(b) = v { f64::from_bits(*b) } else { 0.0 }),
        },
        Ty::Utf8(_) | Ty::Bin(_) => {
            let utf8 = matches!(ty, Ty::Utf8(_));
            let data: Vec<Vec<u8>> = f.iter().map(bytes).collect();
            let k = g.usize(4);
            if k == 3 {
                let data: Vec<&[u8]> = data.iter().map(|d| d.as_slice()).collect();
                let (views, bufs) = scattered_views(g, &data);
                return if utf8 {
                    Arc::new(aa::StringViewArray::new(views, bufs, nulls))
                } else {
                    Arc::new(aa::BinaryViewArray::new(views, bufs, nulls))
                };
            }
            if k == 2 {
                let opt: Vec<Option<&[u8]>> = data.iter().zip(&valid).map(|(d, v)| v.then_some(d.as_slice())).collect();
                let a = if opt.iter().all(|o| o.is_some()) && nulls.is_none() {
                    aa::BinaryViewArray::from_iter_values(data.iter())
                } else {
                    aa::BinaryViewArray::from_iter(opt)
                };
                return if utf8 { Arc::new(a.to_string_view().expect("harness: utf8")) } else { Arc::new(a) };
            }
            // the first offset need not be zero, nor the last one the end of the data
            let ends = if g.chance(1, 4) { [g.usize(9), g.usize(9)] } else { [0, 0] };
            let mut buf = vec![b'<'; ends[0]];
            let mut off = vec![buf.len()];
            for d in &data {
                buf.extend_from_slice(d);
                off.push(buf.len());
            }
            buf.extend(vec![b'>'; ends[1]]);
            let buf = arrow_buffer::Buffer::from_vec(buf);
            let o32 = || OffsetBuffer::new(ScalarBuffer::from(off.iter().map(|x| *x as i32).collect::<Vec<_>>()));
            let o64 = || OffsetBuffer::new(ScalarBuffer::from(off.iter().map(|x| *x as i64).collect::<Vec<_>>()));
            match (utf8, k) {
                (true, 0) => Arc::new(aa::StringArray::new(o32(), buf, nulls)),
                (true, _) => Arc::new(aa::LargeStringArray::new(o64(), buf, nulls)),
                (false, 0) => Arc::new(aa::BinaryArray::new(o32(), buf, nulls)),
                (false, _) => Arc::new(aa::LargeBinaryArray::new(o64(), buf, nulls)),
            }
        }
        Ty::Struct(fs, _) => {
            let cols: Vec<ArrayRef> = fs
                .iter()
                .enumerate()
                .map(|(i, (_, t))| {
                    let c: Vec<V> = f.iter().map(|v| if let V::Struct(x) = v { x[i].clone() } else { zero_of(t) }).collect();
                    build_arrow1(g, t, &c, nulls.as_ref().map(|_| valid.as_slice()), true)
                })
                .collect();
            if fs.is_empty() {
                return Arc::new(aa::StructArray::new_empty_fields(n, nulls));
            }
            let fields: Fields =
                fs.iter().zip(&cols).map(|((name, t), c)| Arc::new(Field::new(name, c.data_type().clone(), t.nullable()))).collect();
            Arc::new(aa::StructArray::new(fields, cols, nulls))
        }
        Ty::Ext(..) => match arrow_type(ty) {
            DataType::Date32 => prim!(Date32Type, |v| v.int() as i32),
            DataType::Date64 => prim!(Date64Type, |v| v.int() as i64),
            DataType::Time32(U::Second) => prim!(Time32SecondType, |v| v.int() as i32),
            DataType::Time32(_) => prim!(Time32MillisecondType, |v| v.int() as i32),
            DataType::Time64(U::Microsecond) => prim!(Time64MicrosecondType, |v| v.int() as i64),
            DataType::Time64(_) => prim!(Time64NanosecondType, |v| v.int() as i64),
            DataType::Timestamp(U::Second, tz) => prim!(TimestampSecondType, tz tz),
            DataType::Timestamp(U::Millisecond, tz) => prim!(TimestampMillisecondType, tz tz),
            DataType::Timestamp(U::Microsecond, tz) => prim!(TimestampMicrosecondType, tz tz),
            DataType::Timestamp(U::Nanosecond, tz) => prim!(TimestampNanosecondType, tz tz),
            d => panic!("harness: {d}"),
        },
    }
}

fn gen_arrow_ty(g: &mut G, cfg: &Cfg) -> Ty {
    loop {
        let t = gen_ty(g, cfg);
        if has_arrow(&t) {
            return t;
        }
    }
}

/// the values, the type and the nulls of an Arrow array against the column
fn check_arrow(a: &dyn aa::Array, col: &Col, exact_type: bool) -> Res {
    if a.len() != col.len() {
        return Err(format!("arrow length | {} instead of {}", a.len(), col.len()));
    }
    if exact_type && a.data_type() != &arrow_type(&col.ty) {
        return Err(format!("arrow type | {} instead of {}", a.data_type(), arrow_type(&col.ty)));
    }
    // validation mistakes the offset of the values for an offset of the nulls
    fn has_offset(d: &arrow::array::ArrayData) -> bool {
        d.offset() != 0 || d.child_data().iter().any(has_offset)
    }
    let d = a.to_data();
    if !has_offset(&d) {
        d.validate_full().map_err(|e| format!("arrow invalid | {e}"))?;
    }
    let got = arrow_vals(a, &col.ty)?;
    diff(&col.vals, &got).map_or(Ok(()), |d| Err(format!("arrow values | {d}")))
}

fn p_to_arrow(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 600, ..Default::default() };
    let (a, col, _) = gen_array(g, &cfg)?;
    label_col(g, &col);
    let c = a.clone().into_canonical().map_err(|e| format!("canonical | {}", e2s(e)))?;
    let r = match c.into_arrow() {
        Ok(r) => r,
        Err(e) => {
            if !has_arrow(&col.ty) {
                g.label("no_arrow_type");
                return Ok(());
            }
            return Err(format!("into_arrow | {}", e2s(e)));
        }
    };
    g.nontrivial = col.len() >= 2;
    check_arrow(r.as_ref(), &col, true)?;
    // and back
    let b = Array::from_arrow(r.clone(), col.ty.nullable());
    if b.dtype() != a.dtype() {
        return Err(format!("dtype | {} comes back from Arrow as {}", a.dtype(), b.dtype()));
    }
    check_all(g, &b, &col).map_err(|e| format!("back from arrow | {e}"))?;
    check_stats(g, &b, &col, false, "back from arrow").and_then(|_| check_stats(g, &b, &col, true, "back from arrow"))
}

fn p_from_arrow(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 600, ..Default::default() };
    let ty = gen_arrow_ty(g, &cfg);
    let n = gen_len(g, cfg.max_len);
    let col = Col { ty: ty.clone(), vals: gen_vals(g, &ty, n) };
    label_col(g, &col);
    let src = build_arrow(g, &ty, &col.vals);
    g.note(|| format!("{} from {:?}", col.ty.dtype(), src));
    if let Some(d) = diff(&col.vals, &arrow_vals(src.as_ref(), &ty)?) {
        return Err(format!("harness | arrow array built wrong: {d}"));
    }
    g.nontrivial = n >= 2;
    let a = Array::from_arrow(src.clone(), ty.nullable());
    let field = Field::new("f", src.data_type().clone(), ty.nullable());
    let dt = DType::from_arrow(&field);
    if &dt != a.dtype() || dt != ty.dtype() {
        return Err(format!("dtype | field {field} is {dt}, array {}, expected {}", a.dtype(), ty.dtype()));
    }
    check_all(g, &a, &col).map_err(|e| format!("from arrow | {e}"))?;
    check_stats(g, &a, &col, false, "from arrow").and_then(|_| check_stats(g, &a, &col, true, "from arrow"))?;
    let r = a.into_canonical().and_then(|c| c.into_arrow()).map_err(|e| format!("into_arrow | {}", e2s(e)))?;
    check_arrow(r.as_ref(), &col, true)
}

fn p_batch(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 300, ..Default::default() };
    let k = g.usize(5);
    let fs: Vec<(String, Ty)> = (0..k).map(|i| (["a", "b", "a", ""][i % 4].to_string(), gen_arrow_ty(g, &cfg))).collect();
    let ty = Ty::Struct(fs.clone(), false);
    let n = gen_len(g, cfg.max_len);
    let col = Col { ty: ty.clone(), vals: gen_vals(g, &ty, n) };
    let cols: Vec<ArrayRef> = (0..k).map(|i| build_arrow(g, &fs[i].1, &col.field(i).vals)).collect();
    let schema = Arc::new(Schema::new(
        fs.iter().zip(&cols).map(|((m, t), c)| Field::new(m, c.data_type().clone(), t.nullable())).collect::<Vec<_>>(),
    ));
    let opts = aa::RecordBatchOptions::new().with_row_count(Some(n));
    let rb = RecordBatch::try_new_with_options(schema.clone(), cols, &opts).map_err(|e| format!("harness | {e}"))?;
    g.nontrivial = n >= 2 && k >= 2;
    g.note(|| format!("batch of {n} rows, {schema:?}"));
    let a = Array::try_from(rb).map_err(|e| format!("from batch | {}", e2s(e)))?;
    let dt = DType::from_arrow(schema);
    if &dt != a.dtype() || dt != ty.dtype() {
        return Err(format!("dtype | schema is {dt}, array {}, expected {}", a.dtype(), ty.dtype()));
    }
    check_all(g, &a, &col).map_err(|e| format!("from batch | {e}"))?;
    let inferred = infer_schema(&dt).map_err(|e| format!("infer_schema | {}", e2s(e)))?;
    let back = DType::from_arrow(Arc::new(inferred.clone()));
    if back != dt {
        return Err(format!("dtype | {dt} comes back from its schema as {back}"));
    }
    let rb = if g.bool() {
        RecordBatch::try_from(a)
    } else {
        let s = StructArray::try_from(a).map_err(e2s)?;
        RecordBatch::try_from(s)
    }
    .map_err(|e| format!("to batch | {}", e2s(e)))?;
    if rb.num_rows() != n {
        return Err(format!("batch rows | {} instead of {n}", rb.num_rows()));
    }
    if rb.schema().fields() != inferred.fields() {
        return Err(format!("batch schema | {:?} instead of {:?}", rb.schema().fields(), inferred.fields()));
    }
    for i in 0..k {
        check_arrow(rb.column(i).as_ref(), &col.field(i), true).map_err(|e| format!("batch column | {e}"))?;
    }
    Ok(())
}

/// a struct with null rows cannot be a record batch, and must not pass as one
fn p_null_rows(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 60, ..Default::default() };
    let k = g.range(1, 3);
    let fs: Vec<(String, Ty)> = (0..k).map(|i| (format!("f{i}"), gen_arrow_ty(g, &cfg))).collect();
    let ty = Ty::Struct(fs, true);
    let n = gen_len(g, cfg.max_len);
    let col = Col { ty: ty.clone(), vals: gen_vals(g, &ty, n) };
    g.note(|| format!("{col:?}"));
    let (a, _) = build(g, &col, 2)?;
    let nulls = col.nulls();
    g.nontrivial = nulls > 0;
    match RecordBatch::try_from(a) {
        Ok(_) if nulls > 0 => Err(format!("null rows | {nulls} rows of nulls became rows of values")),
        Ok(rb) => check_arrow(&aa::StructArray::from(rb), &Col { ty: ty.with_null(false), vals: col.vals.clone() }, false),
        Err(_) if nulls > 0 => Ok(()),
        Err(e) => Err(format!("to batch | {}", e2s(e))),
    }
}

/// Arrow buffers as arrays
fn p_buffers(g: &mut G) -> Res {
    let n = gen_len(g, 300);
    match g.usize(4) {
        0 => {
            let lens: Vec<usize> = (0..n).map(|_| g.usize(4)).collect();
            let ob = OffsetBuffer::<i32>::from_lengths(lens.iter().cloned());
            let vals: Vec<V> = ob.iter().map(|x| V::I(*x as i128)).collect();
            let col = Col { ty: Ty::Prim(PType::I32, false), vals };
            g.note(|| format!("offsets {col:?}"));
            g.nontrivial = n >= 2;
            let a = Array::from(ob);
            check_all(g, &a, &col).map_err(|e| format!("offsets | {e}"))?;
            check_stats(g, &a, &col, false, "offsets").and_then(|_| check_stats(g, &a, &col, true, "offsets"))
        }
        1 => {
            let b = gen_bools(g, n);
            let col = Col { ty: Ty::Bool(false), vals: b.iter().map(|x| V::Bool(*x)).collect() };
            let off = g.usize(n + 1);
            let nb = NullBuffer::from(b.clone()).slice(off, n - off);
            let col = col.slice(off, n);
            g.nontrivial = n - off >= 2;
            g.note(|| format!("nulls {col:?}"));
            let a = Array::from(nb);
            check_all(g, &a, &col).map_err(|e| format!("nulls | {e}"))?;
            check_stats(g, &a, &col, false, "nulls").and_then(|_| check_stats(g, &a, &col, true, "nulls"))
        }
        2 => {
            let v = gen_ints(g, PType::I64, n);
            let off = g.usize(n + 1);
            let sb = ScalarBuffer::from(v.iter().map(|x| *x as i64).collect::<Vec<_>>()).slice(off, n - off);
            let col = Col { ty: Ty::Prim(PType::I64, false), vals: v[off..].iter().map(|x| V::I(*x)).collect() };
            g.nontrivial = n - off >= 2;
            g.note(|| format!("scalars {col:?}"));
            let a = Array::from(sb);
            check_all(g, &a, &col).map_err(|e| format!("scalars | {e}"))?;
            check_stats(g, &a, &col, false, "scalars").and_then(|_| check_stats(g, &a, &col, true, "scalars"))
        }
        _ => {
            let v = gen_ints(g, PType::U8, n);
            let off = g.usize(n + 1);
            let b = arrow_buffer::Buffer::from_vec(v.iter().map(|x| *x as u8).collect::<Vec<_>>()).slice(off);
            let col = Col { ty: Ty::Prim(PType::U8, false), vals: v[off..].iter().map(|x| V::I(*x)).collect() };
            g.nontrivial = n - off >= 2;
            g.note(|| format!("bytes {col:?}"));
            let a = Array::from(b);
            check_all(g, &a, &col).map_err(|e| format!("bytes | {e}"))?;
            check_stats(g, &a, &col, false, "bytes").and_then(|_| check_stats(g, &a, &col, true, "bytes"))
        }
    }
}

/// scalars as Arrow values
fn p_datum(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 20, structs: false, ..Default::default() };
    let (a, col, _) = gen_array(g, &cfg)?;
    if matches!(col.ty, Ty::Struct(..)) || !has_arrow(&col.ty) || col.len() == 0 {
        g.label("discard");
        return Ok(());
    }
    let i = g.usize(col.len());
    let s = if g.bool() {
        vortex::compute::unary::scalar_at(&a, i).map_err(|e| format!("scalar_at | {}", e2s(e)))?
    } else {
        v_to_scalar(&col.vals[i], &col.ty)
    };
    g.nontrivial = !col.vals[i].is_null();
    g.note(|| format!("scalar {:?} of {}", col.vals[i], s.dtype()));
    let d = <Arc<dyn aa::Datum>>::try_from(&s).map_err(|e| format!("datum | {}", e2s(e)))?;
    let (arr, is_scalar) = d.get();
    if !is_scalar && !matches!(col.ty, Ty::Null) && !col.vals[i].is_null() {
        return Err("datum | not a scalar".into());
    }
    check_arrow(arr, &col.slice(i, i + 1), true).map_err(|e| format!("datum {e}"))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        rule: "at least two rows (a value that is not null for scalars, a null row for null_rows)",
        assumptions: &["Arrow types that vortex documents as unsupported (lists, durations, intervals, decimals, dictionaries) are not generated"],
        subs: vec![
            Sub { name: "to_arrow", f: p_to_arrow, quick: 160000, thorough: 300000 },
            Sub { name: "from_arrow", f: p_from_arrow, quick: 160000, thorough: 300000 },
            Sub { name: "record_batch", f: p_batch, quick: 80000, thorough: 150000 },
            Sub { name: "null_rows", f: p_null_rows, quick: 8000, thorough: 50000 },
            Sub { name: "buffers", f: p_buffers, quick: 12000, thorough: 60000 },
            Sub { name: "datum", f: p_datum, quick: 80000, thorough: 300000 },
        ],
        known: vec![],
    }]
}
