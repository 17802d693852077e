//! Reading Vortex arrays back into the reference model through different paths.
use crate::model::*;
use crate::pbt::G;
use arrow_array as aa;
use arrow_array::cast::AsArray;
use arrow_array::Array as _;
use vortex::array::*;
use vortex::compute::unary::scalar_at;
use vortex::validity::{ArrayValidity, LogicalValidity};
use vortex::variants::StructArrayTrait;
use vortex::{Array, ArrayDType, Canonical, IntoArrayVariant, IntoCanonical};
use vortex_dtype::PType;
use vortex_scalar::{PValue, Scalar, ScalarValue};

/// the name of an array's encoding, without its code
pub fn enc_id(a: &vortex::Array) -> String {
    a.encoding().id().as_ref().to_string()
}

pub fn e2s(e: vortex_error::VortexError) -> String {
    let s = format!("{e}");
    s.split("\nBacktrace").next().unwrap_or("").replace('\n', " ").chars().take(400).collect()
}

pub fn sv_to_v(v: &ScalarValue, ty: &Ty) -> Result<V, String> {
    if let Ty::Ext(_, s) = ty {
        return sv_to_v(v, s);
    }
    Ok(match (v, ty) {
        (ScalarValue::Null, _) => V::Null,
        (ScalarValue::Bool(b), Ty::Bool(_)) => V::Bool(*b),
        (ScalarValue::Primitive(p), Ty::Prim(pt, _)) => match (p, pt) {
            (PValue::F16(x), PType::F16) => V::F16(x.to_bits()),
            (PValue::F32(x), PType::F32) => V::F32(x.to_bits()),
            (PValue::F64(x), PType::F64) => V::F64(x.to_bits()),
            // documented: deserialized values may come back at another width, cast on read
            (p, PType::F16) => V::F16(half::f16::try_from(*p).map_err(e2s)?.to_bits()),
            (p, PType::F32) => V::F32(f32::try_from(*p).map_err(e2s)?.to_bits()),
            (p, PType::F64) => V::F64(f64::try_from(*p).map_err(e2s)?.to_bits()),
            (PValue::U8(x), t) if t.is_int() => V::I(*x as i128),
            (PValue::U16(x), t) if t.is_int() => V::I(*x as i128),
            (PValue::U32(x), t) if t.is_int() => V::I(*x as i128),
            (PValue::U64(x), t) if t.is_int() => V::I(*x as i128),
            (PValue::I8(x), t) if t.is_int() => V::I(*x as i128),
            (PValue::I16(x), t) if t.is_int() => V::I(*x as i128),
            (PValue::I32(x), t) if t.is_int() => V::I(*x as i128),
            (PValue::I64(x), t) if t.is_int() => V::I(*x as i128),
            _ => return Err(format!("scalar value {p:?} does not fit type {pt}")),
        },
        (ScalarValue::BufferString(s), Ty::Utf8(_)) => V::S(s.as_str().as_bytes().to_vec()),
        (ScalarValue::Buffer(s), Ty::Bin(_)) => V::S(s.as_slice().to_vec()),
        (ScalarValue::Buffer(s), Ty::Utf8(_)) => V::S(s.as_slice().to_vec()),
        (ScalarValue::List(vs), Ty::Struct(fs, _)) => {
            if vs.len() != fs.len() {
                return Err(format!("struct scalar with {} of {} fields", vs.len(), fs.len()));
            }
            V::Struct(vs.iter().zip(fs).map(|(v, (_, t))| sv_to_v(v, t)).collect::<Result<_, _>>()?)
        }
        _ => return Err(format!("scalar value {v:?} does not fit type {}", ty.dtype())),
    })
}

pub fn scalar_to_v(s: &Scalar, ty: &Ty) -> Result<V, String> {
    if !s.dtype().eq_ignore_nullability(&ty.dtype()) {
        return Err(format!("scalar dtype {} for array dtype {}", s.dtype(), ty.dtype()));
    }
    sv_to_v(s.value(), ty)
}

pub fn v_to_sv(v: &V, ty: &Ty) -> ScalarValue {
    use vortex_buffer::{Buffer, BufferString};
    match (v, ty) {
        (_, Ty::Ext(_, s)) => v_to_sv(v, s),
        (V::Null, _) => ScalarValue::Null,
        (V::Bool(b), _) => ScalarValue::Bool(*b),
        (V::I(i), Ty::Prim(p, _)) => ScalarValue::Primitive(match p {
            PType::U8 => PValue::U8(*i as u8),
            PType::U16 => PValue::U16(*i as u16),
            PType::U32 => PValue::U32(*i as u32),
            PType::U64 => PValue::U64(*i as u64),
            PType::I8 => PValue::I8(*i as i8),
            PType::I16 => PValue::I16(*i as i16),
            PType::I32 => PValue::I32(*i as i32),
            PType::I64 => PValue::I64(*i as i64),
            _ => panic!("harness"),
        }),
        (V::F16(b), _) => ScalarValue::Primitive(PValue::F16(half::f16::from_bits(*b))),
        (V::F32(b), _) => ScalarValue::Primitive(PValue::F32(f32::from_bits(*b))),
        (V::F64(b), _) => ScalarValue::Primitive(PValue::F64(f64::from_bits(*b))),
        (V::S(s), Ty::Utf8(_)) => {
            ScalarValue::BufferString(BufferString::from(std::str::from_utf8(s).expect("harness utf8").to_string()))
        }
        (V::S(s), _) => ScalarValue::Buffer(Buffer::from(s.clone())),
        (V::Struct(vs), Ty::Struct(fs, _)) => {
            ScalarValue::List(vs.iter().zip(fs).map(|(v, (_, t))| v_to_sv(v, t)).collect::<Vec<_>>().into())
        }
        _ => panic!("harness: v_to_sv {v:?} {ty:?}"),
    }
}

pub fn v_to_scalar(v: &V, ty: &Ty) -> Scalar {
    Scalar::new(ty.dtype(), v_to_sv(v, ty))
}

/// the validity of an array as a vector of bools
pub fn validity_of(a: &Array) -> Result<Vec<bool>, String> {
    let lv = a.with_dyn(|a| a.logical_validity());
    lv_to_vec(lv, a.len())
}

pub fn lv_to_vec(lv: LogicalValidity, len: usize) -> Result<Vec<bool>, String> {
    match lv {
        LogicalValidity::AllValid(n) => {
            if n != len {
                return Err(format!("validity | AllValid({n}) for array of length {len}"));
            }
            Ok(vec![true; len])
        }
        LogicalValidity::AllInvalid(n) => {
            if n != len {
                return Err(format!("validity | AllInvalid({n}) for array of length {len}"));
            }
            Ok(vec![false; len])
        }
        LogicalValidity::Array(v) => {
            if v.len() != len {
                return Err(format!("validity | Array of length {} for array of length {len}", v.len()));
            }
            let b = v.into_bool().map_err(|e| format!("validity | into_bool: {}", e2s(e)))?;
            Ok(b.boolean_buffer().iter().collect())
        }
    }
}

macro_rules! prim_vals {
    ($a:expr, $t:ty, $f:expr) => {
        $a.maybe_null_slice::<$t>().iter().map($f).collect::<Vec<V>>()
    };
}

pub fn canonical_vals(a: &Array, ty: &Ty) -> Result<Vec<V>, String> {
    let c = a
        .clone()
        .into_canonical()
        .map_err(|e| format!("canonicalize error | {} : {}", a.encoding().id(), e2s(e)))?;
    read_canonical(c, ty)
}

pub fn read_canonical(c: Canonical, ty: &Ty) -> Result<Vec<V>, String> {
    let arr: Array = c.clone().into();
    if arr.dtype() != &ty.dtype() {
        return Err(format!("canonical dtype | {} expected {}", arr.dtype(), ty.dtype()));
    }
    let n = arr.len();
    let valid = validity_of(&arr)?;
    let mut vals: Vec<V> = match (c, ty) {
        (Canonical::Null(a), Ty::Null) => vec![V::Null; a.len()],
        (Canonical::Bool(b), Ty::Bool(_)) => b.boolean_buffer().iter().map(V::Bool).collect(),
        (Canonical::Primitive(p), Ty::Prim(pt, _)) => match pt {
            PType::U8 => prim_vals!(p, u8, |x| V::I(*x as i128)),
            PType::U16 => prim_vals!(p, u16, |x| V::I(*x as i128)),
            PType::U32 => prim_vals!(p, u32, |x| V::I(*x as i128)),
            PType::U64 => prim_vals!(p, u64, |x| V::I(*x as i128)),
            PType::I8 => prim_vals!(p, i8, |x| V::I(*x as i128)),
            PType::I16 => prim_vals!(p, i16, |x| V::I(*x as i128)),
            PType::I32 => prim_vals!(p, i32, |x| V::I(*x as i128)),
            PType::I64 => prim_vals!(p, i64, |x| V::I(*x as i128)),
            PType::F16 => prim_vals!(p, half::f16, |x| V::F16(x.to_bits())),
            PType::F32 => prim_vals!(p, f32, |x| V::F32(x.to_bits())),
            PType::F64 => prim_vals!(p, f64, |x| V::F64(x.to_bits())),
        },
        (Canonical::VarBinView(a), Ty::Utf8(_) | Ty::Bin(_)) => {
            let mut out = Vec::with_capacity(n);
            for i in 0..n {
                if valid[i] {
                    out.push(V::S(a.bytes_at(i).map_err(|e| format!("bytes_at | {}", e2s(e)))?));
                } else {
                    out.push(V::Null);
                }
            }
            out
        }
        (Canonical::Struct(a), Ty::Struct(fs, _)) => {
            let mut cols = vec![];
            for (i, (_, t)) in fs.iter().enumerate() {
                let f = a.field(i).ok_or_else(|| format!("struct field | {i} missing"))?;
                if f.len() != n {
                    return Err(format!("struct field | length {} of {n}", f.len()));
                }
                cols.push(canonical_vals(&f, t)?);
            }
            (0..n).map(|r| V::Struct(cols.iter().map(|c| c[r].clone()).collect())).collect()
        }
        (Canonical::Extension(a), Ty::Ext(_, s)) => return canonical_vals(&a.storage(), s),
        (c, t) => {
            let a: Array = c.into();
            return Err(format!("canonical variant | {} for {}", a.encoding().id(), t.dtype()));
        }
    };
    if vals.len() != n {
        return Err(format!("canonical length | {} values in array of length {n}", vals.len()));
    }
    for (v, ok) in vals.iter_mut().zip(&valid) {
        if !ok {
            *v = V::Null;
        }
    }
    Ok(vals)
}

/// Which index positions to probe one by one.
pub fn probe_indices(g: &mut G, n: usize, k: usize) -> Vec<usize> {
    if n <= k {
        (0..n).collect()
    } else {
        let mut v = vec![0, n - 1];
        let mut r = g.bulk();
        for _ in 0..k {
            v.push(r.below(n as u64) as usize);
        }
        if n > 1024 {
            v.extend([1023, 1024]);
        }
        v
    }
}

pub fn check_shape(a: &Array, col: &Col) -> Result<(), String> {
    if a.len() != col.len() {
        return Err(format!("length | {} got {} expected {}", a.encoding().id(), a.len(), col.len()));
    }
    if a.dtype() != &col.ty.dtype() {
        return Err(format!("dtype | {} got {} expected {}", a.encoding().id(), a.dtype(), col.ty.dtype()));
    }
    Ok(())
}

pub fn check_canonical(a: &Array, col: &Col) -> Result<(), String> {
    let got = canonical_vals(a, &col.ty)?;
    if let Some(d) = diff(&col.vals, &got) {
        return Err(format!("decode mismatch | {} ({}) {d}", a.encoding().id(), col.ty.dtype()));
    }
    Ok(())
}

pub fn check_scalars(a: &Array, col: &Col, idx: &[usize]) -> Result<(), String> {
    for &i in idx {
        let s = scalar_at(a, i).map_err(|e| format!("scalar_at error | {} : {}", a.encoding().id(), e2s(e)))?;
        if s.dtype() != a.dtype() {
            return Err(format!("scalar_at dtype | {}: a scalar of {} from an array of {}", a.encoding().id(), s.dtype(), a.dtype()));
        }
        let v = scalar_to_v(&s, &col.ty).map_err(|e| format!("scalar_at type | {} {e}", a.encoding().id()))?;
        if v != col.vals[i] {
            return Err(format!(
                "scalar_at mismatch | {} ({}) at {i} of {}: expected {:?} got {v:?}",
                a.encoding().id(),
                col.ty.dtype(),
                col.len(),
                col.vals[i]
            ));
        }
    }
    Ok(())
}

pub fn check_validity(a: &Array, col: &Col, idx: &[usize]) -> Result<(), String> {
    let v = validity_of(a).map_err(|e| format!("{e} [{}]", a.encoding().id()))?;
    for i in 0..col.len() {
        if v[i] == col.vals[i].is_null() {
            return Err(format!(
                "logical_validity mismatch | {} ({}) at {i} of {}: expected value {:?}",
                a.encoding().id(),
                col.ty.dtype(),
                col.len(),
                col.vals[i]
            ));
        }
    }
    for &i in idx {
        if a.with_dyn(|x| x.is_valid(i)) == col.vals[i].is_null() {
            return Err(format!(
                "is_valid mismatch | {} ({}) at {i} of {}: expected value {:?}",
                a.encoding().id(),
                col.ty.dtype(),
                col.len(),
                col.vals[i]
            ));
        }
    }
    Ok(())
}

/// full agreement of an array with the model
pub fn check_all(g: &mut G, a: &Array, col: &Col) -> Result<(), String> {
    check_shape(a, col)?;
    check_canonical(a, col)?;
    let idx = probe_indices(g, col.len(), 12);
    check_scalars(a, col, &idx)?;
    check_validity(a, col, &idx)
}

/// arrow array into the model (types as Vortex maps them)
pub fn arrow_vals(a: &dyn aa::Array, ty: &Ty) -> Result<Vec<V>, String> {
    use arrow_schema::{DataType as D, TimeUnit as U};
    let n = a.len();
    macro_rules! p {
        ($t:ty, $f:expr) => {{
            let x = a.as_primitive::<$t>();
            (0..n).map(|i| if x.is_null(i) { V::Null } else { let f = $f; f(x.value(i)) }).collect()
        }};
    }
    use aa::types::*;
    let int = |x: i64| V::I(x as i128);
    let vals: Vec<V> = match (a.data_type(), ty) {
        (D::Null, Ty::Null) => vec![V::Null; n],
        (D::Boolean, Ty::Bool(_)) => {
            let x = a.as_boolean();
            (0..n).map(|i| if x.is_null(i) { V::Null } else { V::Bool(x.value(i)) }).collect()
        }
        (D::UInt8, Ty::Prim(PType::U8, _)) => p!(UInt8Type, |x| V::I(x as i128)),
        (D::UInt16, Ty::Prim(PType::U16, _)) => p!(UInt16Type, |x| V::I(x as i128)),
        (D::UInt32, Ty::Prim(PType::U32, _)) => p!(UInt32Type, |x| V::I(x as i128)),
        (D::UInt64, Ty::Prim(PType::U64, _)) => p!(UInt64Type, |x| V::I(x as i128)),
        (D::Int8, Ty::Prim(PType::I8, _)) => p!(Int8Type, |x| V::I(x as i128)),
        (D::Int16, Ty::Prim(PType::I16, _)) => p!(Int16Type, |x| V::I(x as i128)),
        (D::Int32, Ty::Prim(PType::I32, _)) => p!(Int32Type, |x| V::I(x as i128)),
        (D::Int64, Ty::Prim(PType::I64, _)) => p!(Int64Type, |x| V::I(x as i128)),
        (D::Float16, Ty::Prim(PType::F16, _)) => p!(Float16Type, |x: half::f16| V::F16(x.to_bits())),
        (D::Float32, Ty::Prim(PType::F32, _)) => p!(Float32Type, |x: f32| V::F32(x.to_bits())),
        (D::Float64, Ty::Prim(PType::F64, _)) => p!(Float64Type, |x: f64| V::F64(x.to_bits())),
        (D::Date32, Ty::Ext(..)) => p!(Date32Type, |x: i32| V::I(x as i128)),
        (D::Date64, Ty::Ext(..)) => p!(Date64Type, int),
        (D::Time32(U::Second), Ty::Ext(..)) => p!(Time32SecondType, |x: i32| V::I(x as i128)),
        (D::Time32(U::Millisecond), Ty::Ext(..)) => p!(Time32MillisecondType, |x: i32| V::I(x as i128)),
        (D::Time64(U::Microsecond), Ty::Ext(..)) => p!(Time64MicrosecondType, int),
        (D::Time64(U::Nanosecond), Ty::Ext(..)) => p!(Time64NanosecondType, int),
        (D::Timestamp(U::Second, _), Ty::Ext(..)) => p!(TimestampSecondType, int),
        (D::Timestamp(U::Millisecond, _), Ty::Ext(..)) => p!(TimestampMillisecondType, int),
        (D::Timestamp(U::Microsecond, _), Ty::Ext(..)) => p!(TimestampMicrosecondType, int),
        (D::Timestamp(U::Nanosecond, _), Ty::Ext(..)) => p!(TimestampNanosecondType, int),
        (D::Utf8, Ty::Utf8(_)) => {
            let x = a.as_string::<i32>();
            (0..n).map(|i| if x.is_null(i) { V::Null } else { V::S(x.value(i).as_bytes().to_vec()) }).collect()
        }
        (D::LargeUtf8, Ty::Utf8(_)) => {
            let x = a.as_string::<i64>();
            (0..n).map(|i| if x.is_null(i) { V::Null } else { V::S(x.value(i).as_bytes().to_vec()) }).collect()
        }
        (D::Utf8View, Ty::Utf8(_)) => {
            let x = a.as_string_view();
            (0..n).map(|i| if x.is_null(i) { V::Null } else { V::S(x.value(i).as_bytes().to_vec()) }).collect()
        }
        (D::Binary, Ty::Bin(_)) => {
            let x = a.as_binary::<i32>();
            (0..n).map(|i| if x.is_null(i) { V::Null } else { V::S(x.value(i).to_vec()) }).collect()
        }
        (D::LargeBinary, Ty::Bin(_)) => {
            let x = a.as_binary::<i64>();
            (0..n).map(|i| if x.is_null(i) { V::Null } else { V::S(x.value(i).to_vec()) }).collect()
        }
        (D::BinaryView, Ty::Bin(_)) => {
            let x = a.as_binary_view();
            (0..n).map(|i| if x.is_null(i) { V::Null } else { V::S(x.value(i).to_vec()) }).collect()
        }
        (D::Struct(_), Ty::Struct(fs, _)) => {
            let x = a.as_struct();
            if x.num_columns() != fs.len() {
                return Err(format!("arrow struct | {} columns of {}", x.num_columns(), fs.len()));
            }
            let cols: Vec<Vec<V>> =
                fs.iter().enumerate().map(|(i, (_, t))| arrow_vals(x.column(i), t)).collect::<Result<_, _>>()?;
            (0..n)
                .map(|r| if x.is_null(r) { V::Null } else { V::Struct(cols.iter().map(|c| c[r].clone()).collect()) })
                .collect()
        }
        (d, t) => return Err(format!("arrow type | {d} for {}", t.dtype())),
    };
    Ok(vals)
}
