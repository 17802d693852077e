//! C17 invalid arguments and inconsistent parts are refused with an error
use super::ops::warm_stats;
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;
use crate::{Prop, Sub};
use arrow_buffer::BooleanBuffer;
use croaring::Bitmap;
use vortex::array::*;
use vortex::compute::unary::*;
use vortex::compute::*;
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, ArrayDef, IntoArray, IntoArrayVariant, IntoCanonical};
use vortex_alp::{ALPArray, ALPRDArray, Exponents};
use vortex_buffer::Buffer;
use vortex_bytebool::ByteBoolArray;
use vortex_datetime_parts::DateTimePartsArray;
use vortex_dict::DictArray;
use vortex_dtype::{DType, Nullability, PType};
use vortex_error::VortexResult;
use vortex_fastlanes::{BitPackedArray, DeltaArray, FoRArray};
use vortex_fsst::FSSTArray;
use vortex_roaring::{RoaringBoolArray, RoaringIntArray};
use vortex_runend::RunEndArray;
use vortex_runend_bool::RunEndBoolArray;
use vortex_scalar::{Scalar, ScalarValue};
use vortex_zigzag::ZigZagArray;


fn vx_str(s: &str) -> ScalarValue {
    Scalar::from(s).into_value()
}
const U8: PType = PType::U8;

fn pt(p: PType, n: bool) -> Ty {
    Ty::Prim(p, n)
}

/// a small array of integers in a random encoding
fn ints(g: &mut G, p: PType, vals: &[i128]) -> Array {
    ints_n(g, p, vals, false)
}
fn ints_n(g: &mut G, p: PType, vals: &[i128], nullable: bool) -> Array {
    let c = Col { ty: pt(p, nullable), vals: vals.iter().map(|v| V::I(*v)).collect() };
    let d = if g.chance(1, 4) { 1 } else { 0 };
    match build(g, &c, d) {
        Ok((a, _)) => a,
        Err(_) => prim_from(p, &c.vals, if nullable { Validity::AllValid } else { Validity::NonNullable }).into_array(),
    }
}
fn plain(p: PType, n: usize, nullable: bool) -> Array {
    let v = vec![if p.is_float() { V::F64(0) } else { V::I(1) }; n];
    prim_from(p, &v, if nullable { Validity::AllValid } else { Validity::NonNullable }).into_array()
}
fn bools(n: usize, k: usize, nullable: bool) -> Array {
    BoolArray::from_vec((0..n).map(|i| i % 3 != k % 3).collect(), if nullable { Validity::AllValid } else { Validity::NonNullable })
        .into_array()
}
fn other_len(g: &mut G, n: usize) -> usize {
    match g.usize(4) {
        0 if n > 0 => n - 1,
        1 => n * 2 + 1,
        2 if n > 0 => 0,
        _ => n + 1,
    }
}

/// a validity for n rows of the nullability asked for
fn ok_validity(g: &mut G, n: usize, nullable: bool) -> Validity {
    if !nullable {
        return Validity::NonNullable;
    }
    match g.usize(3) {
        0 => Validity::AllValid,
        1 => Validity::AllInvalid,
        _ => Validity::Array(bools(n, g.usize(3), false)),
    }
}

const BAD_VALIDITY: [&str; 3] = ["!validity of another length", "!validity of integers", "!validity of nullable bools"];
fn validity_for(g: &mut G, p: &str, n: usize, nullable: bool) -> Validity {
    match p {
        "!validity of another length" => Validity::Array(bools(other_len(g, n), 0, false)),
        "!validity of integers" => Validity::Array(plain(U8, n, false)),
        "!validity of nullable bools" => Validity::Array(bools(n, 1, true)),
        _ => ok_validity(g, n, nullable),
    }
}

/// one of the perturbations, or "" for none
fn pick_p(g: &mut G, base: &[&'static str], validity: bool) -> &'static str {
    if g.chance(1, 4) {
        return "";
    }
    let mut v = base.to_vec();
    if validity {
        v.extend(BAD_VALIDITY);
    }
    *g.pick(&v)
}

/// types which are never the one asked for
fn not_uint(g: &mut G, n: usize) -> Array {
    match g.usize(4) {
        0 => plain(PType::F32, n, false),
        1 => plain(*g.pick(&[PType::I8, PType::I16, PType::I32, PType::I64]), n, false),
        2 => bools(n, 0, false),
        _ => VarBinArray::from(vec!["a"; n]).into_array(),
    }
}
fn not_int(g: &mut G, n: usize) -> Array {
    match g.usize(3) {
        0 => plain(*g.pick(&[PType::F32, PType::F64]), n, false),
        1 => bools(n, 0, false),
        _ => VarBinArray::from(vec!["a"; n]).into_array(),
    }
}

struct Made {
    enc: &'static str,
    p: &'static str,
    /// panic text, or what the constructor said
    r: Result<VortexResult<Array>, String>,
    len: usize,
    dtype: Option<DType>,
}

fn mk(enc: &'static str, p: &'static str, len: usize, dtype: Option<DType>, f: impl FnOnce() -> VortexResult<Array>) -> Made {
    Made { enc, p, r: guard(f), len, dtype }
}

/// reads everything there is to read; a panic is an error
fn read_everything(a: &Array) -> Res {
    let n = a.len();
    let r = guard(|| -> Result<(), String> {
        let c = a.clone().into_canonical().map_err(|e| format!("decode error | {}: {}", a.encoding().id(), e2s(e)))?;
        let c = Array::from(c);
        if c.len() != n || c.dtype() != a.dtype() {
            return Err(format!("decoded {} rows of {} from {n} rows of {} [{}]", c.len(), c.dtype(), a.dtype(), a.encoding().id()));
        }
        for i in 0..n {
            let s = scalar_at(a, i).map_err(|e| format!("scalar_at error | {}: {}", a.encoding().id(), e2s(e)))?;
            let t = scalar_at(&c, i).map_err(|e| format!("scalar_at error | decoded {}: {}", a.encoding().id(), e2s(e)))?;
            if s.is_null() != t.is_null() || s.dtype() != t.dtype() {
                return Err(format!("scalar_at | {}: {s:?} but decoded {t:?}", a.encoding().id()));
            }
            if a.with_dyn(|x| x.is_valid(i)) == s.is_null() {
                return Err(format!("is_valid and scalar_at disagree | {}", a.encoding().id()));
            }
        }
        validity_of(a)?;
        for (x, y) in [(0, n / 2), (n / 2, n)] {
            let s = slice(a, x, y).map_err(|e| format!("slice error | {}: {}", a.encoding().id(), e2s(e)))?;
            if s.len() != y - x {
                return Err(format!("slice has {} rows, not {} [{}]", s.len(), y - x, a.encoding().id()));
            }
            s.into_canonical().map_err(|e| format!("decode error of a slice | {}: {}", a.encoding().id(), e2s(e)))?;
        }
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("reading panics | {}: {p}", a.encoding().id())),
    }
}

fn judge(g: &mut G, m: Made) -> Res {
    g.label(format!("part:{}", m.enc));
    if m.p.is_empty() {
        g.label("consistent parts");
    }
    let (enc, p) = (m.enc, m.p);
    g.note(|| format!("{enc}::try_new with [{p}] for {} rows", m.len));
    match m.r {
        Err(panic) => Err(format!("constructor panics | {enc} with [{p}]: {panic}")),
        Ok(Err(e)) if p.is_empty() => Err(format!("consistent parts refused | {enc}: {}", e2s(e))),
        Ok(Err(_)) => {
            g.label("refused");
            Ok(())
        }
        Ok(Ok(_)) if p.starts_with('!') => Err(format!("accepted although inconsistent | {enc} with [{p}]")),
        Ok(Ok(a)) => {
            if a.len() != m.len {
                return Err(format!("length | {enc} with [{p}]: {} rows for {}", a.len(), m.len));
            }
            if let Some(d) = m.dtype {
                if a.dtype() != &d {
                    return Err(format!("dtype | {enc} with [{p}]: {} for {d}", a.dtype()));
                }
            }
            g.label("accepted and read");
            read_everything(&a).map_err(|e| format!("{e} ({enc} with [{p}])"))
        }
    }
}

fn ends_of(g: &mut G, runs: usize) -> Vec<i128> {
    let mut e = 0;
    (0..runs)
        .map(|_| {
            e += 1 + g.usize(4) as i128;
            e
        })
        .collect()
}

fn bad_ends(g: &mut G, p: &str, up: PType, ends: &[i128]) -> Array {
    match p {
        "!ends signed" => ints(g, up.to_signed(), ends),
        "!ends nullable" => ints_n(g, up, ends, true),
        "!ends floats" => {
            let f: Vec<f64> = ends.iter().map(|e| *e as f64).collect();
            PrimitiveArray::from_vec(f, Validity::NonNullable).into_array()
        }
        "!ends not increasing" => {
            let mut e = ends.to_vec();
            let k = e.len();
            if k == 1 {
                e.push(e[0]);
            } else {
                let j = g.usize(k - 1);
                e[j] = e[j + 1];
            }
            // what is not known to be sorted is not looked at
            prim_from(up, &e.iter().map(|v| V::I(*v)).collect::<Vec<_>>(), Validity::NonNullable).into_array()
        }
        "!no ends" => plain(up, 0, false),
        _ => ints(g, up, ends),
    }
}

fn p_parts(g: &mut G) -> Res {
    let which = g.usize(20);
    let nl = g.bool();
    let nn = if nl { Nullability::Nullable } else { Nullability::NonNullable };
    let n = g.range(1, 6);
    g.nontrivial = true;
    let m = match which {
        0 => {
            let p = pick_p(g, &[], true);
            let off = g.usize(10);
            let b = BooleanBuffer::from((0..n + off + 3).map(|i| i % 3 == 0).collect::<Vec<bool>>()).slice(off, n);
            let v = validity_for(g, p, n, nl);
            let d = DType::Bool(v.nullability());
            mk("BoolArray", p, n, Some(d), move || Ok(BoolArray::try_new(b, v)?.into_array()))
        }
        1 => {
            let p = pick_p(g, &["!too many names", "!too few names", "!a field of another length", "!a length not that of the fields"], true);
            let k = g.range(1, 4);
            let bad = g.usize(k);
            let ol = other_len(g, n);
            let mut fields: Vec<Array> = (0..k)
                .map(|i| {
                    let fl = if p == "!a field of another length" && i == bad { ol } else { n };
                    match g.usize(3) {
                        0 => plain(PType::I32, fl, g.bool()),
                        1 => bools(fl, i, g.bool()),
                        _ => VarBinArray::from(vec!["x"; fl]).into_array(),
                    }
                })
                .collect();
            let mut names: Vec<std::sync::Arc<str>> = (0..k).map(|i| format!("f{i}").into()).collect();
            match p {
                "!too many names" => names.push("more".into()),
                "!too few names" => fields.push(plain(PType::I64, n, false)),
                _ => {}
            }
            let len = if p.starts_with("!a length") { ol } else { n };
            let v = validity_for(g, p, len, nl);
            mk("StructArray", p, len, None, move || Ok(StructArray::try_new(names.into(), fields, len, v)?.into_array()))
        }
        2 => {
            let p = pick_p(
                g,
                &["!offsets nullable", "!offsets not integers", "!bytes not u8", "!bytes nullable", "!type not a string", "!nullability", "!no offsets"],
                true,
            );
            let op = *g.pick(&INTS);
            let mut o = vec![0i128];
            for _ in 0..n {
                o.push(o[o.len() - 1] + g.usize(3) as i128);
            }
            let total = *o.last().unwrap() as usize;
            let offsets = match p {
                "!offsets nullable" => ints_n(g, op, &o, true),
                "!offsets not integers" => not_int(g, n + 1),
                "!no offsets" => plain(op, 0, false),
                _ => ints(g, op, &o),
            };
            let letters: Vec<i128> = (0..total).map(|_| 97 + g.usize(26) as i128).collect();
            let bytes = match p {
                "!bytes not u8" => {
 let t = *g.pick(&[PType::I8, PType::U16, PType::I64]);
 ints(g, t, &letters)
 }
                "!bytes nullable" => ints_n(g, U8, &letters, true),
                _ => prim_from(U8, &letters.iter().map(|v| V::I(*v)).collect::<Vec<_>>(), Validity::NonNullable).into_array(),
            };
            let vn = if p.starts_with("!validity") { true } else if p == "!nullability" { !nl } else { nl };
            let len = if p == "!no offsets" { 0 } else { n };
            let v = validity_for(g, p, len, vn);
            let dn = if p.starts_with("!validity") { Nullability::Nullable } else { nn };
            let d = match p {
                "!type not a string" => g.pick(&[DType::Bool(dn), DType::Primitive(U8, dn), DType::Null]).clone(),
                _ if g.bool() => DType::Utf8(dn),
                _ => DType::Binary(dn),
            };
            mk("VarBinArray", p, len, Some(d.clone()), move || Ok(VarBinArray::try_new(offsets, bytes, d, v)?.into_array()))
        }
        3 => {
            let p = pick_p(
                g,
                &["!views not u8", "!views nullable", "!buffer not u8", "!type not a string", "!nullability", "!views cut short"],
                true,
            );
            let mut raw: Vec<i128> = vec![];
            let data: Vec<i128> = (0..40).map(|_| 97 + g.usize(26) as i128).collect();
            for _ in 0..n {
                let mut b = [0u8; 16];
                if g.bool() {
                    let l = g.usize(13);
                    b[0] = l as u8;
                    for x in b[4..4 + l].iter_mut() {
                        *x = b'q';
                    }
                } else {
                    let l = 13 + g.usize(8);
                    let o = g.usize(40 - l);
                    b[0] = l as u8;
                    for k in 0..4 {
                        b[4 + k] = data[o + k] as u8;
                    }
                    b[12] = o as u8;
                }
                raw.extend(b.iter().map(|x| *x as i128));
            }
            if p == "!views cut short" {
                let k = 1 + g.usize(15);
                raw.truncate(raw.len() - k);
            }
            let rawv: Vec<V> = raw.iter().map(|v| V::I(*v)).collect();
            let views = match p {
                "!views not u8" => {
 let t = *g.pick(&[PType::U16, PType::I32, PType::U64]);
 ints(g, t, &raw)
 }
                "!views nullable" => prim_from(U8, &rawv, Validity::AllValid).into_array(),
                _ => prim_from(U8, &rawv, Validity::NonNullable).into_array(),
            };
            let mut bufs = vec![prim_from(U8, &data.iter().map(|v| V::I(*v)).collect::<Vec<_>>(), Validity::NonNullable).into_array()];
            if g.bool() {
                bufs.push(plain(U8, 3, false));
            }
            if p == "!buffer not u8" {
                let k = g.usize(bufs.len());
                bufs[k] = match g.usize(3) {
                    0 => plain(PType::I8, 40, false),
                    1 => plain(U8, 40, true),
                    _ => plain(PType::U32, 40, false),
                };
            }
            let vn = if p.starts_with("!validity") { true } else if p == "!nullability" { !nl } else { nl };
            let v = validity_for(g, p, n, vn);
            let dn = if p.starts_with("!validity") { Nullability::Nullable } else { nn };
            let d = match p {
                "!type not a string" => g.pick(&[DType::Bool(dn), DType::Primitive(U8, dn), DType::Null]).clone(),
                _ if g.bool() => DType::Utf8(dn),
                _ => DType::Binary(dn),
            };
            mk("VarBinViewArray", p, n, Some(d.clone()), move || Ok(VarBinViewArray::try_new(views, bufs, d, v)?.into_array()))
        }
        4 => {
            let p = pick_p(g, &["!a chunk of another type", "!a chunk of another nullability"], false);
            let k = g.range(1, 4);
            let bad = g.usize(k);
            let mut len = 0;
            let d = DType::Primitive(PType::I32, nn);
            let chunks: Vec<Array> = (0..k)
                .map(|i| {
                    let l = g.usize(4);
                    len += l;
                    match p {
                        "!a chunk of another type" if i == bad => {
                            if g.bool() {
                                plain(PType::I64, l, nl)
                            } else {
                                bools(l, i, nl)
                            }
                        }
                        "!a chunk of another nullability" if i == bad => plain(PType::I32, l, !nl),
                        _ => plain(PType::I32, l, nl),
                    }
                })
                .collect();
            mk("ChunkedArray", p, len, Some(d.clone()), move || Ok(ChunkedArray::try_new(chunks, d)?.into_array()))
        }
        5 => {
            let p = pick_p(
                g,
                &[
                    "!indices not u64", "!indices nullable", "!fill value of another type", "!null fill value", "!more values than indices",
                    "!fewer values than indices", "!index at the end", "!index beyond the end", "!offset beyond the last index",
                ],
                false,
            );
            let nl = nl && p != "!null fill value";
            let off = if g.bool() { 0 } else { g.range(1, 4) };
            let k = g.range(1, n);
            let mut at: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                at.swap(i, g.usize(i + 1));
            }
            at.truncate(k);
            at.sort();
            let mut idx: Vec<i128> = at.iter().map(|i| (*i + off) as i128).collect();
            match p {
                "!index at the end" => idx[k - 1] = (n + off) as i128,
                "!index beyond the end" => idx[k - 1] = (n + off + 1 + g.usize(3)) as i128,
                _ => {}
            }
            let mut use_off = off;
            if p == "!offset beyond the last index" {
                use_off = idx[k - 1] as usize + 1 + g.usize(3);
            }
            let indices = match p {
                "!indices not u64" => {
 let t = *g.pick(&[PType::U32, PType::I64, U8]);
 ints(g, t, &idx)
 }
                "!indices nullable" => ints_n(g, PType::U64, &idx, true),
                _ => ints(g, PType::U64, &idx),
            };
            let vk = match p {
                "!more values than indices" => k + 1,
                "!fewer values than indices" => k - 1,
                _ => k,
            };
            // decoding is implemented for numbers and bools
            let (values, fill): (Array, ScalarValue) = match g.usize(2) {
                0 => (plain(PType::I32, vk, nl), 7i32.into()),
                _ => (bools(vk, 0, nl), true.into()),
            };
            let fill = match p {
                "!null fill value" => ScalarValue::Null,
                "!fill value of another type" => match values.dtype() {
                    DType::Bool(_) => 3i32.into(),
                    _ => g.pick(&[ScalarValue::from(true), vx_str("x")]).clone(),
                },
                _ if nl && g.bool() => ScalarValue::Null,
                _ => fill,
            };
            let d = values.dtype().clone();
            mk("SparseArray", p, n, Some(d), move || Ok(SparseArray::try_new_with_offset(indices, values, n, use_off, fill)?.into_array()))
        }
        6 => {
            let p = pick_p(
                g,
                &[
                    "!nullability", "!ends signed", "!ends nullable", "!ends floats", "!ends not increasing", "!fewer values than ends",
                    "!more values than ends", "?no ends",
                ],
                true,
            );
            let runs = g.range(1, 4);
            let ends = ends_of(g, runs);
            let up = *g.pick(&UINTS);
            let mut len = *ends.last().unwrap() as usize;
            let e = bad_ends(g, p, up, &ends);
            let (e, k) = if p == "?no ends" {
                len = 0;
                (plain(up, 0, false), 0)
            } else {
                (e, runs)
            };
            let k = match p {
                "!fewer values than ends" => k - 1,
                "!more values than ends" => k + 1,
                _ => k,
            };
            let nl = nl || p.starts_with("!validity");
            let values = match g.usize(2) {
                0 => plain(*g.pick(&[PType::I32, PType::F64, U8]), k, nl),
                _ => plain(PType::I64, k, nl),
            };
            let v = validity_for(g, p, len, if p == "!nullability" { !nl } else { nl });
            let d = values.dtype().clone();
            mk("RunEndArray", p, len, Some(d), move || Ok(RunEndArray::try_new(e, values, v)?.into_array()))
        }
        7 => {
            let p = pick_p(g, &["!ends signed", "!ends nullable", "!ends floats", "!ends not increasing", "!no ends"], true);
            let runs = g.range(1, 4);
            let ends = ends_of(g, runs);
            let up = *g.pick(&UINTS);
            let len = *ends.last().unwrap() as usize;
            let e = bad_ends(g, p, up, &ends);
            let v = validity_for(g, p, len, nl);
            let start = g.bool();
            let d = DType::Bool(v.nullability());
            mk("RunEndBoolArray", p, len, Some(d), move || Ok(RunEndBoolArray::try_new(e, start, v)?.into_array()))
        }
        8 => {
            let p = pick_p(g, &["!encoded not unsigned"], false);
            let up = *g.pick(&UINTS);
            let v: Vec<i128> = (0..n).map(|_| g.usize(200) as i128).collect();
            let a = if p.is_empty() { ints_n(g, up, &v, nl) } else { not_uint(g, n) };
            let d = if p.is_empty() { Some(DType::Primitive(up.to_signed(), nn)) } else { None };
            mk("ZigZagArray", p, n, d, move || Ok(ZigZagArray::try_new(a)?.into_array()))
        }
        9 => {
            let p = pick_p(g, &[], true);
            let v = validity_for(g, p, n, nl);
            let b = Buffer::from((0..n).map(|i| (i % 2) as u8).collect::<Vec<u8>>());
            mk("ByteBoolArray", p, n, Some(DType::Bool(v.nullability())), move || Ok(ByteBoolArray::try_new(b, v)?.into_array()))
        }
        10 => {
            let p = pick_p(g, &["!type not unsigned", "!value beyond the type"], false);
            let pty = match p {
                "!type not unsigned" => *g.pick(&[PType::I8, PType::I32, PType::I64, PType::F32]),
                "!value beyond the type" => *g.pick(&[PType::U8, PType::U16]),
                _ => *g.pick(&UINTS),
            };
            let mut vals: Vec<u32> = (0..n).map(|_| g.usize(200) as u32).collect();
            if p == "!value beyond the type" {
                vals.push(if pty == U8 { 256 + g.usize(3) as u32 * 300 } else { 65536 + g.usize(2) as u32 });
            } else if !pty.is_float() && g.bool() {
                vals.push(pty.max_value().min(u32::MAX as u64) as u32);
            }
            let bm = Bitmap::from_iter(vals);
            let len = bm.cardinality() as usize;
            mk("RoaringIntArray", p, len, Some(DType::Primitive(pty, Nullability::NonNullable)), move || {
                Ok(RoaringIntArray::try_new(bm, pty)?.into_array())
            })
        }
        11 => {
            let p = pick_p(g, &["!more bits than rows", "!a bit beyond the rows"], false);
            let mut set: Vec<u32> = (0..n as u32).filter(|_| g.bool()).collect();
            match p {
                "!more bits than rows" => set = (0..n as u32 + 1 + g.usize(4) as u32).collect(),
                "!a bit beyond the rows" => {
                    set.retain(|x| (*x as usize) < n - 1);
                    set.push((n + g.usize(5)) as u32);
                }
                _ => {}
            }
            let bm = Bitmap::from_iter(set);
            mk("RoaringBoolArray", p, n, Some(DType::Bool(Nullability::NonNullable)), move || {
                Ok(RoaringBoolArray::try_new(bm, n)?.into_array())
            })
        }
        12 => {
            let p = pick_p(
                g,
                &[
                    "!type not unsigned", "!bit width beyond 64", "!bit width beyond the type", "!packed bytes missing", "!packed bytes too many",
                    "!patches of another length", "!patches of another type", "!patches not nullable", "!patches not sparse", "!patches without indices",
                ],
                true,
            );
            let up = *g.pick(&UINTS);
            let len = if g.chance(1, 3) { g.range(1020, 1030) } else { n };
            let mut w = g.usize(up.bit_width());
            match p {
                "!bit width beyond 64" => w = 65 + g.usize(190),
                "!bit width beyond the type" => w = up.bit_width() + 1 + g.usize(9),
                "!packed bytes missing" if w == 0 => w = 1,
                _ => {}
            }
            let mut bytes = len.div_ceil(1024) * 128 * w;
            match p {
                "!packed bytes missing" => bytes -= [1, 128, bytes][g.usize(3)],
                "!packed bytes too many" => bytes += [1, 128][g.usize(2)],
                _ => {}
            }
            // packed words are read as they lie in memory
            let b = Buffer::from(vec![0xa5a5_a5a5_a5a5_a5a5u64; bytes.div_ceil(8)]).slice(0..bytes);
            let pty = if p == "!type not unsigned" { *g.pick(&[PType::F32, PType::F64, PType::F16]) } else { up };
            let has_patches = p.starts_with("!patches") || g.bool();
            let patches = has_patches.then(|| {
                let pl = if p == "!patches of another length" { len + 1 + g.usize(3) } else { len };
                let vt = if p == "!patches of another type" {
                    *g.pick(&UINTS.iter().copied().filter(|x| *x != up).collect::<Vec<_>>())
                } else {
                    up
                };
                match p {
                    "!patches not sparse" => plain(up, len, true),
                    "!patches without indices" => {
                        SparseArray::try_new(plain(PType::U64, 0, false), plain(up, 0, true), len, ScalarValue::Null).unwrap().into_array()
                    }
                    "!patches not nullable" => SparseArray::try_new(
                        plain(PType::U64, 1, false),
                        plain(up, 1, false),
                        len.max(2),
                        Scalar::primitive(1u64, Nullability::NonNullable).cast(&DType::Primitive(up, Nullability::NonNullable)).unwrap().into_value(),
                    )
                    .unwrap()
                    .into_array(),
                    _ => {
                        let at = g.usize(len.min(pl));
                        SparseArray::try_new(ints(g, PType::U64, &[at as i128]), plain(vt, 1, true), pl, ScalarValue::Null)
                            .unwrap()
                            .into_array()
                    }
                }
            });
            // one row would make the "not nullable" patches as long as something else
            let len = if p == "!patches not nullable" { len.max(2) } else { len };
            let v = validity_for(g, p, len, nl);
            let d = DType::Primitive(pty, v.nullability());
            mk("BitPackedArray", p, len, Some(d), move || Ok(BitPackedArray::try_new(b, pty, v, patches, w as u8, len)?.into_array()))
        }
        13 => {
            let p = pick_p(
                g,
                &["!offset beyond a block", "!rows beyond the deltas", "!deltas of another type", "!bases of another length", "!type not unsigned", "!nullability"],
                true,
            );
            let up = *g.pick(&UINTS);
            let total = if g.chance(1, 3) { g.range(1020, 1030) } else { g.range(2, 40) };
            let vals: Vec<V> = (0..total).map(|_| V::I(g.usize(100) as i128)).collect();
            let prim = prim_from(up, &vals, Validity::NonNullable);
            let (bases, deltas) = vortex_fastlanes::delta_compress(&prim).map_err(|e| format!("delta_compress | {}", e2s(e)))?;
            let (mut bases, mut deltas) = (bases.into_array(), deltas.into_array());
            let k = deltas.len();
            let mut off = g.usize(k.min(1024));
            let mut len = g.range(1, k - off);
            match p {
                "!offset beyond a block" => off = 1024 + g.usize(3),
                "!rows beyond the deltas" => len = k - off + 1 + g.usize(3),
                "!deltas of another type" => {
                    deltas = match g.usize(3) {
                        0 => plain(if up == U8 { PType::U16 } else { U8 }, k, false),
                        1 => plain(up.to_signed(), k, false),
                        _ => plain(up, k, true),
                    }
                }
                "!bases of another length" => bases = plain(up, other_len(g, bases.len()), false),
                "!type not unsigned" => {
                    let t = *g.pick(&[up.to_signed(), PType::F32]);
                    bases = plain(t, bases.len(), false);
                    deltas = plain(t, k, false);
                }
                _ => {}
            }
            // the type of a delta array is that of its bases, so they tell its nullability
            let nl = p.starts_with("!validity");
            let v = validity_for(g, p, len, nl || p == "!nullability");
            mk("DeltaArray", p, len, None, move || Ok(DeltaArray::try_new(bases, deltas, v, off, len)?.into_array()))
        }
        14 => {
            let p = pick_p(g, &["!null reference", "!reference of another type", "!reference not a number", "!child not integer", "!shift beyond the type"], false);
            let ip = *g.pick(&INTS);
            let v: Vec<i128> = (0..n).map(|_| g.usize(50) as i128).collect();
            let child = match p {
                "!child not integer" => not_int(g, n),
                _ => ints_n(g, ip.to_unsigned(), &v, nl),
            };
            let int = |p: PType, n: Nullability| Scalar::primitive(3u8, n).cast(&DType::Primitive(p, n)).unwrap();
            let reference = match p {
                "!null reference" => Scalar::null(DType::Primitive(ip, Nullability::Nullable)),
                "!reference of another type" => {
                    let o: Vec<PType> = INTS.iter().copied().filter(|x| x.to_unsigned() != ip.to_unsigned()).collect();
                    int(*g.pick(&o), nn)
                }
                "!reference not a number" => Scalar::from("x"),
                _ => {
                    let rn = *g.pick(&[Nullability::Nullable, Nullability::NonNullable]);
                    int(ip, rn)
                }
            };
            let shift = if p == "!shift beyond the type" { ip.bit_width() + g.usize(9) } else { g.usize(4) } as u8;
            let d = DType::Primitive(ip, nn);
            mk("FoRArray", p, n, if p.is_empty() { Some(d) } else { None }, move || Ok(FoRArray::try_new(child, reference, shift)?.into_array()))
        }
        15 => {
            let p = pick_p(
                g,
                &[
                    "!days not integers", "!seconds not integers", "!seconds nullable", "!subseconds not integers", "!subseconds nullable",
                    "!seconds of another length", "!subseconds of another length", "!nullability", "!type not a timestamp",
                ],
                false,
            );
            let ip = |g: &mut G| *g.pick(&[PType::I16, PType::I32, PType::I64, PType::U16]);
            let small = |g: &mut G, k: usize| -> Vec<i128> { (0..k).map(|_| g.usize(50) as i128).collect() };
            let mut part = |g: &mut G, what: &str, nl: bool| -> Array {
                let k = if p == format!("!{what} of another length") { other_len(g, n) } else { n };
                if p == format!("!{what} not integers") {
                    return not_int(g, k);
                }
                let v = small(g, k);
                let t = ip(g);
                ints_n(g, t, &v, nl || p == format!("!{what} nullable"))
            };
            let days = part(g, "days", if p == "!nullability" { !nl } else { nl });
            let seconds = part(g, "seconds", false);
            let sub = part(g, "subseconds", false);
            let d = match p {
                "!type not a timestamp" => g.pick(&[DType::Bool(nn), DType::Primitive(PType::I64, nn), DType::Utf8(nn)]).clone(),
                _ => loop {
                    let t = temporal_ty(g, nl);
                    if timestamp_unit(&t).is_some() {
                        break t.dtype();
                    }
                },
            };
            mk("DateTimePartsArray", p, n, Some(d.clone()), move || Ok(DateTimePartsArray::try_new(d, days, seconds, sub)?.into_array()))
        }
        16 => {
            let p = pick_p(
                g,
                &[
                    "!type not a float", "!right parts of another length", "!left parts not unsigned", "!nullability", "!right parts not unsigned",
                    "!right parts nullable", "!right parts of another width", "!exceptions not sparse", "!exceptions of another length",
                    "!exceptions of another type", "!dictionary too long", "!right bit width beyond the type", "!type f16",
                ],
                false,
            );
            let f32_ = g.bool();
            let (ft, rt) = if f32_ { (PType::F32, PType::U32) } else { (PType::F64, PType::U64) };
            let dict: Vec<u16> = (0..if p == "!dictionary too long" { 9 + g.usize(4) } else { g.range(1, 8) }).map(|i| i as u16 * 3).collect();
            let codes: Vec<i128> = (0..n).map(|_| g.usize(dict.len()) as i128).collect();
            let left = match p {
                "!left parts not unsigned" => not_uint(g, n),
                "!nullability" => ints_n(g, PType::U16, &codes, !nl),
                _ => ints_n(g, PType::U16, &codes, nl),
            };
            let rl = if p == "!right parts of another length" { other_len(g, n) } else { n };
            let rv: Vec<i128> = (0..rl).map(|_| g.usize(1000) as i128).collect();
            let right = match p {
                "!right parts not unsigned" => not_uint(g, n),
                "!right parts nullable" => ints_n(g, rt, &rv, true),
                "!right parts of another width" => {
 let t = *g.pick(&[PType::U16, if f32_ { PType::U64 } else { PType::U32 }]);
 ints(g, t, &rv)
 }
                _ => ints(g, rt, &rv),
            };
            let exc = (p.starts_with("!exceptions") || g.bool()).then(|| {
                let et = if p == "!exceptions of another type" { *g.pick(&[PType::U32, PType::U64, PType::I16]) } else { PType::U16 };
                let el = if p == "!exceptions of another length" { n + 1 + g.usize(3) } else { n };
                if p == "!exceptions not sparse" {
                    plain(PType::U16, n, true)
                } else {
                    let at = g.usize(n);
                    SparseArray::try_new(ints(g, PType::U64, &[at as i128]), plain(et, 1, true), el, ScalarValue::Null).unwrap().into_array()
                }
            });
            let w = if p == "!right bit width beyond the type" { ft.bit_width() + g.usize(9) } else { ft.bit_width() - 1 - g.usize(16) } as u8;
            let d = match p {
                "!type not a float" => g.pick(&[DType::Bool(nn), DType::Primitive(PType::I64, nn), DType::Utf8(nn)]).clone(),
                "!type f16" => DType::Primitive(PType::F16, nn),
                _ => DType::Primitive(ft, nn),
            };
            mk("ALPRDArray", p, n, Some(d.clone()), move || Ok(ALPRDArray::try_new(d, left, dict, right, w, exc)?.into_array()))
        }
        17 => {
            let p = pick_p(
                g,
                &["!encoded not i32 or i64", "!patches of another length", "!patches of another type", "!patches not nullable", "!exponents beyond the table"],
                false,
            );
            let f32_ = g.bool();
            let (ft, it) = if f32_ { (PType::F32, PType::I32) } else { (PType::F64, PType::I64) };
            let v: Vec<i128> = (0..n).map(|_| g.usize(1000) as i128 - 500).collect();
            let enc = match p {
                "!encoded not i32 or i64" => match g.usize(2) {
                    0 => not_int(g, n),
                    _ => plain(*g.pick(&[PType::I16, PType::U32, PType::U64, PType::I8]), n, nl),
                },
                _ => ints_n(g, it, &v, nl),
            };
            let patches = (p.starts_with("!patches") || g.bool()).then(|| {
                let pl = if p == "!patches of another length" { n + 1 + g.usize(3) } else { n };
                let pty = if p == "!patches of another type" { if f32_ { PType::F64 } else { PType::F32 } } else { ft };
                let at = g.usize(n);
                if p == "!patches not nullable" {
                    let fill: ScalarValue = if f32_ { 0f32.into() } else { 0f64.into() };
                    SparseArray::try_new(ints(g, PType::U64, &[at as i128]), plain(pty, 1, false), pl, fill).unwrap().into_array()
                } else {
                    SparseArray::try_new(ints(g, PType::U64, &[at as i128]), plain(pty, 1, true), pl, ScalarValue::Null).unwrap().into_array()
                }
            });
            let max = if f32_ { 10 } else { 18 };
            let e = Exponents { e: g.range(1, max) as u8, f: 0 };
            let e = match p {
                "!exponents beyond the table" if g.bool() => Exponents { e: 30 + g.usize(100) as u8, f: 0 },
                "!exponents beyond the table" => Exponents { e: 30 + g.usize(100) as u8, f: 29 + g.usize(100) as u8 },
                _ => Exponents { e: e.e, f: g.usize(e.e as usize) as u8 },
            };
            mk("ALPArray", p, n, if p.is_empty() { Some(DType::Primitive(ft, nn)) } else { None }, move || {
                Ok(ALPArray::try_new(enc, e, patches)?.into_array())
            })
        }
        18 => {
            let p = pick_p(
                g,
                &[
                    "!symbols not u64", "!symbol lengths not u8", "!too many symbols", "!symbol lengths of another length", "!uncompressed lengths of another length",
                    "!uncompressed lengths not integers", "!uncompressed lengths nullable", "!codes not varbin", "!codes not binary", "!type not a string", "!nullability",
                ],
                false,
            );
            // no symbols are used: every byte is escaped
            let k = if p == "!too many symbols" { 256 + g.usize(3) } else { g.range(0, 3) };
            let symbols = if p == "!symbols not u64" { plain(*g.pick(&[PType::U32, PType::I64]), k, false) } else { plain(PType::U64, k, false) };
            let sl = if p == "!symbol lengths of another length" { k + 1 } else { k };
            let lens = if p == "!symbol lengths not u8" { plain(*g.pick(&[PType::I8, PType::U16]), sl, false) } else { plain(U8, sl, false) };
            let strs: Vec<String> = (0..n).map(|_| "abc"[..g.usize(4)].to_string()).collect();
            let esc: Vec<Option<Vec<u8>>> = strs.iter().map(|s| Some(s.bytes().flat_map(|b| [255, b]).collect())).collect();
            let cn = if p == "!nullability" { if nl { Nullability::NonNullable } else { Nullability::Nullable } } else { nn };
            let codes = match p {
                "!codes not varbin" => VarBinViewArray::from_iter(esc.iter().map(|x| x.as_deref()), DType::Binary(cn)).into_array(),
                "!codes not binary" => VarBinArray::from_iter(strs.iter().map(|x| Some(x.as_bytes())), DType::Utf8(cn)).into_array(),
                _ => VarBinArray::from_iter(esc.iter().map(|x| x.as_deref()), DType::Binary(cn)).into_array(),
            };
            let ul: Vec<i128> = strs.iter().map(|s| s.len() as i128).collect();
            let ip = *g.pick(&INTS);
            let ulen = match p {
                "!uncompressed lengths of another length" => plain(ip, other_len(g, n), false),
                "!uncompressed lengths not integers" => not_int(g, n),
                "!uncompressed lengths nullable" => ints_n(g, ip, &ul, true),
                _ => ints(g, ip, &ul),
            };
            let d = match p {
                "!type not a string" => g.pick(&[DType::Bool(nn), DType::Primitive(PType::I64, nn), DType::Null]).clone(),
                _ if g.bool() => DType::Utf8(nn),
                _ => DType::Binary(nn),
            };
            mk("FSSTArray", p, n, Some(d.clone()), move || Ok(FSSTArray::try_new(d, symbols, lens, codes, ulen)?.into_array()))
        }
        _ => {
            let p = pick_p(g, &["!codes not unsigned", "!codes nullable"], false);
            let k = g.range(1, 4);
            let values = match g.usize(2) {
                0 => plain(*g.pick(&[PType::I32, PType::F64, U8]), k, nl),
                _ => VarBinArray::from_iter(vec![Some("v"); k], DType::Utf8(nn)).into_array(),
            };
            let c: Vec<i128> = (0..n).map(|_| g.usize(k) as i128).collect();
            let up = *g.pick(&UINTS);
            let codes = match p {
                "!codes not unsigned" => not_uint(g, n),
                "!codes nullable" => ints_n(g, up, &c, true),
                _ => ints(g, up, &c),
            };
            let d = values.dtype().clone();
            mk("DictArray", p, n, Some(d), move || Ok(DictArray::try_new(codes, values)?.into_array()))
        }
    };
    judge(g, m)
}

fn must_err<T>(g: &mut G, what: &str, a: &Array, f: impl FnOnce() -> VortexResult<T>) -> Res {
    g.label(format!("op:{}", what.split(':').next().unwrap()));
    g.note(|| format!("{what} on {} rows of {} [{}]", a.len(), a.dtype(), a.encoding().id()));
    match guard(f) {
        Ok(Err(_)) => Ok(()),
        // of no rows at all (of no chunks, say) there is nothing a cast or subtraction could get wrong
        Ok(Ok(_)) if a.is_empty() && (what.starts_with("cast") || what.starts_with("subtract")) => Ok(()),
        Ok(Ok(_)) => Err(format!("accepted | {what} [{}] ({})", a.encoding().id(), a.dtype())),
        Err(p) => Err(format!("panics | {what} [{}] ({}): {p}", a.encoding().id(), a.dtype())),
    }
}

fn p_ops(g: &mut G) -> Res {
    let n = small_len(g, 100);
    let ty = gen_ty(g, &Cfg { max_len: 100, ..Cfg::default() });
    let vals = gen_vals(g, &ty, n);
    let col = Col { ty, vals };
    let (a, d) = build(g, &col, 2)?;
    g.note(|| format!("array {d}"));
    g.nontrivial = true;
    warm_stats(g, &a);
    let r = {
        match g.usize(13) {
            0 => {
                let over = n + 1 + g.usize(5);
                let (s, e) = match g.usize(3) {
                    0 if n > 0 => {
                        let s = g.range(1, n);
                        (s, g.usize(s))
                    }
                    1 => (over, over + g.usize(2)),
                    _ => (g.range(0, n), over),
                };
                must_err(g, "slice: bad bounds", &a, || slice(&a, s, e))
            }
            1 => {
                let i = n + if g.bool() { 0 } else { g.usize(2000) };
                must_err(g, "scalar_at: beyond the end", &a, || scalar_at(&a, i))
            }
            2 => {
                let k = g.usize(4);
                if g.chance(2, 5) {
                    // a position the array does not have, or none has
                    let ip = *g.pick(&[PType::U64, PType::I64, PType::U32, PType::I32, PType::U16, PType::U8, PType::I8]);
                    let mut v: Vec<i128> = (0..if n == 0 { 0 } else { k }).map(|_| g.usize(n.min(100)) as i128).collect();
                    let neg = ip.is_signed_int() && g.chance(1, 3);
                    let j = g.usize(v.len() + 1);
                    let bad = if neg { -1 - g.usize(n + 2) as i128 } else { n as i128 + g.usize(4) as i128 };
                    v.insert(j, bad.min(int_range(ip).1));
                    if v[j] >= 0 && v[j] < n as i128 {
                        return Ok(());
                    }
                    let ix = if g.chance(1, 4) { build(g, &Col { ty: pt(ip, false), vals: v.iter().map(|x| V::I(*x)).collect() }, 1)?.0 } else { ints(g, ip, &v) };
                    g.note(|| format!("positions {v:?}"));
                    let r = must_err(g, if neg { "take: a negative position" } else { "take: a position beyond the end" }, &a, || take(&a, &ix)?.into_canonical());
                    r?;
                    return check_all(g, &a, &col);
                }
                let ix = match g.usize(3) {
                    0 => plain(*g.pick(&INTS), k, true),
                    1 => plain(*g.pick(&[PType::F32, PType::F64]), k, false),
                    _ => bools(k, 0, false),
                };
                must_err(g, "take: indices of a wrong type", &a, || take(&a, &ix))
            }
            3 => {
                let m = match g.usize(3) {
                    0 => bools(n, 0, true),
                    1 => plain(U8, n, false),
                    _ => bools(other_len(g, n), 1, false),
                };
                if m.len() == n && m.dtype() == &DType::Bool(Nullability::NonNullable) {
                    return Ok(());
                }
                must_err(g, "filter: a wrong predicate", &a, || filter(&a, &m))
            }
            4 => {
                let c2 = Col { ty: col.ty.clone(), vals: { let k = other_len(g, n); gen_vals(g, &col.ty, k) } };
                if c2.len() == n {
                    return Ok(());
                }
                let (b, _) = build(g, &c2, 1)?;
                let op = *g.pick(&super::ops::OPS);
                must_err(g, "compare: another length", &a, || compare(&a, &b, op))
            }
            5 => {
                let t2 = gen_ty(g, &Cfg::default());
                if t2.dtype().eq_ignore_nullability(a.dtype()) || n == 0 {
                    return Ok(());
                }
                let c2 = Col { ty: t2.clone(), vals: gen_vals(g, &t2, n) };
                let (b, _) = build(g, &c2, 1)?;
                let op = *g.pick(&super::ops::OPS);
                must_err(g, &format!("compare: with another type {}", b.dtype()), &a, || compare(&a, &b, op))
            }
            6 => {
                let is_bool = matches!(col.ty, Ty::Bool(_));
                let b = if is_bool && g.bool() {
                    let c2 = Col { ty: Ty::Bool(false), vals: { let k = other_len(g, n); gen_vals(g, &Ty::Bool(false), k) } };
                    if c2.len() == n {
                        return Ok(());
                    }
                    build(g, &c2, 1)?.0
                } else if is_bool {
                    plain(U8, n, g.bool())
                } else {
                    bools(n, 0, g.bool())
                };
                let (x, y) = if g.bool() { (&a, &b) } else { (&b, &a) };
                if g.bool() {
                    must_err(g, "and: wrong operands", &a, || and(x, y))
                } else {
                    must_err(g, "or: wrong operands", &a, || or(x, y))
                }
            }
            7 => {
                let t2 = g.pick(&[Ty::Utf8(false), Ty::Bool(false), pt(PType::I32, false), pt(PType::F64, false)]).clone();
                // numbers are looked up by value whatever their type, and strings like bytes
                let num = |t: &Ty| matches!(t, Ty::Prim(..));
                let bytes = |t: &Ty| matches!(t, Ty::Utf8(_) | Ty::Bin(_));
                if n == 0 || num(&t2) && num(&col.ty) || bytes(&t2) && bytes(&col.ty) || t2.class() == col.ty.class() || col.ty.has(&|t| matches!(t, Ty::Ext(..) | Ty::Struct(..))) || matches!(col.ty, Ty::Null) {
                    return Ok(());
                }
                let c = sort_col(&col);
                let (b, _) = build(g, &c, 1)?;
                let v = gen_nn(g, &t2, 1).pop().unwrap();
                let s = v_to_scalar(&v, &t2);
                let side = if g.bool() { SearchSortedSide::Left } else { SearchSortedSide::Right };
                must_err(g, "search_sorted: a value of another type", &b, || search_sorted(&b, s, side))
            }
            8 => {
                let s = match g.usize(3) {
                    0 => Scalar::from("x"),
                    1 => Scalar::from(true),
                    // a struct or a string has nothing to subtract from
                    _ if matches!(col.ty, Ty::Prim(..)) => return Ok(()),
                    _ => Scalar::from(3i32),
                };
                must_err(g, &format!("subtract_scalar: of {}", s.dtype()), &a, || subtract_scalar(&a, &s))
            }
            9 => {
                let Ok(c) = ChunkedArray::try_from(&a) else {
                    return Ok(());
                };
                let i = c.nchunks() + if g.bool() { 0 } else { g.usize(5) };
                must_err(g, "chunk: beyond the last", &a, || c.chunk(i))
            }
            10 => {
                // the canonical kind of the array is not the one asked for
                let k = match &col.ty {
                    Ty::Null => 0,
                    Ty::Bool(_) => 1,
                    Ty::Prim(..) => 2,
                    Ty::Struct(..) => 3,
                    Ty::Utf8(_) | Ty::Bin(_) => 4,
                    Ty::Ext(..) => 5,
                };
                let want = g.usize(6);
                if want == k {
                    return Ok(());
                }
                let x = a.clone();
                must_err(g, &format!("into_*: kind {want} from {k}"), &a, move || match want {
                    0 => x.into_null().map(|_| ()),
                    1 => x.into_bool().map(|_| ()),
                    2 => x.into_primitive().map(|_| ()),
                    3 => x.into_struct().map(|_| ()),
                    4 => x.into_varbinview().map(|_| ()),
                    _ => x.into_extension().map(|_| ()),
                })
            }
            11 => {
                // an array of another encoding is not taken for this one
                let id = a.encoding().id();
                let x = a.clone();
                let k = g.usize(6);
                let (same, name) = match k {
                    0 => (id == Sparse::ID, "sparse"),
                    1 => (id == Chunked::ID, "chunked"),
                    2 => (id == Constant::ID, "constant"),
                    3 => (id == vortex_dict::Dict::ID, "dict"),
                    4 => (id == vortex_runend::RunEnd::ID, "runend"),
                    _ => (id == vortex_fastlanes::BitPacked::ID, "bitpacked"),
                };
                if same {
                    return Ok(());
                }
                must_err(g, &format!("try_from: as {name}"), &a, move || match k {
                    0 => SparseArray::try_from(x).map(|_| ()),
                    1 => ChunkedArray::try_from(x).map(|_| ()),
                    2 => ConstantArray::try_from(x).map(|_| ()),
                    3 => DictArray::try_from(x).map(|_| ()),
                    4 => RunEndArray::try_from(x).map(|_| ()),
                    _ => BitPackedArray::try_from(x).map(|_| ()),
                })
            }
            _ => {
                // types nothing can be cast to
                let t = g.pick(&[DType::Utf8(Nullability::NonNullable), DType::Bool(Nullability::Nullable), DType::Null]).clone();
                if a.dtype().eq_ignore_nullability(&t) || matches!(a.dtype(), DType::Utf8(_) | DType::Binary(_) | DType::Null) {
                    return Ok(());
                }
                must_err(g, &format!("cast: to {t}"), &a, || try_cast(&a, &t))
            }
        }
    };
    r?;
    // the refusal left the array as it was
    check_all(g, &a, &col)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        rule: "parts: every case; arguments: every case",
        assumptions: &[],
        subs: vec![
            Sub { name: "arguments", f: p_ops, quick: 60_000, thorough: 400_000 },
            Sub { name: "parts", f: p_parts, quick: 200_000, thorough: 1_000_000 },
        ],
        known: vec![],
    }]
}
