//! C32: encoders and the compressor find the structure they are for
use super::arrays::*;
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;
use crate::{Prop, Sub};
use std::collections::{HashMap, HashSet};
use vortex::array::{BoolArray, ChunkedArray, PrimitiveArray, SparseArray, StructArray, TemporalArray};
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_dtype::PType;
use vortex_fastlanes::BitPackedArray;

/// the bytes of all buffers below an array
pub fn physical(a: &Array) -> usize {
    a.depth_first_traversal().map(|x| x.buffer().map(|b| b.len()).unwrap_or(0)).sum()
}

fn ints_of(a: &Array) -> Result<Vec<V>, String> {
    let p = PType::try_from(a.dtype()).map_err(e2s)?;
    canonical_vals(a, &Ty::Prim(p, a.dtype().is_nullable()))
}

fn bits(v: &V) -> usize {
    (128 - v.int().leading_zeros()) as usize
}

/// positions and values of patches
fn patches_of(p: &Option<Array>) -> Result<Vec<(u64, V)>, String> {
    let Some(p) = p else { return Ok(vec![]) };
    let s = SparseArray::try_from(p.clone()).map_err(e2s)?;
    let vals = ints_of(&s.values())?;
    let idx = s.resolved_indices();
    Ok(idx.into_iter().map(|i| i as u64).zip(vals).collect())
}

fn enc_runs(g: &mut G) -> Res {
    if g.chance(1, 3) {
        let n = gen_len(g, 2000).max(1);
        let b = gen_bools(g, n);
        g.note(|| format!("bools {b:?}"));
        let (ends, start) = vortex_runend_bool::compress::runend_bool_encode(&BoolArray::from(b.clone()));
        let mut exp: Vec<V> = (1..n).filter(|i| b[*i] != b[i - 1]).map(|i| V::I(i as i128)).collect();
        exp.push(V::I(n as i128));
        let got = ints_of(&ends.into_array())?;
        g.nontrivial = exp.len() > 1;
        if let Some(d) = diff(&exp, &got) {
            return Err(format!("bool runs | ends {d}"));
        }
        if start != b[0] {
            return Err(format!("bool runs | starts with {start}"));
        }
        return Ok(());
    }
    let ty = gen_prim_ty(g).with_null(false);
    let n = gen_len(g, 2000);
    let col = Col { vals: gen_nn(g, &ty, n), ty: ty.clone() };
    g.note(|| format!("column {col:?}"));
    let prim = build_prim(g, &col, 1);
    let (ends, values) = vortex_runend::compress::runend_encode(&prim);
    let starts: Vec<usize> = (0..n).filter(|i| *i == 0 || col.vals[*i] != col.vals[i - 1]).collect();
    let exp: Vec<V> = starts.iter().map(|i| col.vals[*i].clone()).collect();
    let mut ee: Vec<V> = starts.iter().skip(1).map(|i| V::I(*i as i128)).collect();
    if n > 0 {
        ee.push(V::I(n as i128));
    }
    g.nontrivial = exp.len() > 1 && exp.len() < n;
    if let Some(d) = diff(&exp, &canonical_vals(&values.into_array(), &ty)?) {
        return Err(format!("runs | values {d}"));
    }
    if let Some(d) = diff(&ee, &ints_of(&ends.into_array())?) {
        return Err(format!("runs | ends {d}"));
    }
    Ok(())
}

fn enc_dict(g: &mut G) -> Res {
    let ty = match g.usize(3) {
        0 => gen_prim_ty(g),
        1 => Ty::Utf8(g.bool()),
        _ => Ty::Bin(g.bool()),
    };
    let n = gen_len(g, 1500);
    let col = Col { vals: gen_vals(g, &ty, n), ty: ty.clone() };
    g.note(|| format!("column {col:?}"));
    let (codes, values, d): (Array, Array, _) = match &ty {
        Ty::Prim(..) => {
            let p = build_prim(g, &col, 1);
            let (c, v) = vortex_dict::dict_encode_primitive(&p);
            (c.into_array(), v.into_array(), "primitive")
        }
        _ if g.bool() => {
            let (c, v) = vortex_dict::dict_encode_varbin(&build_varbin(g, &col));
            (c.into_array(), v.into_array(), "varbin")
        }
        _ => {
            let (c, v) = vortex_dict::dict_encode_varbinview(&build_view(g, &col));
            (c.into_array(), v.into_array(), "varbinview")
        }
    };
    g.label(format!("dict:{d}"));
    let distinct: HashSet<&V> = col.vals.iter().filter(|v| !v.is_null()).collect();
    g.nontrivial = distinct.len() > 1 && distinct.len() < n;
    let vals = canonical_vals(&values, &ty)?;
    let nul = ty.nullable() as usize;
    if vals.len() > distinct.len() + nul {
        return Err(format!("dictionary {d} | {} values of {} distinct ones", vals.len(), distinct.len()));
    }
    let back: Vec<V> = ints_of(&codes)?.iter().map(|c| vals.get(c.int() as usize).cloned().unwrap_or(V::Bool(true))).collect();
    if let Some(x) = diff(&col.vals, &back) {
        return Err(format!("dictionary {d} | {x}"));
    }
    Ok(())
}

fn uints(g: &mut G) -> (PType, Ty) {
    let p = *g.pick(&[PType::U32, PType::U8, PType::U16, PType::U64, PType::I32, PType::I64, PType::I16, PType::I8]);
    (p, Ty::Prim(p, g.chance(1, 3)))
}

fn enc_bits(g: &mut G) -> Res {
    let (p, ty) = { let p = *g.pick(&[PType::U32, PType::U8, PType::U16, PType::U64]); (p, Ty::Prim(p, g.chance(1, 3))) };
    // no statistics of nothing: an empty array is not packed
    let n = gen_len(g, 2500).max(1);
    let mut vals = gen_vals(g, &ty, n);
    for v in vals.iter_mut() {
        if let V::I(i) = v {
            if *i < 0 {
                *v = V::I(-(*i + 1));
            }
        }
    }
    let col = Col { ty: ty.clone(), vals };
    g.note(|| format!("column {col:?}"));
    let prim = build_prim(g, &col, 1);
    let width = p.bit_width();
    let valid: Vec<(u64, &V)> = col.vals.iter().enumerate().filter(|(_, v)| !v.is_null()).map(|(i, v)| (i as u64, v)).collect();
    let max = valid.iter().map(|x| bits(x.1)).max().unwrap_or(0);
    if n > 0 {
        let least = vortex_fastlanes::find_min_patchless_bit_width(&prim).map_err(e2s)? as usize;
        if least != max {
            return Err(format!("bit width | least without patches {least}, the widest value has {max}"));
        }
        let best = vortex_fastlanes::find_best_bit_width(&prim).map_err(e2s)? as usize;
        // a value that does not fit costs its own bytes and four of its position
        let cost = |w: usize| (w * n).div_ceil(8) + valid.iter().filter(|x| bits(x.1) > w).count() * (p.byte_width() + 4);
        let min = (0..=width).map(cost).min().unwrap_or(0);
        if cost(best) != min {
            return Err(format!("bit width | best {best} costs {} where {min} would do", cost(best)));
        }
    }
    let w = g.usize(width);
    let a = vortex_fastlanes::bitpack_encode(prim, w as u8).map_err(|e| format!("bitpack | {}", e2s(e)))?;
    let exp: Vec<(u64, V)> = valid.iter().filter(|x| bits(x.1) > w).map(|x| (x.0, x.1.clone())).collect();
    g.nontrivial = n > 1 && max > 0;
    let got = patches_of(&a.patches())?;
    if got != exp {
        return Err(format!("bitpack | {} patches of width {w}, {} values do not fit", got.len(), exp.len()));
    }
    if a.patches().is_some() && exp.is_empty() {
        return Err("bitpack | no patches in an array of patches".into());
    }
    let len = a.packed().len();
    if len != n.div_ceil(1024) * 128 * w {
        return Err(format!("bitpack | {n} values of {w} bits in {len} bytes"));
    }
    Ok(())
}

fn enc_for(g: &mut G) -> Res {
    let (p, ty) = uints(g);
    let ty = ty.with_null(false);
    let n = gen_len(g, 1500).max(1);
    let col = Col { vals: gen_nn(g, &ty, n), ty: ty.clone() };
    g.note(|| format!("column {col:?}"));
    let prim = build_prim(g, &col, 1);
    let a = vortex_fastlanes::for_compress(&prim).map_err(|e| format!("for | {}", e2s(e)))?;
    let min = col.vals.iter().map(|v| v.int()).min().unwrap_or(0);
    let shift = col.vals.iter().map(|v| if v.int() == 0 { p.bit_width() as u32 } else { v.int().trailing_zeros() }).min().unwrap_or(0);
    if shift as usize == p.bit_width() {
        return check_canonical(&a, &col);
    }
    g.nontrivial = n > 1;
    let f = vortex_fastlanes::FoRArray::try_from(a).map_err(|e| format!("for | {}", e2s(e)))?;
    if f.shift() as u32 != shift {
        return Err(format!("for | shifts by {} where {shift} zero bits are common", f.shift()));
    }
    let up = p.to_unsigned();
    let got = canonical_vals(&f.encoded(), &Ty::Prim(up, false)).or_else(|_| canonical_vals(&f.encoded(), &Ty::Prim(p, false)))?;
    let (lo, hi) = int_range(p);
    let span = hi - lo + 1;
    for (i, v) in col.vals.iter().enumerate() {
        // differences of signed values wrap around; a shift of such a one keeps its sign
        let d = v.int() - min;
        if d >= span / 2 && p.is_signed_int() {
            continue;
        }
        if got[i].int() != d >> shift {
            return Err(format!("for | value {i} is {:?}, not {}", got[i], d >> shift));
        }
    }
    Ok(())
}

fn enc_zigzag(g: &mut G) -> Res {
    let p = *g.pick(&[PType::I32, PType::I64, PType::I16, PType::I8]);
    let ty = Ty::Prim(p, false);
    let n = gen_len(g, 800);
    let col = Col { vals: gen_nn(g, &ty, n), ty };
    g.note(|| format!("column {col:?}"));
    g.nontrivial = n > 1;
    let a = vortex_zigzag::zigzag_encode(build_prim(g, &col, 1)).map_err(|e| format!("zigzag | {}", e2s(e)))?;
    let got = ints_of(&a.encoded())?;
    let exp: Vec<V> = col.vals.iter().map(|v| V::I(if v.int() < 0 { -2 * v.int() - 1 } else { 2 * v.int() })).collect();
    match diff(&exp, &got) {
        Some(d) => Err(format!("zigzag | {d}")),
        None => Ok(()),
    }
}

fn enc_alp(g: &mut G) -> Res {
    let is32 = g.chance(1, 3);
    let n = g.range(2, 3000);
    let p = g.usize(if is32 { 3 } else { 6 });
    let lim = 1u64 << g.range(1, if is32 { 16 } else { 36 });
    let neg = g.bool();
    let mut r = g.bulk();
    let mut draw = || {
        let i = r.below(lim) as i64;
        if neg && r.below(2) == 1 && i != 0 { -i } else { i }
    };
    let mut is: Vec<i64> = (0..n).map(|_| draw()).collect();
    let div = 10f64.powi(p as i32);
    // the values at one end may happen to have no decimals
    let whole = if g.chance(1, 3) { g.range(0, n / 3) } else { 0 };
    let at = if g.bool() { 0 } else { n - whole };
    if whole > 0 && p > 0 {
        g.label("alp:whole end");
    }
    for i in &mut is[at..at + whole] {
        *i -= *i % div as i64;
    }
    g.note(|| format!("{is:?} / {div} f32 {is32}"));
    g.label(format!("alp:decimals:{p}"));
    g.nontrivial = true;
    let prim = if is32 {
        PrimitiveArray::from(is.iter().map(|i| *i as f32 / div as f32).collect::<Vec<f32>>())
    } else {
        PrimitiveArray::from(is.iter().map(|i| *i as f64 / div).collect::<Vec<f64>>())
    };
    let a = vortex_alp::alp_encode(&prim).map_err(|e| format!("alp | {}", e2s(e)))?;
    let np = a.patches().map(|p| SparseArray::try_from(p).map(|s| s.values().len())).transpose().map_err(e2s)?.unwrap_or(0);
    let enc = ints_of(&a.encoded())?;
    let lo = enc.iter().map(|v| v.int()).min().unwrap_or(0);
    let hi = enc.iter().map(|v| v.int()).max().unwrap_or(0);
    let width = 128 - (hi - lo).leading_zeros() as usize;
    let need = width_of((is.iter().max().unwrap_or(&0) - is.iter().min().unwrap_or(&0)) as u64);
    if n >= 100 && np * 2 > n {
        return Err(format!("alp | {np} patches for {n} numbers of {p} decimals"));
    }
    if n >= 100 && np == 0 && width as f64 > need + 14.0 {
        return Err(format!("alp | {width} bits for numbers of {need} bits and {p} decimals"));
    }
    cal(|| format!("alp{} p{p} patches {:.4} width {}", if is32 { 32 } else { 64 }, np as f64 / n as f64, width as i64 - need as i64));
    Ok(())
}

/// of all exponents, those that take the fewest bytes (few enough values that all of them are looked at)
fn best_exponents<T: vortex_alp::ALPFloat>(vs: &[T]) -> Res
where
    T::ALPInt: num_traits::ToPrimitive + Copy,
{
    use num_traits::ToPrimitive;
    let cost = |e: vortex_alp::Exponents| {
        let (_, enc, _, patches) = T::encode(vs, Some(e));
        let is: Vec<i128> = enc.iter().map(|x| x.to_i128().unwrap_or(0)).collect();
        let range = is.iter().max().unwrap_or(&0) - is.iter().min().unwrap_or(&0);
        // a range that the integers cannot hold takes all of their bits
        let full = 8 * std::mem::size_of::<T::ALPInt>();
        let width = if range >= 1 << (full - 1) { full } else { (128 - range.leading_zeros()) as usize };
        (enc.len() * width).div_ceil(8) + patches.len() * (std::mem::size_of::<T>() + 2)
    };
    let b = T::find_best_exponents(vs);
    let got = cost(b);
    for e in 1..T::MAX_EXPONENT {
        for f in 0..e {
            let c = cost(vortex_alp::Exponents { e, f });
            if c < got {
                return Err(format!("alp | exponents {b} take {got} bytes, {e} and {f} take {c}"));
            }
        }
    }
    Ok(())
}

fn enc_exponents(g: &mut G) -> Res {
    let n = g.range(1, 32);
    let is32 = g.bool();
    let fs = if g.bool() {
        gen_f64s(g, n, is32)
    } else {
        let (p, k) = (g.usize(7) as i32, g.range(1, 40) as u32);
        let mut r = g.bulk();
        (0..n).map(|_| below_(&mut r, 1 << k) as f64 / 10f64.powi(p)).collect()
    };
    g.note(|| format!("{fs:?} f32 {is32}"));
    g.nontrivial = n > 1;
    if is32 {
        best_exponents(&fs.iter().map(|x| *x as f32).collect::<Vec<f32>>())
    } else {
        best_exponents(&fs)
    }
}

pub fn cal(f: impl FnOnce() -> String) {
    if let Ok(p) = std::env::var("VX_CAL") {
        use std::io::Write;
        let mut o = std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap();
        let _ = o.write_all(format!("{}\n", f()).as_bytes());
    }
}

fn enc_alprd(g: &mut G) -> Res {
    let is32 = g.bool();
    let n = gen_len(g, 1500).max(1);
    let fs = gen_f64s(g, n, is32);
    g.note(|| format!("{fs:?} f32 {is32}"));
    let raw: Vec<u64> = if is32 { fs.iter().map(|f| (*f as f32).to_bits() as u64).collect() } else { fs.iter().map(|f| f.to_bits()).collect() };
    let a = if is32 {
        let p = PrimitiveArray::from(fs.iter().map(|f| *f as f32).collect::<Vec<f32>>());
        vortex_alp::RDEncoder::new(p.maybe_null_slice::<f32>()).encode(&p)
    } else {
        let p = PrimitiveArray::from(fs);
        vortex_alp::RDEncoder::new(p.maybe_null_slice::<f64>()).encode(&p)
    };
    let total = if is32 { 32 } else { 64 };
    let left = BitPackedArray::try_from(a.left_parts()).map_err(e2s)?.bit_width() as usize;
    let right = BitPackedArray::try_from(a.right_parts()).map_err(e2s)?.bit_width() as usize;
    let exc = a.left_parts_exceptions().map(|p| SparseArray::try_from(p).map(|s| s.values().len())).transpose().map_err(e2s)?.unwrap_or(0);
    // the best cut: a dictionary of the eight most frequent left parts, four bytes for what it misses
    let size = |l: usize, r: usize, e: usize| (l + r) as f64 + (e * 32) as f64 / n as f64;
    let mut best = f64::MAX;
    for p in 1..=16usize {
        let mut counts: HashMap<u64, usize> = HashMap::new();
        for v in &raw {
            *counts.entry(v >> (total - p)).or_default() += 1;
        }
        let mut c: Vec<usize> = counts.into_values().collect();
        c.sort_by(|a, b| b.cmp(a));
        let k = c.len().min(8);
        let l = if k <= 1 { 1 } else { (usize::BITS - (k - 1).leading_zeros()) as usize };
        best = best.min(size(l, total - p, c[k..].iter().sum()));
    }
    g.nontrivial = n > 1;
    let got = size(left, right, exc);
    if got > best + 1e-6 {
        return Err(format!("alp-rd | {got} bits a value where {best} would do"));
    }
    Ok(())
}

fn enc_time(g: &mut G) -> Res {
    use vortex_datetime_dtype::TimeUnit;
    let (u, div) = *g.pick(&[(TimeUnit::S, 1i64), (TimeUnit::Ms, 1000), (TimeUnit::Us, 1_000_000), (TimeUnit::Ns, 1_000_000_000)]);
    let n = gen_len(g, 800);
    let col = Col { vals: gen_nn(g, &Ty::Prim(PType::I64, false), n), ty: Ty::Prim(PType::I64, false) };
    g.note(|| format!("{u} {col:?}"));
    g.nontrivial = n > 1;
    let t = TemporalArray::new_timestamp(build_prim(g, &col, 1).into_array(), u, None);
    let p = vortex_datetime_parts::split_temporal(t).map_err(|e| format!("split | {}", e2s(e)))?;
    let (d, s, ss) = (ints_of(&p.days)?, ints_of(&p.seconds)?, ints_of(&p.subseconds)?);
    for i in 0..n {
        let v = col.vals[i].int();
        let (d, s, ss) = (d[i].int(), s[i].int(), ss[i].int());
        if s.abs() >= 86_400 || ss.abs() >= div as i128 || (d * 86_400 + s) * div as i128 + ss != v {
            return Err(format!("split | {v} into days {d}, seconds {s}, subseconds {ss} of 1/{div}"));
        }
    }
    Ok(())
}

/// each encoder on its own does what it is for, exactly
fn p_encoders(g: &mut G) -> Res {
    let (n, f): (_, fn(&mut G) -> Res) = *g.pick(&[
        ("runs", enc_runs as fn(&mut G) -> Res),
        ("dict", enc_dict),
        ("bits", enc_bits),
        ("for", enc_for),
        ("zigzag", enc_zigzag),
        ("alp", enc_alp),
        ("exponents", enc_exponents),
        ("alprd", enc_alprd),
        ("time", enc_time),
    ]);
    g.label(format!("enc:{n}"));
    f(g)
}

/// what fits a sample is compressed with all of it in sight: the result is never larger
fn p_larger(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 1024, ..Default::default() };
    let (a, col, _) = gen_array(g, &cfg)?;
    label_col(g, &col);
    // chunks are merged first, and become canonical
    if a.depth_first_traversal().any(|x| enc_id(&x).starts_with("vortex.chunked")) {
        g.excluded += 1;
        return Ok(());
    }
    let c = gen_compressor(g);
    g.note(|| format!("compressor {c:?}").chars().take(300).collect());
    let before = a.nbytes();
    let r = c.compress(&a, None).map_err(|e| format!("compress error | {}: {}", a.encoding().id(), e2s(e)))?.into_array();
    let after = r.nbytes();
    g.nontrivial = col.len() >= 2 && after < before;
    if after > before {
        let t = |a: &Array| a.depth_first_traversal().map(|x| format!("{}[{}]:{}", enc_id(&x), x.len(), x.nbytes())).collect::<Vec<_>>().join(" ");
        return Err(format!("larger | {} became {}: {before} to {after} {} -> {}", enc_id(&a), enc_id(&r), t(&a), t(&r)));
    }
    Ok(())
}

pub struct Shape {
    pub name: &'static str,
    pub a: Array,
    /// bytes a straightforward encoding by this structure takes
    pub ideal: f64,
}

fn width_of(m: u64) -> f64 {
    (64 - m.leading_zeros()) as f64
}

/// data with one plain structure
pub fn shape(g: &mut G, n: usize, only: Option<PType>) -> Result<Shape, String> {
    let kinds = ["runs", "narrow", "signed", "outliers", "shifted", "cardinality", "words", "decimals", "text", "seconds", "nullconst", "constant"];
    let kind = if only.is_some() { *g.pick(&kinds[..6]) } else { *g.pick(&kinds) };
    let nf = n as f64;
    let ip = *g.pick(&[PType::I64, PType::U64, PType::I32, PType::U32, PType::I16, PType::U16]);
    let ip = only.unwrap_or(ip);
    let w = ip.bit_width() as u32;
    let (lo, hi) = int_range(ip);
    let mk = |v: Vec<i128>| prim_from(ip, &v.into_iter().map(V::I).collect::<Vec<_>>(), Validity::NonNullable).into_array();
    let (a, ideal) = match kind {
        "constant" => {
            let ty = { let c = Cfg { structs: false, null_ty: false, ..Default::default() }; let t = gen_ty(g, &c); if t.has_ext() { Ty::Prim(PType::I64, t.nullable()) } else { t } };
            let v = gen_nn(g, &ty, 1).remove(0);
            let col = Col { ty, vals: vec![v; n] };
            (build_plain(g, &col, 1)?.0, 0.0)
        }
        "nullconst" => {
            let ty = { let c = Cfg { structs: false, null_ty: false, ..Default::default() }; let t = gen_ty(g, &c).with_null(true); if t.has_ext() { Ty::Prim(PType::I64, true) } else { t } };
            let col = Col { ty, vals: vec![V::Null; n] };
            (build_plain(g, &col, 1)?.0, 0.0)
        }
        "runs" => {
            let l = g.range(16, 400) as u64;
            let mut r = g.bulk();
            let mut v = vec![];
            let mut runs = 0.0;
            while v.len() < n {
                let x = lo + below_(&mut r, hi - lo + 1);
                let k = l / 2 + r.below(l) + 1;
                for _ in 0..k {
                    v.push(x);
                }
                runs += 1.0;
            }
            v.truncate(n);
            (mk(v), runs * (w as f64 + width_of(n as u64)) / 8.0)
        }
        "narrow" | "signed" | "outliers" => {
            let k = g.range(1, (w / 2) as usize) as u32;
            let mut r = g.bulk();
            let base = match kind {
                "signed" => -(1i128 << (k - 1)),
                "outliers" => 0,
                _ => lo + below_(&mut r, hi - lo - (1 << k)),
            };
            let base = base.max(lo);
            let mut v: Vec<i128> = (0..n).map(|_| base + below_(&mut r, 1 << k)).collect();
            let mut ideal = nf * k as f64 / 8.0;
            if kind == "outliers" {
                let every = g.range(100, 400);
                let mut i = r.below(every as u64) as usize;
                while i < n {
                    v[i] = below_(&mut r, hi);
                    i += every / 2 + r.below(every as u64) as usize + 1;
                    ideal += w as f64 / 8.0 + 4.0;
                }
            }
            (mk(v), ideal)
        }
        "shifted" => {
            let s = g.range(4, (w / 2) as usize) as u32;
            let k = g.range(2, (w / 2) as usize - 1) as u32;
            let mut r = g.bulk();
            let v: Vec<i128> = (0..n).map(|_| below_(&mut r, 1 << k) << s).collect();
            (mk(v), nf * k as f64 / 8.0)
        }
        "cardinality" => {
            let k = g.range(2, 60) as u64;
            let mut r = g.bulk();
            let ds: Vec<i128> = (0..k).map(|_| lo + below_(&mut r, hi - lo + 1)).collect();
            let v: Vec<i128> = (0..n).map(|_| ds[r.below(k) as usize]).collect();
            (mk(v), nf * width_of(k - 1) / 8.0 + (k as f64) * w as f64 / 8.0)
        }
        "words" => {
            let k = g.range(2, 60) as u64;
            let nu = g.chance(1, 3);
            let mut r = g.bulk();
            let ds: Vec<V> = (0..k).map(|_| { let l = 8 + r.below(24); V::S((0..l).map(|_| b'a' + r.below(26) as u8).collect()) }).collect();
            let total: usize = ds.iter().map(|d| if let V::S(s) = d { s.len() } else { 0 }).sum();
            let vals: Vec<V> = (0..n).map(|_| if nu && r.below(10) == 0 { V::Null } else { ds[r.below(k) as usize].clone() }).collect();
            let ty = if g.bool() { Ty::Utf8(nu) } else { Ty::Bin(nu) };
            let col = Col { ty, vals };
            (build_plain(g, &col, 1)?.0, nf * width_of(k) / 8.0 + total as f64 + 16.0 * k as f64)
        }
        "decimals" => {
            let p = g.range(0, 4);
            let k = g.range(2, 20) as u32;
            let mut r = g.bulk();
            let div = 10f64.powi(p as i32);
            let v: Vec<f64> = (0..n).map(|_| below_(&mut r, 1 << k) as f64 / div).collect();
            (PrimitiveArray::from(v).into_array(), nf * k as f64 / 8.0)
        }
        "text" => {
            let mut r = g.bulk();
            let hosts = ["http://www.example.com/", "https://github.com/spiraldb/", "https://docs.vortex.dev/rust/html/"];
            let words = ["array", "encoding", "compress", "layout", "reader", "index", "page", "scalar"];
            let vals: Vec<V> = (0..n)
                .map(|_| {
                    let mut s = hosts[r.below(3) as usize].to_string();
                    for _ in 0..2 {
                        s += words[r.below(8) as usize];
                        s.push('/');
                    }
                    s += &r.below(1000).to_string();
                    V::S(s.into_bytes())
                })
                .collect();
            let total: usize = vals.iter().map(|d| if let V::S(s) = d { s.len() } else { 0 }).sum();
            let col = Col { ty: Ty::Utf8(false), vals };
            (build_plain(g, &col, 1)?.0, total as f64 / 4.0 + 2.0 * nf)
        }
        _ => {
            use vortex_datetime_dtype::TimeUnit;
            let (u, div) = *g.pick(&[(TimeUnit::Ms, 1000i64), (TimeUnit::Us, 1_000_000), (TimeUnit::Ns, 1_000_000_000)]);
            let mut r = g.bulk();
            let start = r.below(1_700_000_000) as i64;
            let span = 86_400 * g.range(1, 365) as u64;
            let v: Vec<i64> = (0..n).map(|_| (start + r.below(span) as i64) * div).collect();
            let t = TemporalArray::new_timestamp(PrimitiveArray::from(v).into_array(), u, None);
            (Array::from(t), nf * (17.0 + width_of(span / 86_400)) / 8.0)
        }
    };
    Ok(Shape { name: kind, a, ideal })
}

fn below_(r: &mut Rng, n: i128) -> i128 {
    ((r.next() as u128 * n as u128) >> 64) as i128
}

impl Shape {
    /// what the plain structure takes, and half as much again for padding to vectors of 1024, patches, validity
    fn bound(&self) -> f64 {
        match self.name {
            "constant" | "nullconst" => 200.0,
            "decimals" => 1.4 * self.ideal + 3.0 * self.a.len() as f64 + 4000.0,
            _ => 1.6 * self.ideal + 4000.0,
        }
    }
}

/// two blocks of different shapes: the plan of the first is kept for the second unless it does much worse there
fn p_blocks(g: &mut G) -> Res {
    let p = *g.pick(&[PType::I64, PType::U64, PType::I32, PType::U32]);
    let (n, m) = (g.range(40000, 65000), g.range(40000, 65000));
    let (a, b) = (shape(g, n, Some(p))?, shape(g, m, Some(p))?);
    g.label(format!("blocks:{}:{}", a.name, b.name));
    g.note(|| format!("{p} {} of {n}, {} of {m}", a.name, b.name));
    g.nontrivial = a.name != b.name;
    let w = p.byte_width() as f64;
    let c = ChunkedArray::try_new(vec![a.a.clone(), b.a.clone()], a.a.dtype().clone()).map_err(e2s)?.into_array();
    let r = vortex_sampling_compressor::SamplingCompressor::default().compress(&c, None).map_err(|e| format!("compress error | {}", e2s(e)))?.into_array();
    let r = ChunkedArray::try_from(r).map_err(e2s)?;
    if r.nchunks() != 2 {
        return Err(format!("blocks | {} chunks of two", r.nchunks()));
    }
    let (x, y) = (r.chunk(0).map_err(e2s)?, r.chunk(1).map_err(e2s)?);
    let (sx, sy) = (physical(&x) as f64, physical(&y) as f64);
    let by = b.bound().max(1.4 * sx / (n as f64 * w) * (m as f64 * w) + 4000.0);
    let t = |a: &Array| a.depth_first_traversal().map(|x| enc_id(&x)).collect::<Vec<_>>().join(">");
    cal(|| format!("blocks {} {} {:.3} {:.3}", a.name, b.name, sx / a.bound(), sy / by));
    if sx > a.bound() {
        return Err(format!("blocks {} {} | the first takes {sx} bytes, {:.0} would do: {}", a.name, b.name, a.ideal, t(&x)));
    }
    if sy > by {
        return Err(format!("blocks {} {} | the second takes {sy} bytes, {:.0} would do, the first took {sx}: {}", a.name, b.name, b.ideal, t(&y)));
    }
    Ok(())
}

fn p_structured(g: &mut G) -> Res {
    if g.chance(1, 12) {
        return p_blocks(g);
    }
    let n = match g.weighted(&[5, 4, 1]) {
        0 => g.range(2048, 5000),
        1 => g.range(5000, 20000),
        _ => g.range(20000, 70000),
    };
    let s = shape(g, n, None)?;
    g.label(format!("shape:{}", s.name));
    g.note(|| format!("{} of {n}, {}", s.name, s.a.dtype()));
    g.nontrivial = true;
    let c = vortex_sampling_compressor::SamplingCompressor::default();
    let (wrap, a) = match g.weighted(&[4, 1, 1]) {
        0 => ("plain", s.a.clone()),
        1 => {
            let st = StructArray::try_new(vec!["a".into()].into(), vec![s.a.clone()], n, Validity::NonNullable).map_err(e2s)?;
            ("struct", st.into_array())
        }
        _ => {
            let m = n / 2;
            let parts = vec![
                vortex::compute::slice(&s.a, 0, m).map_err(e2s)?,
                vortex::compute::slice(&s.a, m, n).map_err(e2s)?,
            ];
            ("chunked", ChunkedArray::try_new(parts, s.a.dtype().clone()).map_err(e2s)?.into_array())
        }
    };
    let r = c.compress(&a, None).map_err(|e| format!("compress error | {}: {}", a.encoding().id(), e2s(e)))?.into_array();
    let size = physical(&r);
    let t: Vec<String> = r.depth_first_traversal().map(|x| enc_id(&x)).collect();
    cal(|| format!("{} {wrap} n {n} ideal {:.0} size {size} ratio {:.3} over {:.0} {}", s.name, s.ideal, size as f64 / s.ideal.max(1.0), size as f64 - s.ideal, t.join(">")));
    let bound = s.bound();
    if size as f64 > bound {
        return Err(format!("{} {wrap} | {n} rows of {} take {size} bytes, {:.0} would do: {}", s.name, s.a.dtype(), s.ideal, t.join(">")));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        rule: "an encoder given at least two values (two runs, a repeated value); an array the compressor made smaller; data of one plain structure",
        assumptions: &[],
        subs: vec![
            Sub { name: "encoders", f: p_encoders, quick: 80000, thorough: 800000 },
            Sub { name: "larger", f: p_larger, quick: 40000, thorough: 400000 },
            Sub { name: "structured", f: p_structured, quick: 6000, thorough: 60000 },
        ],
        known: vec![],
    }]
}
