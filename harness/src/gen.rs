//! Generators: logical columns (model values) and physical arrays in arbitrary encoding trees.
use crate::model::*;
use crate::pbt::{Rng, G};
use crate::read::{e2s, v_to_scalar, v_to_sv};
use std::collections::HashSet;
use std::sync::Arc;
use vortex::array::builder::VarBinBuilder;
use vortex::array::*;
use vortex::compute::slice;
use vortex::validity::Validity;
use vortex::stats::{ArrayStatistics, Stat};
use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
use vortex_buffer::Buffer;
use vortex_datetime_dtype::{TemporalMetadata, TimeUnit, DATE_ID, TIMESTAMP_ID, TIME_ID};
use vortex_dtype::{match_each_integer_ptype, DType, ExtDType, ExtID, ExtMetadata, NativePType, PType};
use vortex_error::VortexResult;
use vortex_scalar::{Scalar, ScalarValue};

pub const UINTS: [PType; 4] = [PType::U8, PType::U16, PType::U32, PType::U64];
pub const INTS: [PType; 8] =
    [PType::I32, PType::I64, PType::U8, PType::U16, PType::U32, PType::U64, PType::I8, PType::I16];
pub const FLOATS: [PType; 3] = [PType::F64, PType::F32, PType::F16];

/// Work around for recorded findings: a generator consults this before producing an excluded shape.
#[derive(Clone)]
pub struct Cfg {
    pub max_len: usize,
    pub depth: u32,
    pub structs: bool,
    pub ext: bool,
    pub null_ty: bool,
    pub floats: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { max_len: 3000, depth: 2, structs: true, ext: true, null_ty: true, floats: true }
    }
}

/// Where any length goes, a few arrays are long: behind 65 536 rows indices, codes and ends need
/// wider types, and bitmaps have several containers.
pub fn gen_len(g: &mut G, max: usize) -> usize {
    if max >= 3000 {
        match g.below(6000) {
            5999 | 5998 => return *g.pick(&[65_535usize, 65_536, 65_537, 70_000, 131_073]),
            5997 => return g.range(65_000, 140_000),
            5990..=5996 => return g.range(3000, 20_000),
            _ => {}
        }
    }
    let n = match g.weighted(&[38, 26, 14, 12, 10]) {
        0 => g.range(0, 8),
        1 => g.range(8, 64),
        2 => g.range(64, 300),
        3 => *g.pick(&[1023usize, 1024, 1025, 2047, 2048, 2049, 127, 128, 129, 512]),
        _ => g.range(900, 3000),
    };
    n.min(max)
}

pub fn small_len(g: &mut G, max: usize) -> usize {
    let n = match g.weighted(&[50, 40, 10]) {
        0 => g.range(0, 8),
        1 => g.range(8, 40),
        _ => g.range(40, 150),
    };
    n.min(max)
}

pub fn gen_prim_ty(g: &mut G) -> Ty {
    let n = g.bool();
    let p = if g.chance(1, 4) { *g.pick(&FLOATS) } else { *g.pick(&INTS) };
    Ty::Prim(p, n)
}

pub fn temporal_ty(g: &mut G, n: bool) -> Ty {
    let (id, md, st) = match g.weighted(&[5, 2, 2]) {
        0 => {
            let u = *g.pick(&[TimeUnit::Ms, TimeUnit::S, TimeUnit::Us, TimeUnit::Ns]);
            let tz = if g.chance(1, 3) { Some("America/New_York".to_string()) } else { None };
            (TIMESTAMP_ID.clone(), TemporalMetadata::Timestamp(u, tz), PType::I64)
        }
        1 => {
            let u = *g.pick(&[TimeUnit::D, TimeUnit::Ms]);
            (DATE_ID.clone(), TemporalMetadata::Date(u), if u == TimeUnit::D { PType::I32 } else { PType::I64 })
        }
        _ => {
            let u = *g.pick(&[TimeUnit::S, TimeUnit::Ms, TimeUnit::Us, TimeUnit::Ns]);
            let p = if matches!(u, TimeUnit::S | TimeUnit::Ms) { PType::I32 } else { PType::I64 };
            (TIME_ID.clone(), TemporalMetadata::Time(u), p)
        }
    };
    Ty::Ext(ExtDType::new(id, Some(md.into())), Box::new(Ty::Prim(st, n)))
}

pub fn custom_ext(g: &mut G, n: bool) -> Ty {
    let md = if g.bool() { Some(ExtMetadata::new(Arc::from(vec![1u8, 2, 3]))) } else { None };
    let st = match g.usize(3) {
        0 => Ty::Prim(*g.pick(&INTS), n),
        1 => Ty::Utf8(n),
        _ => Ty::Bool(n),
    };
    Ty::Ext(ExtDType::new(ExtID::from("vx.custom"), md), Box::new(st))
}

pub fn is_temporal(ty: &Ty) -> bool {
    matches!(ty, Ty::Ext(e, _) if e.id() != &ExtID::from("vx.custom"))
}
pub fn is_custom_ext(ty: &Ty) -> bool {
    matches!(ty, Ty::Ext(e, _) if e.id() == &ExtID::from("vx.custom"))
}
pub fn timestamp_unit(ty: &Ty) -> Option<TimeUnit> {
    match ty {
        Ty::Ext(e, _) if e.id() == &*TIMESTAMP_ID => {
            TemporalMetadata::try_from(e).ok().map(|m| m.time_unit())
        }
        _ => None,
    }
}

pub fn gen_ty(g: &mut G, c: &Cfg) -> Ty {
    gen_ty_d(g, c, 0)
}
fn gen_ty_d(g: &mut G, c: &Cfg, d: u32) -> Ty {
    let n = g.bool();
    let w = [
        36,
        if c.floats { 16 } else { 0 },
        12,
        14,
        6,
        if c.structs && d < 2 { 8 } else { 0 },
        if c.ext { 8 } else { 0 },
        if c.null_ty { 2 } else { 0 },
    ];
    match g.weighted(&w) {
        0 => Ty::Prim(*g.pick(&INTS), n),
        1 => Ty::Prim(*g.pick(&FLOATS), n),
        2 => Ty::Bool(n),
        3 => Ty::Utf8(n),
        4 => Ty::Bin(n),
        5 => {
            let k = if g.chance(1, 12) { 0 } else { g.range(1, 4) };
            let fs = (0..k).map(|i| (format!("f{i}"), gen_ty_d(g, c, d + 1))).collect();
            Ty::Struct(fs, n)
        }
        6 => {
            if g.chance(1, 5) {
                custom_ext(g, n)
            } else {
                temporal_ty(g, n)
            }
        }
        _ => Ty::Null,
    }
}

fn below(r: &mut Rng, n: i128) -> i128 {
    // n > 0, up to 2^64
    ((r.next() as u128 * n as u128) >> 64) as i128
}

pub fn gen_ints(g: &mut G, p: PType, n: usize) -> Vec<i128> {
    let (lo, hi) = int_range(p);
    let span = hi - lo + 1;
    let kind = g.weighted(&[6, 4, 5, 4, 3, 3, 3, 3, 4, 3, 3, 2, 2, 2]);
    let clampw = |x: i128| -> i128 { x.clamp(lo, hi) };
    let off = match g.weighted(&[5, 2, 2, 2]) {
        0 => 0,
        1 => lo,
        2 => hi - 130,
        _ => {
            let mut r = g.bulk();
            lo + below(&mut r, span)
        }
    };
    let small = |g: &mut G, k: u64| -> i128 { g.below(k) as i128 };
    let explicit = n <= 12;
    let mut r = if explicit { Rng::new(0) } else { g.bulk() };
    let mut out = Vec::with_capacity(n);
    match kind {
        0 => {
            // small range at offset, explicit for short arrays
            let w = *g.pick(&[4u64, 2, 16, 100, 256]);
            for _ in 0..n {
                let v = if explicit { small(g, w) } else { r.below(w) as i128 };
                out.push(clampw(off + v));
            }
        }
        1 => {
            // few distinct values, arbitrary
            let k = g.range(1, 5);
            let ds: Vec<i128> = (0..k).map(|_| { let mut q = g.bulk(); lo + below(&mut q, span) }).collect();
            for _ in 0..n {
                let i = if explicit { g.usize(k) } else { r.below(k as u64) as usize };
                out.push(ds[i]);
            }
        }
        2 => {
            // runs
            let maxrun = *g.pick(&[3u64, 8, 40, 200]);
            let w = *g.pick(&[2u64, 5, 50]);
            while out.len() < n {
                let v = clampw(off + if explicit { small(g, w) } else { r.below(w) as i128 });
                let l = 1 + if explicit { small(g, maxrun) as u64 } else { r.below(maxrun) };
                for _ in 0..l {
                    if out.len() < n {
                        out.push(v);
                    }
                }
            }
        }
        3 => {
            // sorted
            let w = *g.pick(&[2u64, 3, 10, 1000]);
            let mut v = off;
            for _ in 0..n {
                v = clampw(v + if explicit { small(g, w) } else { r.below(w) as i128 });
                out.push(v);
            }
        }
        4 => {
            // strictly sorted as far as the type allows
            let step = *g.pick(&[1u64, 2, 10]);
            let mut v = if (off + (n as i128) * (step as i128)) > hi { lo } else { off };
            for _ in 0..n {
                out.push(clampw(v));
                v += 1 + if explicit { small(g, step) } else { r.below(step) as i128 };
            }
        }
        5 => {
            let v = clampw(off + small(g, 4));
            out = vec![v; n];
        }
        6 => {
            for _ in 0..n {
                if explicit {
                    r = g.bulk();
                }
                out.push(lo + below(&mut r, span));
            }
        }
        7 => {
            // extremes
            let ds = [0i128.clamp(lo, hi), lo, hi, lo + 1, hi - 1, 1, hi / 2, hi / 2 + 1, lo / 2];
            for _ in 0..n {
                let i = if explicit { g.usize(ds.len()) } else { r.below(ds.len() as u64) as usize };
                out.push(ds[i]);
            }
        }
        8 => {
            // small with rare outliers
            let w = *g.pick(&[2u64, 8, 60]);
            let rare = *g.pick(&[4u64, 20, 200]);
            for _ in 0..n {
                let mut v = clampw(off + if explicit { small(g, w) } else { r.below(w) as i128 });
                let o = if explicit { g.below(rare) } else { r.below(rare) };
                if o == rare - 1 {
                    let mut q = if explicit { g.bulk() } else { r.clone() };
                    v = lo + below(&mut q, span);
                }
                out.push(v);
            }
        }
        9 => {
            // multiples of a power of two plus a base
            let k = 1 + g.below(6) as u32;
            let w = *g.pick(&[4u64, 30, 1000]);
            for _ in 0..n {
                let v = if explicit { small(g, w) } else { r.below(w) as i128 };
                out.push(clampw(off + (v << k)));
            }
        }
        10 => {
            // mostly one value
            let v = clampw(off + small(g, 4));
            out = vec![v; n];
            let k = g.range(0, 6);
            for _ in 0..k {
                if n > 0 {
                    let i = g.usize(n);
                    out[i] = clampw(v + 1 + small(g, 3));
                }
            }
        }
        11 => {
            // arithmetic
            let s = small(g, 5) - 2;
            for i in 0..n {
                out.push(clampw(off + s * i as i128));
            }
        }
        12 => {
            // symmetric around zero
            let w = *g.pick(&[3u64, 20, 100]);
            for _ in 0..n {
                let v = if explicit { small(g, 2 * w) } else { r.below(2 * w) as i128 } - w as i128;
                out.push(clampw(v));
            }
        }
        _ => {
            // sorted, with wide gaps
            let mut vs: Vec<i128> = (0..n).map(|_| lo + below(&mut r, span)).collect();
            vs.sort();
            out = vs;
        }
    }
    out
}

pub fn gen_f64s(g: &mut G, n: usize, is32: bool) -> Vec<f64> {
    let explicit = n <= 12;
    let kind = g.weighted(&[5, 4, 4, 3, 3, 3, 2, 2]);
    let mut r = g.bulk();
    let specials = [
        0.0,
        -0.0,
        1.0,
        -1.0,
        f64::NAN,
        f64::INFINITY,
        f64::NEG_INFINITY,
        f64::MIN_POSITIVE,
        if is32 { f32::MAX as f64 } else { f64::MAX },
        if is32 { f32::MIN as f64 } else { f64::MIN },
        5e-324,
        f64::from_bits(0xfff8_0000_0000_0001),
        0.1,
        1e-9,
        9007199254740993.0,
        1e18,
        -9.3e18,
    ];
    let mut out = Vec::with_capacity(n);
    for _ in 0..n {
        let pick = |g: &mut G, r: &mut Rng, k: u64| if explicit { g.below(k) } else { r.below(k) };
        out.push(match kind {
            0 => {
                let d = [1.0, 10.0, 100.0, 1000.0][pick(g, &mut r, 4) as usize];
                (pick(g, &mut r, 20000) as f64 - 5000.0) / d
            }
            1 => specials[pick(g, &mut r, specials.len() as u64) as usize],
            2 => {
                let b = r.next();
                if is32 {
                    f32::from_bits(b as u32) as f64
                } else {
                    f64::from_bits(b)
                }
            }
            3 => {
                // real doubles in a narrow exponent range
                0.5 + (r.next() >> 12) as f64 / (1u64 << 52) as f64
            }
            4 => (pick(g, &mut r, 3) as f64) * 1.5,
            5 => {
                if pick(g, &mut r, 20) == 19 {
                    specials[r.below(specials.len() as u64) as usize]
                } else {
                    (pick(g, &mut r, 1000) as f64) / 100.0
                }
            }
            6 => {
                if out.is_empty() || pick(g, &mut r, 5) == 4 {
                    specials[pick(g, &mut r, specials.len() as u64) as usize]
                } else {
                    out[out.len() - 1]
                }
            }
            _ => out.first().copied().unwrap_or_else(|| specials[r.below(specials.len() as u64) as usize]),
        });
    }
    if g.chance(1, 6) {
        out.sort_by(|a, b| a.total_cmp(b));
    }
    out
}

pub fn gen_strings(g: &mut G, n: usize, utf8: bool) -> Vec<Vec<u8>> {
    let explicit = n <= 12;
    let kind = g.weighted(&[5, 4, 3, 2, 3, 2, 2]);
    let mut r = g.bulk();
    let words = ["", "a", "ab", "hello", "helloworld!!", "helloworld!!!", "vortex", "élan", "日本語", "zzzzzzzzzzzzzzzzzzzzzzzz", "http://www.example.com/page", "http://www.example.com/page/2", "\0", "a\0b"];
    let mut out: Vec<Vec<u8>> = Vec::with_capacity(n);
    for i in 0..n {
        let pick = |g: &mut G, r: &mut Rng, k: u64| if explicit { g.below(k) } else { r.below(k) };
        let s: String = match kind {
            0 => words[pick(g, &mut r, words.len() as u64) as usize].to_string(),
            1 => format!("http://www.vortex.dev/{}", pick(g, &mut r, 50)),
            2 => {
                let l = pick(g, &mut r, 30) as usize;
                (0..l).map(|_| char::from(b'a' + r.below(4) as u8)).collect()
            }
            3 => {
                let l = pick(g, &mut r, 8) as usize;
                (0..l)
                    .map(|_| char::from_u32(*[0x41u32, 0x7f, 0x80, 0xe9, 0x4e2d, 0x1f600, 0x0].get(r.below(7) as usize).unwrap()).unwrap())
                    .collect()
            }
            4 => {
                if i == 0 || pick(g, &mut r, 4) == 3 {
                    words[pick(g, &mut r, words.len() as u64) as usize].to_string()
                } else {
                    String::from_utf8(out[i - 1].clone()).unwrap()
                }
            }
            5 => {
                let l = *[11usize, 12, 13, 14].get(pick(g, &mut r, 4) as usize).unwrap();
                (0..l).map(|_| char::from(b'x' + r.below(3) as u8)).collect()
            }
            _ => {
                let l = if pick(g, &mut r, 10) == 9 { 400 } else { 3 };
                (0..l).map(|_| char::from(b'a' + r.below(26) as u8)).collect()
            }
        };
        out.push(s.into_bytes());
    }
    if !utf8 && g.bool() {
        for s in out.iter_mut() {
            for b in s.iter_mut() {
                if r.below(4) == 0 {
                    *b = r.next() as u8;
                }
            }
        }
    }
    if g.chance(1, 4) {
        out.sort();
    }
    out
}

pub fn gen_bools(g: &mut G, n: usize) -> Vec<bool> {
    let kind = g.weighted(&[5, 3, 2, 2, 2]);
    let explicit = n <= 12;
    let mut r = if explicit { Rng::new(1) } else { g.bulk() };
    let mut out = Vec::with_capacity(n);
    match kind {
        0 => {
            for _ in 0..n {
                out.push(if explicit { g.bool() } else { r.below(2) == 1 });
            }
        }
        1 => {
            let m = *g.pick(&[3u64, 10, 70, 500]);
            let mut v = g.bool();
            while out.len() < n {
                let l = 1 + if explicit { g.below(m) } else { r.below(m) };
                for _ in 0..l {
                    if out.len() < n {
                        out.push(v)
                    }
                }
                v = !v;
            }
        }
        2 => out = vec![false; n],
        3 => out = vec![true; n],
        _ => {
            let v = g.bool();
            out = vec![v; n];
            for _ in 0..g.range(0, 4) {
                if n > 0 {
                    let i = g.usize(n);
                    out[i] = !v;
                }
            }
        }
    }
    out
}

/// which positions are null
pub fn gen_nulls(g: &mut G, n: usize) -> Vec<bool> {
    match g.weighted(&[3, 5, 1, 2]) {
        0 => vec![false; n],
        1 => gen_bools(g, n),
        2 => vec![true; n],
        _ => {
            let mut r = g.bulk();
            let d = *g.pick(&[3u64, 10, 100]);
            (0..n).map(|_| r.below(d) == 0).collect()
        }
    }
}

/// non-null values of a type
pub fn gen_nn(g: &mut G, ty: &Ty, n: usize) -> Vec<V> {
    match ty {
        Ty::Null => vec![V::Null; n],
        Ty::Bool(_) => gen_bools(g, n).into_iter().map(V::Bool).collect(),
        Ty::Prim(p, _) if p.is_int() => gen_ints(g, *p, n).into_iter().map(V::I).collect(),
        Ty::Prim(PType::F64, _) => gen_f64s(g, n, false).into_iter().map(|x| V::F64(x.to_bits())).collect(),
        Ty::Prim(PType::F32, _) => gen_f64s(g, n, true).into_iter().map(|x| V::F32((x as f32).to_bits())).collect(),
        Ty::Prim(_, _) => {
            gen_f64s(g, n, true).into_iter().map(|x| V::F16(half::f16::from_f64(x).to_bits())).collect()
        }
        Ty::Utf8(_) => gen_strings(g, n, true).into_iter().map(V::S).collect(),
        Ty::Bin(_) => gen_strings(g, n, false).into_iter().map(V::S).collect(),
        Ty::Struct(fs, _) => {
            let cols: Vec<Vec<V>> = fs.iter().map(|(_, t)| gen_vals(g, t, n)).collect();
            (0..n).map(|i| V::Struct(cols.iter().map(|c| c[i].clone()).collect())).collect()
        }
        Ty::Ext(e, s) => {
            if e.id() == &*TIME_ID {
                // time of day: keep in range
                let m = TemporalMetadata::try_from(e).expect("harness");
                let per_day: i128 = match m.time_unit() {
                    TimeUnit::S => 86_400,
                    TimeUnit::Ms => 86_400_000,
                    TimeUnit::Us => 86_400_000_000,
                    _ => 86_400_000_000_000,
                };
                gen_nn(g, s, n).into_iter().map(|v| V::I(v.int().rem_euclid(per_day))).collect()
            } else if e.id() == &*TIMESTAMP_ID && g.bool() {
                let unit: i128 = match timestamp_unit(ty) {
                    Some(TimeUnit::S) => 1,
                    Some(TimeUnit::Ms) => 1000,
                    Some(TimeUnit::Us) => 1_000_000,
                    _ => 1_000_000_000,
                };
                let mut r = g.bulk();
                let neg = g.bool();
                let base: i128 = 1_700_000_000 * unit;
                let spread = *g.pick(&[1000u64, 86_400 * 3, 40_000_000]);
                (0..n)
                    .map(|_| {
                        let t = (r.below(spread) as i128) * unit + (r.below(unit as u64) as i128);
                        V::I(if neg { -t } else { base + t })
                    })
                    .collect()
            } else {
                gen_nn(g, s, n)
            }
        }
    }
}

pub fn gen_vals(g: &mut G, ty: &Ty, n: usize) -> Vec<V> {
    let mut v = gen_nn(g, ty, n);
    if ty.nullable() {
        for (x, isnull) in v.iter_mut().zip(gen_nulls(g, n)) {
            if isnull {
                *x = V::Null;
            }
        }
    }
    v
}

pub fn gen_col(g: &mut G, c: &Cfg) -> Col {
    let ty = gen_ty(g, c);
    let n = gen_len(g, c.max_len);
    let vals = gen_vals(g, &ty, n);
    Col { ty, vals }
}

/// sorted column (nulls last as search_sorted/ncmp order)
pub fn sort_col(c: &Col) -> Col {
    let mut vals = c.vals.clone();
    vals.sort_by(|a, b| a.ncmp(b));
    Col { ty: c.ty.clone(), vals }
}

// ------------------------------------------------------------------------------------------
// physical arrays

pub type B = Result<(Array, String), String>;

fn er(what: &str) -> impl Fn(vortex_error::VortexError) -> String + '_ {
    move |e| format!("build {what} error | {}", e2s(e))
}

/// values with nulls replaced by fillers
pub fn filled(g: &mut G, col: &Col) -> Vec<V> {
    let mode = if col.vals.iter().any(|v| v.is_null()) { g.usize(3) } else { 0 };
    let zero = zero_of(&col.ty);
    let mut last = zero.clone();
    let rnd = if mode == 2 { gen_nn(g, &col.ty, col.len()) } else { vec![] };
    col.vals
        .iter()
        .enumerate()
        .map(|(i, v)| {
            if v.is_null() {
                match mode {
                    0 => zero.clone(),
                    1 => last.clone(),
                    _ => rnd[i].clone(),
                }
            } else {
                last = v.clone();
                v.clone()
            }
        })
        .collect()
}

pub fn zero_of(ty: &Ty) -> V {
    match ty {
        Ty::Null => V::Null,
        Ty::Bool(_) => V::Bool(false),
        Ty::Prim(PType::F16, _) => V::F16(0),
        Ty::Prim(PType::F32, _) => V::F32(0),
        Ty::Prim(PType::F64, _) => V::F64(0),
        Ty::Prim(_, _) => V::I(0),
        Ty::Utf8(_) | Ty::Bin(_) => V::S(vec![]),
        Ty::Struct(fs, _) => {
            V::Struct(fs.iter().map(|(_, t)| if t.nullable() { V::Null } else { zero_of(t) }).collect())
        }
        Ty::Ext(_, s) => zero_of(s),
    }
}

/// validity for a nullable/non-nullable column
pub fn gen_validity(g: &mut G, col: &Col, depth: u32) -> Validity {
    if !col.ty.nullable() {
        return Validity::NonNullable;
    }
    let nulls = col.nulls();
    if nulls == 0 && g.chance(2, 3) {
        return Validity::AllValid;
    }
    if nulls == col.len() && nulls > 0 && g.chance(2, 3) {
        return Validity::AllInvalid;
    }
    let vc = Col { ty: Ty::Bool(false), vals: col.vals.iter().map(|v| V::Bool(!v.is_null())).collect() };
    if depth > 0 && g.chance(1, 3) {
        if let Ok((a, _)) = build(g, &vc, depth - 1) {
            return Validity::Array(a);
        }
    }
    Validity::Array(bool_array(&vc.vals, Validity::NonNullable))
}

fn bool_array(vals: &[V], validity: Validity) -> Array {
    BoolArray::from_vec(vals.iter().map(|v| matches!(v, V::Bool(true))).collect(), validity).into_array()
}

pub fn prim_from(p: PType, vals: &[V], validity: Validity) -> PrimitiveArray {
    match p {
        PType::F16 => PrimitiveArray::from_vec(
            vals.iter().map(|v| if let V::F16(b) = v { half::f16::from_bits(*b) } else { half::f16::ZERO }).collect::<Vec<_>>(),
            validity,
        ),
        PType::F32 => PrimitiveArray::from_vec(
            vals.iter().map(|v| if let V::F32(b) = v { f32::from_bits(*b) } else { 0.0 }).collect::<Vec<_>>(),
            validity,
        ),
        PType::F64 => PrimitiveArray::from_vec(
            vals.iter().map(|v| if let V::F64(b) = v { f64::from_bits(*b) } else { 0.0 }).collect::<Vec<_>>(),
            validity,
        ),
        _ => match_each_integer_ptype!(p, |$T| {
            PrimitiveArray::from_vec(
                vals.iter().map(|v| if let V::I(i) = v { *i as $T } else { 0 as $T }).collect::<Vec<_>>(),
                validity,
            )
        }),
    }
}

pub fn build_prim(g: &mut G, col: &Col, depth: u32) -> PrimitiveArray {
    let Ty::Prim(p, _) = &col.ty else { panic!("harness: build_prim") };
    let f = filled(g, col);
    let v = gen_validity(g, col, depth);
    prim_from(*p, &f, v)
}

fn varbin_typed<O: NativePType>(col: &Col) -> VarBinArray {
    let mut b = VarBinBuilder::<O>::with_capacity(col.len());
    for v in &col.vals {
        match v {
            V::S(s) => b.push_value(s),
            _ => b.push_null(),
        }
    }
    b.finish(col.ty.dtype())
}

/// Strings whose first offset is not zero, with bytes after the last one and bytes under the nulls
fn varbin_parts(g: &mut G, col: &Col, offsets: PType, total: usize) -> VarBinArray {
    let f = filled(g, col);
    let bytes = |v: &V| if let V::S(s) = v { s.clone() } else { vec![] };
    // the offsets have to fit their type whatever is under the nulls
    let fits = f.iter().map(|v| bytes(v).len()).sum::<usize>() <= total + 3;
    let mut data = vec![b'<'; g.usize(3)];
    let mut off = vec![V::I(data.len() as i128)];
    for (v, o) in f.iter().zip(&col.vals) {
        if fits || !o.is_null() {
            data.extend(bytes(v));
        }
        off.push(V::I(data.len() as i128));
    }
    data.extend(vec![b'>'; g.usize(3)]);
    let v = gen_validity(g, col, 0);
    let off = prim_from(offsets, &off, Validity::NonNullable).into_array();
    let data = PrimitiveArray::from(data).into_array();
    VarBinArray::try_new(off, data, col.ty.dtype(), v).expect("harness: varbin parts")
}

pub fn build_varbin(g: &mut G, col: &Col) -> VarBinArray {
    let total: usize = col.vals.iter().map(|v| if let V::S(s) = v { s.len() } else { 0 }).sum();
    let mut opts = vec![PType::I32, PType::U32, PType::I64, PType::U64];
    if total < 250 {
        opts.push(PType::U8);
    }
    if total < 120 {
        opts.push(PType::I8);
    }
    if total < 32000 {
        opts.push(PType::I16);
        opts.push(PType::U16);
    }
    let p = *g.pick(&opts);
    if g.chance(1, 3) {
        return varbin_parts(g, col, p, total);
    }
    match p {
        PType::I32 => varbin_typed::<i32>(col),
        PType::U32 => varbin_typed::<u32>(col),
        PType::I64 => varbin_typed::<i64>(col),
        PType::U64 => varbin_typed::<u64>(col),
        PType::U8 => varbin_typed::<u8>(col),
        PType::I8 => varbin_typed::<i8>(col),
        PType::I16 => varbin_typed::<i16>(col),
        _ => varbin_typed::<u16>(col),
    }
}

/// Views of values in several buffers: empty or unused ones, in any order, values shared
fn view_parts(g: &mut G, col: &Col) -> VarBinViewArray {
    let f = filled(g, col);
    let data: Vec<&[u8]> = f.iter().map(|v| if let V::S(s) = v { s.as_slice() } else { &[] }).collect();
    let (views, bufs) = scattered_views(g, &data);
    let v = gen_validity(g, col, 0);
    let child = |b: arrow_buffer::Buffer| PrimitiveArray::new(b.into(), PType::U8, Validity::NonNullable).into_array();
    VarBinViewArray::try_new(child(views.into_inner()), bufs.into_iter().map(child).collect(), col.ty.dtype(), v)
        .expect("harness: view parts")
}

pub fn scattered_views(g: &mut G, data: &[&[u8]]) -> (arrow_buffer::ScalarBuffer<u128>, Vec<arrow_buffer::Buffer>) {
    let mut bufs: Vec<Vec<u8>> = (0..1 + g.usize(4)).map(|_| vec![b'#'; if g.bool() { g.usize(20) } else { 0 }]).collect();
    let mut at: std::collections::HashMap<&[u8], (usize, usize)> = Default::default();
    let share = g.bool();
    let mut views = Vec::with_capacity(data.len());
    for d in data {
        if d.len() <= 12 {
            views.push(arrow_array::builder::make_view(d, 0, 0));
            continue;
        }
        let (b, o) = match at.get(d) {
            Some(p) if share => *p,
            _ => {
                let b = g.usize(bufs.len());
                let o = bufs[b].len();
                bufs[b].extend_from_slice(d);
                (b, o)
            }
        };
        at.insert(d, (b, o));
        views.push(arrow_array::builder::make_view(d, b as u32, o as u32));
    }
    (views.into(), bufs.into_iter().map(arrow_buffer::Buffer::from_vec).collect())
}

pub fn build_view(g: &mut G, col: &Col) -> VarBinViewArray {
    if g.chance(1, 3) {
        return view_parts(g, col);
    }
    VarBinViewArray::from_iter(
        col.vals.iter().map(|v| if let V::S(s) = v { Some(s.clone()) } else { None }),
        col.ty.dtype(),
    )
}

/// canonical (or plain, uncompressed) array
pub fn build_plain(g: &mut G, col: &Col, depth: u32) -> B {
    Ok(match &col.ty {
        Ty::Null => (NullArray::new(col.len()).into_array(), "null".into()),
        Ty::Bool(_) => {
            let f = filled(g, col);
            let v = gen_validity(g, col, depth);
            (bool_array(&f, v), "bool".into())
        }
        Ty::Prim(p, _) => {
            let a = build_prim(g, col, depth);
            (a.into_array(), format!("{p}"))
        }
        Ty::Utf8(_) | Ty::Bin(_) => {
            if g.bool() {
                (build_view(g, col).into_array(), "view".into())
            } else {
                (build_varbin(g, col).into_array(), "varbin".into())
            }
        }
        Ty::Struct(fs, _) => {
            let mut arrs = vec![];
            let mut ds = vec![];
            for (i, (_, t)) in fs.iter().enumerate() {
                let mut f = Col { ty: t.clone(), vals: Vec::with_capacity(col.len()) };
                for v in &col.vals {
                    f.vals.push(match v {
                        V::Struct(x) => x[i].clone(),
                        _ => {
                            if t.nullable() {
                                V::Null
                            } else {
                                zero_of(t)
                            }
                        }
                    });
                }
                let (a, d) = build(g, &f, depth.saturating_sub(1))?;
                arrs.push(a);
                ds.push(d);
            }
            let v = gen_validity(g, col, depth);
            (
                StructArray::try_new(
                    fs.iter().map(|(n, _)| Arc::<str>::from(n.as_str())).collect::<Vec<_>>().into(),
                    arrs,
                    col.len(),
                    v,
                )
                .map_err(er("struct"))?
                .into_array(),
                format!("struct({})", ds.join(",")),
            )
        }
        Ty::Ext(e, s) => {
            let sc = Col { ty: (**s).clone(), vals: col.vals.clone() };
            let (a, d) = build(g, &sc, depth.saturating_sub(1))?;
            (ExtensionArray::new(e.clone(), a).into_array(), format!("ext({d})"))
        }
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Enc {
    Plain,
    Chunked,
    Sliced,
    Constant,
    Sparse,
    Dict,
    RunEnd,
    RunEndBool,
    BitPacked,
    FoR,
    Delta,
    ZigZag,
    Alp,
    AlpRd,
    Fsst,
    RoaringBool,
    RoaringInt,
    ByteBool,
    DateTimeParts,
    Compressed,
    Ipc,
}

pub fn all_equal(c: &Col) -> bool {
    c.vals.windows(2).all(|w| w[0] == w[1])
}

/// encodings that can hold this column
pub fn encodings_for(col: &Col) -> Vec<Enc> {
    let n = col.len();
    let nulls = col.nulls();
    let mut v = vec![Enc::Plain, Enc::Chunked, Enc::Sliced, Enc::Compressed, Enc::Ipc];
    if all_equal(col) && !matches!(col.ty, Ty::Struct(..) | Ty::Ext(..)) && n > 0 {
        v.push(Enc::Constant);
    }
    match &col.ty {
        Ty::Bool(nl) => {
            v.extend([Enc::ByteBool, Enc::Sparse]);
            if n > 0 {
                v.push(Enc::RunEndBool);
            }
            if !nl {
                v.push(Enc::RoaringBool);
            }
        }
        Ty::Prim(p, nl) => {
            v.extend([Enc::Sparse, Enc::Dict]);
            if n > 0 {
                v.push(Enc::RunEnd);
            }
            if p.is_int() {
                if n > nulls {
                    v.push(Enc::FoR);
                }
                if p.is_unsigned_int() {
                    v.push(Enc::Delta);
                    if n > 0 {
                        v.push(Enc::BitPacked);
                    }
                    if !nl
                        && col.vals.windows(2).all(|w| w[0].int() < w[1].int())
                        && col.vals.last().map(|x| x.int() <= u32::MAX as i128).unwrap_or(true)
                    {
                        v.push(Enc::RoaringInt);
                    }
                } else {
                    v.push(Enc::ZigZag);
                }
            } else if *p != PType::F16 {
                v.push(Enc::Alp);
                if n > 0 {
                    v.push(Enc::AlpRd);
                }
            }
        }
        Ty::Utf8(_) | Ty::Bin(_) => {
            v.push(Enc::Dict);
            if n > 0 {
                v.push(Enc::Fsst);
            }
        }
        Ty::Ext(..) => {
            if timestamp_unit(&col.ty).is_some() {
                v.push(Enc::DateTimeParts);
            }
        }
        _ => {}
    }
    v
}

/// Build an array holding exactly the column's values, in a random encoding tree.
pub fn build(g: &mut G, col: &Col, depth: u32) -> B {
    if depth == 0 {
        return build_plain(g, col, 0);
    }
    let es = encodings_for(col);
    let ws: Vec<u64> = es
        .iter()
        .map(|e| match e {
            Enc::Plain => 14,
            Enc::Chunked => 6,
            Enc::Sliced => 9,
            Enc::Compressed => 2,
            Enc::Ipc => 2,
            Enc::Constant => 8,
            _ => 10,
        })
        .collect();
    let e = es[g.weighted(&ws)];
    let (a, d) = build_as(g, col, e, depth)?;
    if g.chance(1, 8) {
        let known = know_some(g, &a, col);
        if !known.is_empty() {
            return Ok((a, format!("{d} knowing {}", known.join(","))));
        }
    }
    Ok((a, d))
}

/// has an array know some of its statistics, as one has that was read, computed or merged before
fn know_some(g: &mut G, a: &Array, col: &Col) -> Vec<String> {
    let mut known = vec![];
    if !matches!(a, Array::Data(_)) || col.ty.has_ext() || col.vals.is_empty() {
        return known;
    }
    let v = &col.vals;
    let plain = !v.iter().any(|x| x.is_null() || x.is_nan() || x.is_neg_zero());
    let ordered = matches!(col.ty, Ty::Prim(..) | Ty::Bool(_) | Ty::Utf8(_));
    let cmp: Vec<std::cmp::Ordering> = if plain && ordered { v.windows(2).map(|w| w[0].tcmp(&w[1])).collect() } else { vec![] };
    for _ in 0..g.range(1, 3) {
        let k = g.below(7);
        let (stat, value): (Stat, Scalar) = match k {
            0 => (Stat::NullCount, (col.nulls() as u64).into()),
            1 if matches!(col.ty, Ty::Bool(_)) => (Stat::TrueCount, (v.iter().filter(|x| **x == V::Bool(true)).count() as u64).into()),
            2 if plain && ordered => (Stat::IsSorted, cmp.iter().all(|o| o.is_le()).into()),
            3 if plain && ordered => (Stat::IsStrictSorted, cmp.iter().all(|o| o.is_lt()).into()),
            4 if plain && ordered => (Stat::IsConstant, cmp.iter().all(|o| o.is_eq()).into()),
            5 | 6 if plain && ordered => {
                let m = if k == 5 { v.iter().min_by(|x, y| x.tcmp(y)) } else { v.iter().max_by(|x, y| x.tcmp(y)) };
                let Some(m) = m else { continue };
                (if k == 5 { Stat::Min } else { Stat::Max }, v_to_scalar(m, &col.ty))
            }
            _ => continue,
        };
        known.push(format!("{stat}"));
        a.statistics().set(stat, value);
    }
    known
}

/// child arrays
fn child(g: &mut G, ty: Ty, vals: Vec<V>, depth: u32) -> B {
    let c = Col { ty, vals };
    if depth <= 1 || g.chance(1, 2) {
        build_plain(g, &c, 0)
    } else {
        build(g, &c, depth - 1)
    }
}

fn int_child(g: &mut G, p: PType, vals: impl Iterator<Item = i128>, depth: u32) -> B {
    child(g, Ty::Prim(p, false), vals.map(V::I).collect(), depth)
}

fn uint_for(g: &mut G, max: u64) -> PType {
    let opts: Vec<PType> = UINTS.iter().copied().filter(|p| int_range(*p).1 as u128 >= max as u128).collect();
    *g.pick(&opts)
}

pub fn build_as(g: &mut G, col: &Col, e: Enc, depth: u32) -> B {
    g.label(format!("enc:{e:?}"));
    let n = col.len();
    let ty = &col.ty;
    match e {
        Enc::Plain => build_plain(g, col, depth),
        Enc::Chunked => {
            let k = g.range(1, 4);
            let mut cuts: Vec<usize> = (0..k - 1).map(|_| g.range(0, n)).collect();
            cuts.sort();
            cuts.push(n);
            // no chunks at all (of an extension type: KF1)
            if n == 0 && !ty.has_ext() && g.chance(1, 3) {
                cuts.clear();
            }
            let mut chunks = vec![];
            let mut ds = vec![];
            let mut a = 0;
            for b in cuts {
                let c = col.slice(a, b);
                let (x, d) = build(g, &c, depth.saturating_sub(1))?;
                chunks.push(x);
                ds.push(format!("{d}:{}", b - a));
                a = b;
            }
            Ok((
                ChunkedArray::try_new(chunks, ty.dtype()).map_err(er("chunked"))?.into_array(),
                format!("chunked[{}]", ds.join(",")),
            ))
        }
        Enc::Sliced => {
            // a slice of a larger array
            let (pre, post) = if g.chance(1, 4) {
                (g.range(0, 1200), g.range(0, 1200))
            } else {
                (g.range(0, 6), g.range(0, 6))
            };
            let mut vals = gen_vals(g, ty, pre);
            if g.bool() {
                // keep patterns (runs, sortedness, constancy) across the boundary
                if let Some(f) = col.vals.first() {
                    vals = vec![f.clone(); pre];
                }
            }
            vals.extend(col.vals.iter().cloned());
            if g.bool() && n > 0 {
                vals.extend(std::iter::repeat(col.vals[n - 1].clone()).take(post));
            } else {
                let p = gen_vals(g, ty, post);
                vals.extend(p);
            }
            let big = Col { ty: ty.clone(), vals };
            let es: Vec<Enc> = encodings_for(&big).into_iter().filter(|e| depth > 0 || *e == Enc::Plain).collect();
            let e2 = if depth == 0 { Enc::Plain } else { *g.pick(&es) };
            let (a, d) = build_as(g, &big, e2, depth.saturating_sub(1))?;
            let s = slice(&a, pre, pre + n).map_err(er(&format!("slice of {}", a.encoding().id())))?;
            Ok((s, format!("slice({d},{pre}..{})", pre + n)))
        }
        Enc::Constant => {
            Ok((ConstantArray::new(v_to_scalar(&col.vals[0], ty), n).into_array(), "const".into()))
        }
        Enc::Sparse => {
            // fill value: null (nullable) or some value
            let cands: Vec<V> = col.vals.iter().take(3).cloned().collect();
            let fill = if ty.nullable() && g.chance(2, 3) {
                V::Null
            } else if !cands.is_empty() {
                g.pick(&cands).clone()
            } else {
                zero_of(ty)
            };
            let explicit_fill = g.chance(1, 4);
            let mut r = g.bulk();
            let idx: Vec<usize> =
                (0..n).filter(|i| col.vals[*i] != fill || (explicit_fill && r.below(4) == 0)).collect();
            let (ia, id) = int_child(g, PType::U64, idx.iter().map(|i| *i as i128), depth)?;
            let (va, vd) = child(g, ty.clone(), idx.iter().map(|i| col.vals[*i].clone()).collect(), depth)?;
            let a = SparseArray::try_new(ia, va, n, v_to_sv(&fill, ty)).map_err(er("sparse"))?;
            g.label(if fill.is_null() { "sparse:nullfill" } else { "sparse:valuefill" });
            Ok((a.into_array(), format!("sparse({id},{vd},fill={fill:?})")))
        }
        Enc::Dict => build_dict(g, col, depth),
        Enc::RunEnd => {
            if g.chance(1, 3) {
                let p = build_prim(g, col, 0);
                let a = vortex_runend::RunEndArray::encode(p.into_array()).map_err(er("runend"))?;
                return Ok((a.into_array(), "runend_encode".into()));
            }
            let f = filled(g, col);
            let mut ends = vec![];
            let mut vals = vec![];
            let split = g.chance(1, 6);
            let mut r = g.bulk();
            for i in 0..n {
                if i + 1 == n || f[i] != f[i + 1] || (split && r.below(3) == 0) {
                    ends.push(i as i128 + 1);
                    vals.push(f[i].clone());
                }
            }
            let p = uint_for(g, n as u64);
            let (ea, ed) = int_child(g, p, ends.into_iter(), depth)?;
            let (va, vd) = child(g, ty.clone(), vals, depth)?;
            let v = gen_validity(g, col, depth.saturating_sub(1));
            let a = vortex_runend::RunEndArray::try_new(ea, va, v).map_err(er("runend"))?;
            Ok((a.into_array(), format!("runend({ed},{vd})")))
        }
        Enc::RunEndBool => {
            let f = filled(g, col);
            let bools: Vec<bool> = f.iter().map(|v| matches!(v, V::Bool(true))).collect();
            let mut ends = vec![];
            for i in 0..n {
                if i + 1 == n || bools[i] != bools[i + 1] {
                    ends.push(i as i128 + 1);
                }
            }
            let p = uint_for(g, n as u64);
            let (ea, ed) = int_child(g, p, ends.into_iter(), depth)?;
            let v = gen_validity(g, col, depth.saturating_sub(1));
            let a = vortex_runend_bool::RunEndBoolArray::try_new(ea, bools[0], v).map_err(er("runendbool"))?;
            Ok((a.into_array(), format!("runendbool({ed})")))
        }
        Enc::BitPacked => {
            let Ty::Prim(p, _) = ty else { panic!("harness") };
            let prim = build_prim(g, col, 0);
            let maxw = p.bit_width() as u64 - 1;
            // needed width of most values
            let need = col.vals.iter().filter(|v| !v.is_null()).map(|v| 128 - (v.int() as u128).leading_zeros() as u64).max().unwrap_or(0);
            let w = if g.bool() { need.min(maxw) } else { g.below(maxw + 1) };
            if w < need {
                g.label("bitpacked:patches");
            }
            let a = vortex_fastlanes::BitPackedArray::encode(&prim.into_array(), w as u8).map_err(er("bitpacked"))?;
            Ok((a.into_array(), format!("bitpacked{w}")))
        }
        Enc::FoR => {
            let prim = build_prim(g, col, 0);
            let a = vortex_fastlanes::for_compress(&prim).map_err(er("for"))?;
            if depth > 1 && !col.vals.is_empty() && g.bool() {
                if let Ok(f) = vortex_fastlanes::FoRArray::try_from(&a) {
                    let up = f.encoded();
                    if let Ok(up) = up.into_primitive() {
                        let w = g.below(up.ptype().bit_width() as u64);
                        let b = vortex_fastlanes::BitPackedArray::encode(&up.into_array(), w as u8).map_err(er("for+bp"))?;
                        let f2 = vortex_fastlanes::FoRArray::try_new(b.into_array(), f.owned_reference_scalar(), f.shift())
                            .map_err(er("for"))?;
                        return Ok((f2.into_array(), format!("for(bitpacked{w})")));
                    }
                }
            }
            Ok((a, "for".into()))
        }
        Enc::Delta => {
            let prim = build_prim(g, col, 0);
            let (b, d) = vortex_fastlanes::delta_compress(&prim).map_err(er("delta"))?;
            let a = vortex_fastlanes::DeltaArray::try_from_delta_compress_parts(
                b.into_array(),
                d.into_array(),
                prim.validity(),
            )
            .map_err(er("delta"))?;
            Ok((a.into_array(), "delta".into()))
        }
        Enc::ZigZag => {
            let prim = build_prim(g, col, 0);
            let a = vortex_zigzag::zigzag_encode(prim).map_err(er("zigzag"))?;
            if depth > 1 && !col.vals.is_empty() && g.bool() {
                let enc = a.encoded().into_primitive().map_err(er("zigzag"))?;
                let w = g.below(enc.ptype().bit_width() as u64);
                let b = vortex_fastlanes::BitPackedArray::encode(&enc.into_array(), w as u8).map_err(er("zz+bp"))?;
                let z = vortex_zigzag::ZigZagArray::try_new(b.into_array()).map_err(er("zigzag"))?;
                return Ok((z.into_array(), format!("zigzag(bitpacked{w})")));
            }
            Ok((a.into_array(), "zigzag".into()))
        }
        Enc::Alp => {
            let prim = build_prim(g, col, 0);
            let a = vortex_alp::alp_encode(&prim).map_err(er("alp"))?;
            if a.patches().is_some() {
                g.label("alp:patches");
            }
            if depth > 1 && g.bool() {
                let enc = a.encoded().into_primitive().map_err(er("alp"))?;
                if enc.len() > 0 {
                    if let Ok(f) = vortex_fastlanes::for_compress(&enc) {
                        let x = vortex_alp::ALPArray::try_new(f, a.exponents(), a.patches()).map_err(er("alp"))?;
                        return Ok((x.into_array(), "alp(for)".into()));
                    }
                }
            }
            Ok((a.into_array(), "alp".into()))
        }
        Enc::AlpRd => {
            let prim = build_prim(g, col, 0);
            let a = if prim.ptype() == PType::F32 {
                vortex_alp::RDEncoder::new(prim.maybe_null_slice::<f32>()).encode(&prim)
            } else {
                vortex_alp::RDEncoder::new(prim.maybe_null_slice::<f64>()).encode(&prim)
            };
            Ok((a.into_array(), "alprd".into()))
        }
        Enc::Fsst => {
            let a = if g.bool() { build_view(g, col).into_array() } else { build_varbin(g, col).into_array() };
            let c = vortex_fsst::fsst_train_compressor(&a).map_err(er("fsst"))?;
            let f = vortex_fsst::fsst_compress(&a, &c).map_err(er("fsst"))?;
            Ok((f.into_array(), "fsst".into()))
        }
        Enc::RoaringBool => {
            let a = BoolArray::from_vec(
                col.vals.iter().map(|v| matches!(v, V::Bool(true))).collect(),
                Validity::NonNullable,
            );
            let x = vortex_roaring::roaring_bool_encode(a).map_err(er("roaringbool"))?;
            Ok((x.into_array(), "roaringbool".into()))
        }
        Enc::RoaringInt => {
            let prim = build_prim(g, col, 0);
            let x = vortex_roaring::roaring_int_encode(prim).map_err(er("roaringint"))?;
            Ok((x.into_array(), "roaringint".into()))
        }
        Enc::ByteBool => {
            let f = filled(g, col);
            let v = gen_validity(g, col, depth.saturating_sub(1));
            let a = vortex_bytebool::ByteBoolArray::try_from_vec(
                f.iter().map(|v| matches!(v, V::Bool(true))).collect(),
                v,
            )
            .map_err(er("bytebool"))?;
            Ok((a.into_array(), "bytebool".into()))
        }
        Enc::DateTimeParts => {
            let Ty::Ext(e, s) = ty else { panic!("harness") };
            let sc = Col { ty: (**s).clone(), vals: col.vals.clone() };
            let prim = build_prim(g, &sc, 0);
            let ext = ExtensionArray::new(e.clone(), prim.into_array());
            let t = TemporalArray::try_from(&ext.into_array()).map_err(er("temporal"))?;
            let parts = vortex_datetime_parts::split_temporal(t).map_err(er("split_temporal"))?;
            let a = vortex_datetime_parts::DateTimePartsArray::try_new(
                ty.dtype(),
                parts.days,
                parts.seconds,
                parts.subseconds,
            )
            .map_err(er("datetimeparts"))?;
            Ok((a.into_array(), "datetimeparts".into()))
        }
        Enc::Compressed => {
            let (a, d) = build_plain(g, col, depth.saturating_sub(1))?;
            let c = gen_compressor(g);
            let x = c.compress(&a, None).map_err(er("compress"))?.into_array();
            Ok((x, format!("compress({d})")))
        }
        Enc::Ipc => {
            let (a, d) = if depth > 1 { build(g, col, depth - 1)? } else { build_plain(g, col, 0)? };
            let x = ipc_roundtrip(&a).map_err(|e| format!("build ipc error | {e}"))?;
            Ok((x, format!("ipc({d})")))
        }
    }
}

fn build_dict(g: &mut G, col: &Col, depth: u32) -> B {
    let ty = &col.ty;
    if g.chance(1, 3) {
        // the crate's own encoder
        match ty {
            Ty::Prim(..) => {
                let p = build_prim(g, col, 0);
                let (c, v) = vortex_dict::dict_encode_primitive(&p);
                let a = vortex_dict::DictArray::try_new(c.into_array(), v.into_array()).map_err(er("dict"))?;
                return Ok((a.into_array(), "dict_encode".into()));
            }
            _ => {
                if g.bool() {
                    let (c, v) = vortex_dict::dict_encode_varbin(&build_varbin(g, col));
                    let a = vortex_dict::DictArray::try_new(c.into_array(), v.into_array()).map_err(er("dict"))?;
                    return Ok((a.into_array(), "dict_encode_varbin".into()));
                } else {
                    let (c, v) = vortex_dict::dict_encode_varbinview(&build_view(g, col));
                    let a = vortex_dict::DictArray::try_new(c.into_array(), v.into_array()).map_err(er("dict"))?;
                    return Ok((a.into_array(), "dict_encode_view".into()));
                }
            }
        }
    }
    let mut vals: Vec<V> = vec![];
    if ty.nullable() {
        // the null code convention: code 0 is null
        vals.push(V::Null);
    }
    let mut map = std::collections::HashMap::new();
    let mut codes = vec![];
    for v in &col.vals {
        if v.is_null() {
            codes.push(0i128);
            continue;
        }
        let k = *map.entry(v.clone()).or_insert_with(|| {
            vals.push(v.clone());
            vals.len() - 1
        });
        codes.push(k as i128);
    }
    if g.chance(1, 4) {
        // values never referenced
        let ex = gen_nn(g, ty, 2);
        vals.extend(ex);
    }
    if vals.len() > 1 && g.chance(1, 4) {
        // a value held twice, half of its uses pointing to the copy
        let k = g.usize(vals.len());
        vals.push(vals[k].clone());
        let n = vals.len() as i128 - 1;
        let mut flip = false;
        for c in codes.iter_mut().filter(|c| **c == k as i128) {
            flip = !flip;
            if flip {
                *c = n;
            }
        }
    }
    if g.bool() {
        // the dictionary in another order: sorted, or any
        let mut perm: Vec<usize> = (0..vals.len()).collect();
        if g.bool() {
            perm.sort_by(|a, b| match (vals[*a].is_null(), vals[*b].is_null()) {
                (false, false) => vals[*a].tcmp(&vals[*b]),
                (x, y) => y.cmp(&x),
            });
        } else {
            for i in (1..perm.len()).rev() {
                let j = g.usize(i + 1);
                perm.swap(i, j);
            }
        }
        let mut inv = vec![0i128; perm.len()];
        for (new, old) in perm.iter().enumerate() {
            inv[*old] = new as i128;
        }
        vals = perm.iter().map(|i| vals[*i].clone()).collect();
        for c in codes.iter_mut() {
            *c = inv[*c as usize];
        }
    }
    let p = uint_for(g, vals.len() as u64);
    let (ca, cd) = int_child(g, p, codes.into_iter(), depth)?;
    let (va, vd) = child(g, ty.clone(), vals, depth)?;
    let a = vortex_dict::DictArray::try_new(ca, va).map_err(er("dict"))?;
    Ok((a.into_array(), format!("dict({cd},{vd})")))
}

pub fn gen_compressor(g: &mut G) -> vortex_sampling_compressor::SamplingCompressor<'static> {
    use vortex_sampling_compressor::compressors::*;
    use vortex_sampling_compressor::*;
    match g.weighted(&[4, 1, 6]) {
        0 => SamplingCompressor::default(),
        1 => SamplingCompressor::new(HashSet::from(*FASTEST_COMPRESSORS)),
        _ => {
            let all: Vec<CompressorRef<'static>> = vec![
                &alp::ALPCompressor,
                &alp_rd::ALPRDCompressor,
                &bitpacked::BITPACK_WITH_PATCHES,
                &bitpacked::BITPACK_NO_PATCHES,
                &date_time_parts::DateTimePartsCompressor,
                &delta::DeltaCompressor,
                &dict::DictCompressor,
                &r#for::FoRCompressor,
                &fsst::FSSTCompressor,
                &roaring_bool::RoaringBoolCompressor,
                &roaring_int::RoaringIntCompressor,
                &runend::DEFAULT_RUN_END_COMPRESSOR,
                &sparse::SparseCompressor,
                &zigzag::ZigZagCompressor,
            ];
            let mut s = HashSet::new();
            let k = g.range(1, 6);
            for _ in 0..k {
                s.insert(*g.pick(&all));
            }
            SamplingCompressor::new(s)
        }
    }
}

pub fn ctx() -> Arc<vortex::Context> {
    vortex_sampling_compressor::ALL_COMPRESSORS_CONTEXT.clone()
}

/// write an array to the IPC stream format in memory and read it back (as an ArrayView)
pub fn ipc_roundtrip(a: &Array) -> Result<Array, String> {
    use futures::executor::block_on;
    use vortex_serde::stream_reader::StreamArrayReader;
    use vortex_serde::stream_writer::StreamArrayWriter;
    block_on(async {
        let w = StreamArrayWriter::new(Vec::<u8>::new());
        let w = w.write_array(a.clone()).await.map_err(e2s)?;
        let buf = w.into_inner();
        let r = StreamArrayReader::try_new(std::io::Cursor::new(buf), ctx()).await.map_err(e2s)?;
        let mut r = r.load_dtype().await.map_err(e2s)?;
        let _ = &mut r;
        let c = vortex::stream::ArrayStreamExt::collect_chunked(r.into_array_stream()).await.map_err(e2s)?;
        if c.nchunks() == 1 {
            c.chunk(0).map_err(e2s)
        } else {
            Ok(c.into_array())
        }
    })
}
