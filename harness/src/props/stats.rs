//! C11: statistics are true of the data; C12: validity algebra
use super::arrays::*;
use super::ops::*;
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;
use crate::{Prop, Sub};
use std::cmp::Ordering;
use vortex::compute::{filter, slice, take};
use vortex::stats::{ArrayStatistics, Stat, StatsSet};
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_scalar::Scalar;

pub fn tree_has(a: &Array, id: &str) -> bool {
    a.depth_first_traversal().any(|x| x.encoding().id().as_ref() == id)
}

/// what is claimed about a column, checked against its values; nulls are left out of everything but counts
pub fn check_stat(stat: Stat, s: &Scalar, col: &Col, exact: bool, leaf: bool) -> Res {
    let nn: Vec<&V> = col.vals.iter().filter(|v| !v.is_null()).collect();
    let n = col.len();
    let as_bool = || bool::try_from(s).map_err(|e| format!("{stat} is not a bool: {s:?} {}", e2s(e)));
    let as_n = || usize::try_from(s).map_err(|e| format!("{stat} is not a count: {s:?} {}", e2s(e)));
    let as_vec = || Vec::<u64>::try_from(s).map_err(|e| format!("{stat} is not a list of counts: {s:?} {}", e2s(e)));
    let sorted = nn.windows(2).all(|w| w[0].tcmp(w[1]) != Ordering::Greater);
    let strict = nn.windows(2).all(|w| w[0].tcmp(w[1]) == Ordering::Less);
    match stat {
        Stat::Min | Stat::Max => {
            if !s.dtype().eq_ignore_nullability(&col.ty.dtype()) {
                return Err(format!("{stat} has type {} in an array of {}", s.dtype(), col.ty.dtype()));
            }
            let v = scalar_to_v(s, &col.ty.with_null(true))?;
            if v.is_null() {
                return if nn.is_empty() { Ok(()) } else { Err(format!("{stat} is null but there are {} values", nn.len())) };
            }
            let want = if stat == Stat::Min { Ordering::Less } else { Ordering::Greater };
            if let Some(x) = nn.iter().find(|x| x.tcmp(&v) == want) {
                return Err(format!("{stat} is {v:?} but there is {x:?}"));
            }
            if exact && !nn.iter().any(|x| x.tcmp(&v) == Ordering::Equal) {
                return Err(format!("{stat} is {v:?}, which is not among the values"));
            }
        }
        Stat::IsConstant => {
            let b = as_bool()?;
            // merged from parts, 0.0 and -0.0 count as equal (the compressors look at the parts)
            let eq = all_equal(col) || (!leaf && nn.len() == n && nn.windows(2).all(|w| w[0].num_eq(w[1])));
            if b && !eq {
                return Err("is_constant is true".into());
            }
            if !b && leaf && n > 0 && all_equal(col) && !col.vals[0].is_nan() {
                return Err("is_constant is false".into());
            }
        }
        Stat::IsSorted => {
            let b = as_bool()?;
            if b != sorted && !(nn.is_empty() && n == 0) {
                return Err(format!("is_sorted is {b}"));
            }
        }
        Stat::IsStrictSorted => {
            let b = as_bool()?;
            if b && !strict || (!b && strict && nn.len() == n && n > 0) {
                return Err(format!("is_strict_sorted is {b}"));
            }
        }
        Stat::RunCount => {
            let r = as_n()?;
            let runs = if nn.is_empty() { 0 } else { 1 + nn.windows(2).filter(|w| w[0].tcmp(w[1]) != Ordering::Equal).count() };
            if r < runs {
                return Err(format!("run_count is {r} but there are {runs} runs"));
            }
            if leaf && r > runs && !nn.is_empty() {
                return Err(format!("run_count is {r} but there are only {runs} runs"));
            }
        }
        Stat::TrueCount => {
            let c = nn.iter().filter(|v| ***v == V::Bool(true)).count();
            if as_n()? != c {
                return Err(format!("true_count is {} not {c}", as_n()?));
            }
        }
        Stat::NullCount => {
            if as_n()? != col.nulls() {
                return Err(format!("null_count is {} not {}", as_n()?, col.nulls()));
            }
        }
        Stat::BitWidthFreq | Stat::TrailingZeroFreq => {
            let Ty::Prim(p, _) = &col.ty else { return Err(format!("{stat} of a {}", col.ty.dtype())) };
            let bits = p.byte_width() * 8;
            let got = as_vec()?;
            let mut exp = vec![0u64; bits + 1];
            for v in &col.vals {
                let i = match v {
                    V::I(x) => {
                        let u = (*x as u128) & (if bits == 64 { u64::MAX as u128 } else { (1u128 << bits) - 1 });
                        if stat == Stat::BitWidthFreq {
                            128 - u.leading_zeros() as usize
                        } else if u == 0 {
                            bits
                        } else {
                            u.trailing_zeros() as usize
                        }
                    }
                    V::Null => {
                        if stat == Stat::BitWidthFreq {
                            0
                        } else {
                            bits
                        }
                    }
                    // floats: the library counts every value as full width
                    _ => {
                        if stat == Stat::BitWidthFreq {
                            bits
                        } else {
                            0
                        }
                    }
                };
                exp[i] += 1;
            }
            if got != exp {
                return Err(format!("{stat} is {got:?} not {exp:?}"));
            }
        }
    }
    Ok(())
}

pub fn check_stats(g: &mut G, a: &Array, col: &Col, compute: bool, what: &str) -> Res {
    let exact = true;
    let id = enc_id(&a);
    let leaf = matches!(id.as_str(), "vortex.primitive" | "vortex.bool" | "vortex.varbin" | "vortex.varbinview" | "vortex.bytebool" | "vortex.roaring_bool");
    let mut any = false;
    for s in ALL_STATS {
        let v = if compute { a.statistics().compute(s) } else { a.statistics().get(s) };
        if let Some(v) = v {
            any = true;
            check_stat(s, &v, col, exact, leaf).map_err(|e| format!("{what} stat {s} | {id} ({}): {e}", col.ty.class()))?;
        }
    }
    if any && col.len() > 1 {
        g.nontrivial = true;
    }
    // the set of known statistics says the same
    for (s, v) in a.statistics().to_set() {
        check_stat(s, &v, col, exact, leaf).map_err(|e| format!("{what} stat set {s} | {id} ({}): {e}", col.ty.class()))?;
    }
    Ok(())
}

fn p_stats(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 1200, ..Default::default() };
    let (a, col, _) = gen_array(g, &cfg)?;
    check_stats(g, &a, &col, false, "built")?;
    check_stats(g, &a, &col, true, "computed")
}

/// statistics of arrays derived from arrays with known statistics
fn p_derived(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 600, ..Default::default() };
    let (mut a, mut col, _) = gen_array(g, &cfg)?;
    let k = g.range(1, 3);
    for _ in 0..k {
        if g.chance(3, 4) {
            g.note(|| "statistics computed".into());
            check_stats(g, &a, &col, true, "computed")?;
        }
        let id = enc_id(&a);
        let op = g.usize(5);
        match op {
            0 => {
                let x = g.range(0, col.len());
                let y = g.range(x, col.len());
                g.note(|| format!("slice {x}..{y} of {id}"));
                a = slice(&a, x, y).map_err(|e| format!("slice error | {id} {}", e2s(e)))?;
                col = col.slice(x, y);
            }
            1 => {
                let idx = gen_indices(g, col.len());
                let ia = idx_array(g, &idx, 0)?;
                g.note(|| format!("take {id} {:?}", &idx[..idx.len().min(40)]));
                a = take(&a, &ia).map_err(|e| format!("take error | {id} {}", e2s(e)))?;
                col = col.take(&idx);
            }
            2 => {
                let m = gen_bools(g, col.len());
                let ma = mask_array(g, &m, 0)?;
                g.note(|| format!("filter {id} {:?}", &m[..m.len().min(40)]));
                a = filter(&a, &ma).map_err(|e| format!("filter error | {id} {}", e2s(e)))?;
                col = col.filter(&m);
            }
            3 => {
                g.note(|| format!("ipc {id}"));
                a = ipc_roundtrip(&a)?;
            }
            _ => {
                g.note(|| format!("compress {id}"));
                let c = gen_compressor(g);
                a = c.compress(&a, None).map_err(|e| format!("compress error | {id} {}", e2s(e)))?.into_array();
            }
        }
        check_stats(g, &a, &col, false, ["sliced", "taken", "filtered", "ipc", "compressed"][op])?;
    }
    check_stats(g, &a, &col, true, "computed")
}

/// the known statistics of the parts of a column, merged, are true of the whole column
fn p_merge(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 60, depth: 1, structs: false, ..Default::default() };
    let col = gen_col(g, &cfg);
    let k = g.range(2, 4);
    let mut cuts: Vec<usize> = (1..k).map(|_| g.range(0, col.len())).collect();
    cuts.extend([0, col.len()]);
    cuts.sort();
    g.note(|| format!("column {col:?} cut at {cuts:?}"));
    // what is known of every part, or of each part for itself
    let all: Vec<bool> = ALL_STATS.iter().map(|_| g.chance(2, 3)).collect();
    let own = g.chance(1, 3);
    let mut sets = vec![];
    for c in cuts.windows(2) {
        let part = col.slice(c[0], c[1]);
        let (a, d) = build(g, &part, 1)?;
        let mut set = StatsSet::new();
        for (s, known) in ALL_STATS.iter().zip(&all) {
            if if own { g.chance(2, 3) } else { *known } {
                if let Some(v) = a.statistics().compute(*s) {
                    set.set(*s, v);
                }
            }
        }
        g.note(|| format!("part {d} {set:?}"));
        sets.push((set, part));
    }
    let mut sets = sets.into_iter();
    let (mut merged, mut whole) = sets.next().ok_or("no part")?;
    for (set, part) in sets {
        let before = merged.clone();
        merged.merge(&set);
        whole.vals.extend(part.vals.iter().cloned());
        for s in ALL_STATS {
            if let Some(v) = merged.get(s) {
                if whole.len() > 1 {
                    g.nontrivial = true;
                }
                if before.get(s).is_none() {
                    return Err(format!("merged stat {s} was not known of the first part"));
                }
                check_stat(s, v, &whole, true, false).map_err(|e| format!("merged stat {s} | {}: {e}", col.ty.class()))?;
            } else if matches!(s, Stat::Min | Stat::Max | Stat::NullCount | Stat::TrueCount) && before.get(s).is_some() && set.get(s).is_some() {
                return Err(format!("merged stat {s} is known of both parts, and of the whole no longer"));
            }
        }
    }
    Ok(())
}

fn bools_of(g: &mut G, n: usize, nullable: bool) -> (Validity, Vec<bool>) {
    match g.usize(if nullable { 6 } else { 1 }) {
        0 => (Validity::NonNullable, vec![true; n]),
        1 => (Validity::AllValid, vec![true; n]),
        2 => (Validity::AllInvalid, vec![false; n]),
        _ => {
            let m = gen_bools(g, n);
            let c = Col { ty: Ty::Bool(false), vals: m.iter().map(|b| V::Bool(*b)).collect() };
            match build(g, &c, 2) {
                Ok((a, _)) => (Validity::Array(a), m),
                Err(_) => (Validity::AllValid, vec![true; n]),
            }
        }
    }
}

fn check_v(v: &Validity, m: &[bool], what: &str) -> Res {
    for (i, b) in m.iter().enumerate() {
        if v.is_valid(i) != *b {
            return Err(format!("{what} is_valid | at {i} of {}: expected {b}", m.len()));
        }
    }
    let l = v.to_logical(m.len());
    if l.all_valid() && m.iter().any(|b| !*b) || l.all_invalid() && m.iter().any(|b| *b) {
        return Err(format!("{what} logical validity | {} {} claimed for {m:?}", l.all_valid(), l.all_invalid()));
    }
    let lv = lv_to_vec(l, m.len()).map_err(|e| format!("{what} to_logical: {e}"))?;
    if lv != m {
        return Err(format!("{what} logical validity | {lv:?} instead of {m:?}"));
    }
    let nb = v.to_logical(m.len()).to_null_buffer().map_err(|e| format!("{what} null buffer error: {}", e2s(e)))?;
    let nv: Vec<bool> = match nb {
        None => vec![true; m.len()],
        Some(b) => {
            if b.len() != m.len() {
                return Err(format!("{what} null buffer | length {} instead of {}", b.len(), m.len()));
            }
            b.iter().collect()
        }
    };
    if nv != m {
        return Err(format!("{what} null buffer | {nv:?} instead of {m:?}"));
    }
    Ok(())
}

fn p_validity(g: &mut G) -> Res {
    let n = gen_len(g, 300);
    let (v, m) = bools_of(g, n, true);
    g.note(|| format!("validity {v:?} {m:?}"));
    check_v(&v, &m, "built")?;
    if m.iter().any(|b| *b) && m.iter().any(|b| !*b) {
        g.nontrivial = true;
    }
    let isnl = |v: &Validity| v.nullability();
    match g.usize(6) {
        0 => {
            let x = g.range(0, n);
            let y = g.range(x, n);
            g.note(|| format!("slice {x}..{y}"));
            let s = v.slice(x, y).map_err(|e| format!("validity slice error | {}", e2s(e)))?;
            check_v(&s, &m[x..y], "sliced")
        }
        1 => {
            let idx = gen_indices(g, n);
            let ia = idx_array(g, &idx, 2)?;
            let t = v.take(&ia).map_err(|e| format!("validity take error | {}", e2s(e)))?;
            check_v(&t, &idx.iter().map(|i| m[*i]).collect::<Vec<_>>(), "taken")
        }
        2 => {
            let k = gen_bools(g, n);
            let ka = mask_array(g, &k, 2)?;
            let f = v.filter(&ka).map_err(|e| format!("validity filter error | {}", e2s(e)))?;
            check_v(&f, &m.iter().zip(&k).filter(|x| *x.1).map(|x| *x.0).collect::<Vec<_>>(), "filtered")
        }
        3 => {
            let (w, mw) = bools_of(g, n, true);
            g.note(|| format!("and {w:?} {mw:?}"));
            let r = v.clone().and(w.clone()).map_err(|e| format!("validity and error | {}", e2s(e)))?;
            let exp: Vec<bool> = m.iter().zip(&mw).map(|(a, b)| *a && *b).collect();
            check_v(&r, &exp, "and")?;
            if isnl(&v) == vortex_dtype::Nullability::Nullable && isnl(&r) != vortex_dtype::Nullability::Nullable {
                return Err("and | lost nullability".into());
            }
            let eq = v == w;
            if !matches!(v, Validity::NonNullable) && !matches!(w, Validity::NonNullable) && eq && m != mw {
                return Err("eq | different validities are equal".into());
            }
            Ok(())
        }
        4 => {
            let r = v.clone().into_nullable();
            if isnl(&r) != vortex_dtype::Nullability::Nullable {
                return Err("into_nullable | not nullable".into());
            }
            check_v(&r, &m, "into_nullable")
        }
        _ => {
            // rebuilt from booleans and from logical validities
            check_v(&Validity::from(m.clone()), &m, "from bools")?;
            let parts = g.range(0, 4);
            let mut ls = vec![];
            let mut all = vec![];
            for _ in 0..parts {
                let k = gen_len(g, 80);
                let (w, mw) = bools_of(g, k, true);
                ls.push(w.to_logical(k));
                all.extend(mw);
            }
            g.note(|| format!("from_iter {} parts {all:?}", ls.len()));
            check_v(&Validity::from_iter(ls), &all, "from parts")
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "column of length >= 2 for which the array reports at least one statistic",
            assumptions: &["is_constant = false is accepted for constant columns outside plain arrays (it only costs speed)", "run_count of chunked arrays is documented as an upper bound"],
            subs: vec![
                Sub { name: "stats", f: p_stats, quick: 180000, thorough: 1000000 },
                Sub { name: "derived", f: p_derived, quick: 120000, thorough: 600000 },
                Sub { name: "merge", f: p_merge, quick: 120000, thorough: 600000 },
            ],
            known: vec![],
        },
        Prop {
            id: "C12",
            rule: "validity with both valid and invalid positions",
            assumptions: &[],
            subs: vec![Sub { name: "validity", f: p_validity, quick: 360000, thorough: 1500000 }],
            known: vec![],
        },
    ]
}
