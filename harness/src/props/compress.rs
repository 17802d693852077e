//! C01: compression loses nothing
use super::arrays::*;
use super::stats::check_stats;
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;
use crate::{Prop, Sub};
use vortex::array::{ChunkedArray, StructArray};
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, IntoArray};

fn tree_of(a: &Array) -> String {
    let mut v: Vec<String> = a.depth_first_traversal().map(|x| enc_id(&x)).collect();
    v.dedup();
    v.truncate(12);
    v.join(">")
}

fn check_compressed(g: &mut G, c: &Array, src: &Array, col: &Col) -> Res {
    let t = tree_of(c);
    g.note(|| format!("compressed to {t}"));
    for id in t.split('>') {
        g.label(format!("out:{}", id.split('(').next().unwrap_or("")));
    }
    if c.dtype() != src.dtype() {
        return Err(format!("compress dtype | {} became {}", src.dtype(), c.dtype()));
    }
    if col.len() >= 2 && c.encoding().id() != src.encoding().id() {
        g.nontrivial = true;
    }
    check_all(g, c, col).map_err(|e| format!("compressed {} | {e}", c.encoding().id()))?;
    check_stats(g, c, col, false, "compressed")
}

/// any array, any compressor
fn p_any(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 3000, ..Default::default() };
    let (a, col, _) = gen_array(g, &cfg)?;
    if g.chance(1, 3) {
        super::ops::warm_stats(g, &a);
    }
    let c = gen_compressor(g);
    g.note(|| format!("compressor {c:?}").chars().take(300).collect());
    let mut r = c.compress(&a, None).map_err(|e| format!("compress error | {}: {}", a.encoding().id(), e2s(e)))?.into_array();
    check_compressed(g, &r, &a, &col)?;
    if g.chance(1, 4) {
        let c2 = gen_compressor(g);
        g.note(|| format!("again with {c2:?}").chars().take(300).collect());
        r = c2.compress(&r, None).map_err(|e| format!("recompress error | {}: {}", r.encoding().id(), e2s(e)))?.into_array();
        check_compressed(g, &r, &a, &col)?;
    }
    Ok(())
}

/// values of one shape with a few of another: a sample of the array misses what is rare
fn contaminated(g: &mut G, ty: &Ty, n: usize) -> Vec<V> {
    let mut v = gen_vals(g, ty, n);
    if n > 0 && g.chance(3, 4) {
        let k = g.range(1, 4);
        let o = gen_vals(g, ty, k);
        for x in o {
            let i = g.usize(n);
            let l = if g.chance(1, 4) { g.range(1, 40) } else { 1 };
            for j in i..(i + l).min(n) {
                v[j] = x.clone();
            }
        }
    }
    v
}

fn large_ty(g: &mut G) -> Ty {
    let c = Cfg { structs: false, null_ty: false, ..Default::default() };
    gen_ty(g, &c)
}

fn p_sampled(g: &mut G) -> Res {
    let ty = large_ty(g);
    let n = match g.weighted(&[6, 3, 1]) {
        0 => g.range(1025, 2500),
        1 => g.range(2500, 6000),
        _ => g.range(6000, 70000),
    };
    let vals = contaminated(g, &ty, n);
    let col = Col { ty, vals };
    label_col(g, &col);
    g.note(|| format!("column {col:?}"));
    let (a, d) = if g.chance(3, 4) { build_plain(g, &col, 1)? } else { build(g, &col, 1)? };
    g.note(|| format!("array {d}"));
    let c = gen_compressor(g);
    g.note(|| format!("compressor {c:?}").chars().take(300).collect());
    let r = c.compress(&a, None).map_err(|e| format!("compress error | {}: {}", a.encoding().id(), e2s(e)))?.into_array();
    check_compressed(g, &r, &a, &col)
}

/// a compression plan found on one array reused for another of the same type
fn p_like(g: &mut G) -> Res {
    let c = Cfg { null_ty: false, ..Default::default() };
    let ty = gen_ty(g, &c);
    let comp = gen_compressor(g);
    g.note(|| format!("compressor {comp:?}").chars().take(300).collect());
    let k = g.range(2, 4);
    let mut tree = None;
    for i in 0..k {
        let n = gen_len(g, 1500);
        let vals = if i > 0 && g.chance(1, 3) { contaminated(g, &ty, n) } else { gen_vals(g, &ty, n) };
        let col = Col { ty: ty.clone(), vals };
        label_col(g, &col);
        g.note(|| format!("column {col:?}"));
        let (a, d) = if g.chance(2, 3) { build_plain(g, &col, 1)? } else { build(g, &col, 1)? };
        g.note(|| format!("array {d} like {tree:?}"));
        let r = comp
            .compress(&a, tree.as_ref())
            .map_err(|e| format!("compress like error | {}: {}", a.encoding().id(), e2s(e)))?;
        let (r, t) = r.into_parts();
        check_compressed(g, &r, &a, &col).map_err(|e| if tree.is_some() { format!("like {e}") } else { e })?;
        if t.is_some() {
            tree = t;
        }
    }
    Ok(())
}

/// chunks of different shapes (the compressor reuses the plan of the chunk before), in structs too
fn p_chunked(g: &mut G) -> Res {
    let c = Cfg { null_ty: false, structs: false, ..Default::default() };
    let nf = g.range(1, 3);
    let tys: Vec<Ty> = (0..nf).map(|_| gen_ty(g, &c)).collect();
    let k = g.range(1, 5);
    let lens: Vec<usize> = (0..k).map(|_| gen_len(g, 700)).collect();
    let mut cols: Vec<Col> = tys.iter().map(|t| Col { ty: t.clone(), vals: vec![] }).collect();
    let mut chunks: Vec<Vec<Array>> = vec![vec![]; nf];
    for l in &lens {
        for f in 0..nf {
            let vals = contaminated(g, &tys[f], *l);
            let col = Col { ty: tys[f].clone(), vals };
            let (a, d) = if g.bool() { build_plain(g, &col, 1)? } else { build(g, &col, 1)? };
            g.note(|| format!("f{f} chunk {d} {col:?}"));
            cols[f].vals.extend(col.vals);
            chunks[f].push(a);
        }
    }
    let n: usize = lens.iter().sum();
    let st = nf > 1 || g.bool();
    let (a, col) = if !st {
        (ChunkedArray::try_new(chunks[0].clone(), tys[0].dtype()).map_err(e2s)?.into_array(), cols[0].clone())
    } else {
        let fs: Vec<(String, Ty)> = tys.iter().enumerate().map(|(i, t)| (format!("f{i}"), t.clone())).collect();
        let sty = Ty::Struct(fs, false);
        let names: vortex_dtype::FieldNames = (0..nf).map(|i| format!("f{i}").into()).collect::<Vec<_>>().into();
        let vals = (0..n).map(|i| V::Struct(cols.iter().map(|c| c.vals[i].clone()).collect())).collect();
        let a = if g.bool() {
            // struct of chunked columns
            let fields = (0..nf)
                .map(|f| Ok(ChunkedArray::try_new(chunks[f].clone(), tys[f].dtype()).map_err(e2s)?.into_array()))
                .collect::<Result<Vec<_>, String>>()?;
            StructArray::try_new(names, fields, n, Validity::NonNullable).map_err(e2s)?.into_array()
        } else {
            // chunks of structs
            let parts = (0..k)
                .map(|i| {
                    let fields = (0..nf).map(|f| chunks[f][i].clone()).collect();
                    Ok(StructArray::try_new(names.clone(), fields, lens[i], Validity::NonNullable).map_err(e2s)?.into_array())
                })
                .collect::<Result<Vec<_>, String>>()?;
            ChunkedArray::try_new(parts, sty.dtype()).map_err(e2s)?.into_array()
        };
        (a, Col { ty: sty, vals })
    };
    let comp = gen_compressor(g);
    g.note(|| format!("compressor {comp:?}").chars().take(300).collect());
    let r = comp.compress(&a, None).map_err(|e| format!("compress error | {}: {}", a.encoding().id(), e2s(e)))?.into_array();
    check_compressed(g, &r, &a, &col)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C01",
        rule: "array of length >= 2 whose encoding the compressor changed",
        assumptions: &[],
        subs: vec![
            Sub { name: "any", f: p_any, quick: 45000, thorough: 600000 },
            Sub { name: "sampled", f: p_sampled, quick: 7500, thorough: 80000 },
            Sub { name: "like", f: p_like, quick: 24000, thorough: 300000 },
            Sub { name: "chunked", f: p_chunked, quick: 12000, thorough: 150000 },
        ],
        known: vec![],
    }]
}
