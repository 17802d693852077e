//! C14, C15: the file format: writing, reading back, projection, row filters, batches
use super::arrays::*;
use super::ipc::{concat, tmpfile};
use super::ops::{cmp_model, OPS};
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;
use crate::{Known, Prop, Sub};
use bytes::BytesMut;
use futures::executor::block_on;
use futures::StreamExt;
use std::sync::Arc;
use vortex::array::ChunkedArray;
use vortex::compute::Operator as AOp;
use vortex::stream::ArrayStreamAdapter;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_buffer::Buffer;
use vortex_dtype::field::Field;
use vortex_expr::{BinaryExpr, Column, Literal, Operator, VortexExpr};
use vortex_serde::io::VortexReadAt;
use vortex_serde::layouts::{LayoutContext, LayoutDeserializer, LayoutReaderBuilder, LayoutWriter, Projection, RowFilter};

pub struct FileCase {
    pub ty: Ty,
    pub bytes: Vec<u8>,
    pub all: Col,
    pub chunks: usize,
}

const NAMES: [&str; 12] = ["a", "b", "c", "d", "", "A", "a_min", "f.0", "ключ", "a b", "0", "$a"];

pub fn serde_ctx() -> LayoutDeserializer {
    LayoutDeserializer::new(ctx(), Arc::new(LayoutContext::default()))
}

pub fn gen_struct_ty(g: &mut G, cfg: &Cfg, max: usize) -> Ty {
    let k = if g.chance(1, 40) {
        // a file of no columns: KF3
        g.excluded += 1;
        1
    } else {
        g.range(1, max)
    };
    let mut names: Vec<&str> = NAMES.to_vec();
    let mut fs = vec![];
    for i in 0..k {
        let j = if g.chance(2, 3) { i.min(names.len() - 1) } else { g.usize(names.len()) };
        let n = if j < names.len() { names.remove(j.min(names.len() - 1)) } else { names.remove(0) };
        fs.push((n.to_string(), gen_ty(g, cfg)));
    }
    Ty::Struct(fs, false)
}

/// the struct arrays to be written, their columns, and the arrays' shapes noted
pub fn gen_batches(g: &mut G, ty: &Ty, cfg: &Cfg, max: usize) -> Result<(Vec<Array>, Vec<Col>), String> {
    let k = if g.chance(1, 12) { 0 } else { g.range(1, max) };
    let mut arrays = vec![];
    let mut cols = vec![];
    for _ in 0..k {
        let n = gen_len(g, cfg.max_len);
        let col = Col { ty: ty.clone(), vals: gen_vals(g, ty, n) };
        label_col(g, &col);
        let (a, d) = build_plain(g, &col, cfg.depth)?;
        g.note(|| format!("batch {d}: {col:?}"));
        arrays.push(a);
        cols.push(col);
    }
    Ok((arrays, cols))
}

pub async fn write_file<W: vortex_serde::io::VortexWrite>(w: W, dt: vortex_dtype::DType, arrays: Vec<Array>, how: usize) -> Result<W, String> {
    let mut w = LayoutWriter::new(w);
    match how {
        0 if arrays.len() == 1 => w = w.write_array_columns(arrays[0].clone()).await.map_err(e2s)?,
        1 => {
            let c = ChunkedArray::try_new(arrays, dt).map_err(e2s)?.into_array();
            w = w.write_array_columns(c).await.map_err(e2s)?
        }
        2 if !arrays.is_empty() => {
            for a in arrays {
                w = w.write_array_columns(a).await.map_err(e2s)?;
            }
        }
        _ => {
            let s = ArrayStreamAdapter::new(dt, futures::stream::iter(arrays.into_iter().map(Ok)));
            w = w.write_array_columns_stream(s).await.map_err(e2s)?
        }
    }
    w.finalize().await.map_err(e2s)
}

pub fn write_any(g: &mut G, ty: &Ty, arrays: Vec<Array>) -> Result<Vec<u8>, String> {
    let how = g.usize(4);
    let seed = g.u64();
    if g.chance(3, 4) {
        block_on(write_file(Vec::<u8>::new(), ty.dtype(), arrays, how))
    } else {
        let s = super::ipc::Sink { out: vec![], rng: Rng::new(seed), max: 100, hold: g.bool(), ..Default::default() };
        Ok(block_on(write_file(vortex_serde::io::TokioAdapter(s), ty.dtype(), arrays, how))?.0.out)
    }
}

pub fn gen_file(g: &mut G, cfg: &Cfg) -> Result<FileCase, String> {
    let ty = gen_struct_ty(g, cfg, 5);
    let (arrays, cols) = gen_batches(g, &ty, cfg, 4)?;
    let chunks = arrays.len();
    let bytes = write_any(g, &ty, arrays).map_err(|e| format!("write error | {e}"))?;
    Ok(FileCase { all: concat(&ty, &cols), ty, bytes, chunks })
}

/// a positional reader whose reads finish when they like, in any order, or fail
pub struct SlowReader {
    pub data: Arc<Vec<u8>>,
    pub seed: u64,
    pub n: std::sync::atomic::AtomicU64,
    /// the reads (by count) that fail
    pub fail: Option<u64>,
}
struct Delay(u64);
impl std::future::Future for Delay {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 == 0 {
            return std::task::Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}
impl VortexReadAt for SlowReader {
    async fn read_at_into(&self, pos: u64, buffer: BytesMut) -> std::io::Result<BytesMut> {
        let k = self.n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Delay(mix(self.seed ^ k) % 5).await;
        if self.fail == Some(k) {
            use std::io::ErrorKind::*;
            let kind = [TimedOut, UnexpectedEof, Interrupted, WouldBlock, Other, NotFound][(mix(self.seed ^ 77) % 6) as usize];
            return Err(std::io::Error::new(kind, "injected"));
        }
        self.data.as_slice().read_at_into(pos, buffer).await
    }
    async fn size(&self) -> u64 {
        self.data.len() as u64
    }
}

#[derive(Clone, Default)]
pub struct ReadOpts {
    pub proj: Option<Projection>,
    pub filter: Option<Arc<dyn VortexExpr>>,
    pub batch: Option<usize>,
    pub with_size: bool,
    /// everything at once
    pub all: bool,
}

async fn read_file<R: VortexReadAt + Unpin + Send + 'static>(r: R, o: ReadOpts, size: u64, limit: usize) -> Result<(vortex_dtype::DType, Vec<Array>), String> {
    let mut b = LayoutReaderBuilder::new(r, serde_ctx());
    if let Some(p) = o.proj {
        b = b.with_projection(p);
    }
    if let Some(f) = o.filter {
        b = b.with_row_filter(RowFilter::new(f));
    }
    if let Some(n) = o.batch {
        b = b.with_batch_size(n);
    }
    if o.with_size {
        b = b.with_size(size);
    }
    let mut s = b.build().await.map_err(|e| format!("open | {}", e2s(e)))?;
    let dt = s.schema().dtype().clone();
    if o.all {
        return Ok((dt, vec![s.read_all().await.map_err(|e| format!("read_all | {}", e2s(e)))?]));
    }
    let mut out = vec![];
    while let Some(a) = s.next().await {
        match a {
            Ok(a) => out.push(a),
            Err(e) => {
                after_error(&mut s).await?;
                return Err(format!("next | {}", e2s(e)));
            }
        }
        if out.len() > limit {
            return Err("endless | more batches than rows".into());
        }
    }
    Ok((dt, out))
}

/// An error ends a scan
pub async fn after_error<S: futures::Stream<Item = vortex_error::VortexResult<Array>> + Unpin>(s: &mut S) -> Result<(), String> {
    for _ in 0..4 {
        match s.next().await {
            None => return Ok(()),
            Some(Ok(a)) => return Err(format!("harness: {} rows after an error", a.len())),
            Some(Err(_)) => {}
        }
    }
    Err("harness: errors without end".into())
}

pub fn read_any(g: &mut G, bytes: &[u8], o: ReadOpts, limit: usize) -> Result<(vortex_dtype::DType, Vec<Array>), String> {
    let k = g.usize(5);
    let n = bytes.len() as u64;
    g.label(format!("reader:{}", ["vec", "buffer", "slow", "file", "object_store"][k]));
    match k {
        0 => block_on(read_file(bytes.to_vec(), o, n, limit)),
        1 => block_on(read_file(Buffer::from(bytes.to_vec()), o, n, limit)),
        2 => {
            let r = SlowReader { data: Arc::new(bytes.to_vec()), seed: g.u64(), n: Default::default(), fail: None };
            block_on(read_file(r, o, n, limit))
        }
        3 => {
            use std::io::Write;
            let rt = tokio::runtime::Builder::new_current_thread().build().map_err(|e| e.to_string())?;
            let mut f = tmpfile().map_err(|e| e.to_string())?;
            f.write_all(bytes).map_err(|e| e.to_string())?;
            rt.block_on(read_file(tokio::fs::File::from_std(f), o, n, limit))
        }
        _ => {
            use object_store::{memory::InMemory, path::Path, ObjectStore, PutPayload};
            let st: Arc<dyn ObjectStore> = Arc::new(InMemory::new());
            let p = Path::from("x/y");
            block_on(async {
                st.put(&p, PutPayload::from(bytes.to_vec())).await.map_err(|e| e.to_string())?;
                read_file(vortex_serde::io::ObjectStoreReadAt::new(st.clone(), p), o, n, limit).await
            })
        }
    }
}

/// a choice of fields (positions), and how it is asked for
pub fn gen_projection(g: &mut G, ty: &Ty) -> (Vec<usize>, Option<Projection>) {
    let Ty::Struct(fs, _) = ty else { panic!("harness: not a struct") };
    let n = fs.len();
    match g.usize(4) {
        0 => ((0..n).collect(), if g.bool() { None } else { Some(Projection::All) }),
        _ => {
            let mut order: Vec<usize> = (0..n).collect();
            let mut r = g.bulk();
            for i in (1..n).rev() {
                order.swap(i, r.below(i as u64 + 1) as usize);
            }
            if g.chance(1, 3) {
                order.sort();
            }
            let k = if n == 0 || g.chance(1, 20) { 0 } else { g.range(1, n) };
            order.truncate(k);
            let p = order
                .iter()
                .map(|i| if g.bool() { Field::Index(*i) } else { Field::Name(fs[*i].0.clone()) })
                .collect::<Vec<_>>();
            (order, Some(Projection::Flat(p)))
        }
    }
}

pub fn project(col: &Col, order: &[usize]) -> Col {
    let Ty::Struct(fs, nl) = &col.ty else { panic!("harness: not a struct") };
    Col {
        ty: Ty::Struct(order.iter().map(|i| fs[*i].clone()).collect(), *nl),
        vals: col
            .vals
            .iter()
            .map(|v| match v {
                V::Struct(x) => V::Struct(order.iter().map(|i| x[*i].clone()).collect()),
                _ => V::Null,
            })
            .collect(),
    }
}

pub fn gen_batch_size(g: &mut G, n: usize) -> Option<usize> {
    match g.usize(5) {
        0 => None,
        1 => Some(g.range(1, 8)),
        2 => Some(g.range(1, n.max(1))),
        3 => Some(*g.pick(&[64, 63, 65, 128, 1024, 100])),
        _ => Some((n / g.range(1, 4)).max(1)),
    }
}

pub fn check_batches(g: &mut G, got: &(vortex_dtype::DType, Vec<Array>), exp: &Col, batch: Option<usize>) -> Res {
    let dt = exp.ty.dtype();
    if got.0 != dt {
        return Err(format!("schema | {} instead of {dt}", got.0));
    }
    let sizes: Vec<usize> = got.1.iter().map(|a| a.len()).collect();
    let total: usize = sizes.iter().sum();
    if total != exp.len() {
        return Err(format!("rows | {total} instead of {} {:?}", exp.len(), &sizes[..sizes.len().min(30)]));
    }
    let b = batch.unwrap_or(vortex_serde::layouts::DEFAULT_BATCH_SIZE);
    if let Some(s) = sizes.iter().find(|s| **s > b) {
        return Err(format!("batch size | {s} rows with a batch size of {b}"));
    }
    let mut at = 0;
    for (i, a) in got.1.iter().enumerate() {
        let c = exp.slice(at, at + sizes[i]);
        at += sizes[i];
        if i < 30 || i + 3 > sizes.len() {
            check_all(g, a, &c).map_err(|e| format!("values | {e}"))?;
        }
    }
    Ok(())
}

/// no rows of an extension type at once: KF1
fn all_at_once(g: &mut G, exp: &Col) -> bool {
    let all = g.chance(1, 8);
    if all && exp.vals.is_empty() && exp.ty.has_ext() {
        g.excluded += 1;
        return false;
    }
    all
}

fn p_roundtrip(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 700, ..Default::default() };
    let f = gen_file(g, &cfg)?;
    let (order, proj) = gen_projection(g, &f.ty);
    let batch = gen_batch_size(g, f.all.len());
    g.note(|| format!("project {proj:?} batch {batch:?}"));
    let exp = project(&f.all, &order);
    if f.all.len() >= 2 && order.len() >= 2 && f.chunks >= 1 {
        g.nontrivial = true;
    }
    let o = ReadOpts { proj, filter: None, batch, with_size: g.bool(), all: all_at_once(g, &exp) };
    let batch = if o.all { Some(usize::MAX) } else { batch };
    let got = read_any(g, &f.bytes, o, f.all.len() + 10).map_err(|e| format!("read error | {e}"))?;
    check_batches(g, &got, &exp, batch)
}

/// files whose footer exceeds the initial read, and files of very many chunks
fn p_large(g: &mut G) -> Res {
    use vortex::array::PrimitiveArray;
    use vortex::validity::Validity;
    use vortex::variants::StructArrayTrait;
    use vortex::IntoArrayVariant;
    let many = g.bool();
    let chunks = if many { g.range(1000, 4000) } else { g.usize(4) };
    let name = if many { "c".to_string() } else { "n".repeat(g.range((8 << 20) - 2000, (8 << 20) + 2000)) };
    let ty = Ty::Struct(vec![(name.clone(), Ty::Prim(vortex_dtype::PType::I32, false))], false);
    let dt = ty.dtype();
    let step = g.range(0, 2);
    let mut arrays = vec![];
    let mut vals = vec![];
    for i in 0..chunks {
        let n = if i == 7 || i + 3 == chunks { 2 } else { (i * step) % 2 };
        let c: Vec<i32> = (0..n).map(|j| (i * 10 + j) as i32).collect();
        vals.extend(c.iter().cloned());
        arrays.push(
            vortex::array::StructArray::try_new([name.as_str().into()].into(), vec![PrimitiveArray::from(c).into_array()], n, Validity::NonNullable)
                .map_err(e2s)?
                .into_array(),
        );
    }
    g.note(|| format!("{chunks} chunks, name of {} bytes, rows {}", name.len(), vals.len()));
    g.nontrivial = vals.len() >= 2;
    let how = g.usize(2);
    let bytes = block_on(write_file(Vec::<u8>::new(), dt, arrays, how))?;
    let batch = if g.bool() { None } else { Some(g.range(1, 3000)) };
    let o = ReadOpts { proj: None, filter: None, batch, with_size: g.bool(), all: g.chance(1, 8) };
    let (_, got) = block_on(read_file(bytes.clone(), o, bytes.len() as u64, vals.len() + 10)).map_err(|e| format!("read error | {e}"))?;
    let mut out = vec![];
    for a in &got {
        let s = a.clone().into_struct().map_err(e2s)?;
        let c = s.field(0).ok_or("no column")?.into_primitive().map_err(e2s)?;
        out.extend_from_slice(c.maybe_null_slice::<i32>());
    }
    if out != vals {
        let i = out.iter().zip(&vals).position(|(a, b)| a != b).unwrap_or(out.len().min(vals.len()));
        return Err(format!("{} rows instead of {}, first difference at row {i}", out.len(), vals.len()));
    }
    Ok(())
}

/// a row predicate over the fields of a struct
#[derive(Clone, Debug)]
pub enum Pred {
    Cmp(usize, AOp, Box<Rhs>, bool),
    Flag(usize),
    Lit(bool),
    And(Box<Pred>, Box<Pred>),
    Or(Box<Pred>, Box<Pred>),
}
#[derive(Clone, Debug)]
pub enum Rhs {
    Lit(V),
    Col(usize),
}

pub fn gen_pred(g: &mut G, col: &Col, depth: u32) -> Option<Pred> {
    let Ty::Struct(fs, _) = &col.ty else { panic!("harness: not a struct") };
    if depth > 0 && g.chance(1, 2) {
        let (a, b) = (gen_pred(g, col, depth - 1)?, gen_pred(g, col, depth - 1)?);
        return Some(if g.chance(2, 3) { Pred::And(Box::new(a), Box::new(b)) } else { Pred::Or(Box::new(a), Box::new(b)) });
    }
    if g.chance(1, 40) {
        return Some(Pred::Lit(g.bool()));
    }
    let flags: Vec<usize> = (0..fs.len()).filter(|i| matches!(fs[*i].1, Ty::Bool(_))).collect();
    if !flags.is_empty() && g.chance(1, 3) {
        return Some(Pred::Flag(*g.pick(&flags)));
    }
    let cmp: Vec<usize> = (0..fs.len()).filter(|i| !matches!(fs[*i].1, Ty::Struct(..) | Ty::Null | Ty::Ext(..))).collect();
    if cmp.is_empty() {
        return None;
    }
    let c = *g.pick(&cmp);
    let op = *g.pick(&OPS);
    let same: Vec<usize> = cmp.iter().copied().filter(|i| *i != c && fs[*i].1.with_null(false) == fs[c].1.with_null(false)).collect();
    if !same.is_empty() && g.bool() {
        return Some(Pred::Cmp(c, op, Box::new(Rhs::Col(*g.pick(&same))), false));
    }
    let fc = col.field(c);
    let v = if fc.len() > 0 && g.chance(3, 4) { fc.vals[g.usize(fc.len())].clone() } else { gen_vals(g, &fs[c].1, 1).pop().unwrap() };
    let v = if v.is_null() && !g.chance(1, 6) { gen_nn(g, &fs[c].1, 1).pop().unwrap() } else { v };
    Some(Pred::Cmp(c, op, Box::new(Rhs::Lit(v)), g.chance(1, 4)))
}

fn op3(op: AOp) -> Operator {
    match op {
        AOp::Eq => Operator::Eq,
        AOp::NotEq => Operator::NotEq,
        AOp::Gt => Operator::Gt,
        AOp::Gte => Operator::Gte,
        AOp::Lt => Operator::Lt,
        AOp::Lte => Operator::Lte,
    }
}

impl Pred {
    pub fn refs(&self, s: &mut Vec<usize>) {
        match self {
            Pred::Cmp(c, _, r, _) => {
                s.push(*c);
                if let Rhs::Col(d) = &**r {
                    s.push(*d)
                }
            }
            Pred::Flag(c) => s.push(*c),
            Pred::Lit(_) => {}
            Pred::And(a, b) | Pred::Or(a, b) => {
                a.refs(s);
                b.refs(s)
            }
        }
    }
    /// the value for one row
    pub fn eval(&self, row: &[V]) -> V {
        match self {
            Pred::Cmp(c, op, r, swap) => {
                let o = match &**r {
                    Rhs::Lit(v) => v,
                    Rhs::Col(d) => &row[*d],
                };
                if *swap {
                    cmp_model(o, &row[*c], *op)
                } else {
                    cmp_model(&row[*c], o, *op)
                }
            }
            Pred::Flag(c) => row[*c].clone(),
            Pred::Lit(b) => V::Bool(*b),
            Pred::And(a, b) => super::query::logic(true, &a.eval(row), &b.eval(row)),
            Pred::Or(a, b) => super::query::logic(false, &a.eval(row), &b.eval(row)),
        }
    }
    pub fn expr(&self, ty: &Ty, by_index: &mut dyn FnMut() -> bool) -> Arc<dyn VortexExpr> {
        let Ty::Struct(fs, _) = ty else { panic!("harness: not a struct") };
        let mut column = |i: usize| -> Arc<dyn VortexExpr> {
            Arc::new(Column::new(if by_index() { Field::Index(i) } else { Field::Name(fs[i].0.clone()) }))
        };
        match self {
            Pred::Cmp(c, op, r, swap) => {
                let l = column(*c);
                let r: Arc<dyn VortexExpr> = match &**r {
                    Rhs::Col(d) => column(*d),
                    Rhs::Lit(v) => Arc::new(Literal::new(v_to_scalar(v, &fs[*c].1.with_null(v.is_null() || fs[*c].1.nullable())))),
                };
                if *swap {
                    Arc::new(BinaryExpr::new(r, op3(*op), l))
                } else {
                    Arc::new(BinaryExpr::new(l, op3(*op), r))
                }
            }
            Pred::Flag(c) => column(*c),
            Pred::Lit(b) => Arc::new(Literal::new((*b).into())),
            Pred::And(a, b) => Arc::new(BinaryExpr::new(a.expr(ty, by_index), Operator::And, b.expr(ty, by_index))),
            Pred::Or(a, b) => Arc::new(BinaryExpr::new(a.expr(ty, by_index), Operator::Or, b.expr(ty, by_index))),
        }
    }
}

pub fn rows_where(col: &Col, p: &Pred) -> Vec<bool> {
    col.vals
        .iter()
        .map(|v| match v {
            V::Struct(row) => p.eval(row) == V::Bool(true),
            _ => false,
        })
        .collect()
}

fn p_filter(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 500, structs: false, ..Default::default() };
    let f = gen_file(g, &cfg)?;
    let Some(pred) = gen_pred(g, &f.all, 3) else {
        return Ok(());
    };
    let (order, proj) = gen_projection(g, &f.ty);
    let batch = gen_batch_size(g, f.all.len());
    g.note(|| format!("where {pred:?} project {proj:?} batch {batch:?}"));
    let mask = rows_where(&f.all, &pred);
    let exp = project(&f.all.filter(&mask), &order);
    if exp.len() > 0 && exp.len() < f.all.len() && !order.is_empty() {
        g.nontrivial = true;
    }
    let idx = g.chance(1, 4);
    let mut by = || idx;
    let o = ReadOpts { proj, filter: Some(pred.expr(&f.ty, &mut by)), batch, with_size: g.bool(), all: all_at_once(g, &exp) };
    let batch = if o.all { Some(usize::MAX) } else { batch };
    let got = read_any(g, &f.bytes, o, f.all.len() + 10).map_err(|e| format!("read error | {e}"))?;
    check_batches(g, &got, &exp, batch)
}

/// reading as Arrow record batches
struct Rt;
impl vortex_serde::layouts::AsyncRuntime for Rt {
    fn block_on<F: std::future::Future>(&self, fut: F) -> F::Output {
        block_on(fut)
    }
}

fn p_record_batches(g: &mut G) -> Res {
    use arrow_array::RecordBatchReader;
    let cfg = Cfg { max_len: 300, ..Default::default() };
    let f = gen_file(g, &cfg)?;
    let (order, proj) = gen_projection(g, &f.ty);
    let batch = gen_batch_size(g, f.all.len());
    g.note(|| format!("project {proj:?} batch {batch:?}"));
    let exp = project(&f.all, &order);
    if f.all.len() >= 2 && order.len() >= 2 {
        g.nontrivial = true;
    }
    let mut b = LayoutReaderBuilder::new(f.bytes.clone(), serde_ctx());
    if let Some(p) = proj {
        b = b.with_projection(p);
    }
    if let Some(n) = batch {
        b = b.with_batch_size(n);
    }
    let s = block_on(b.build()).map_err(|e| format!("open | {}", e2s(e)))?;
    let rd = match vortex_serde::layouts::VortexRecordBatchReader::new(s, &Rt) {
        Ok(r) => r,
        Err(e) => {
            if exp.ty.has(&|t| is_custom_ext(t)) {
                g.label("no_arrow_type");
                return Ok(());
            }
            return Err(format!("record batch reader | {}", e2s(e)));
        }
    };
    let schema = rd.schema();
    let mut vals = vec![];
    let mut n = 0;
    for b in rd {
        let b = b.map_err(|e| format!("record batch | {e}"))?;
        if b.schema() != schema {
            return Err(format!("record batch schema | {:?} instead of {:?}", b.schema(), schema));
        }
        let sa = arrow_array::StructArray::from(b);
        vals.extend(arrow_vals(&sa, &exp.ty).map_err(|e| format!("record batch values | {e}"))?);
        n += 1;
        if n > f.all.len() + 10 {
            return Err("endless | more batches than rows".into());
        }
    }
    match diff(&exp.vals, &vals) {
        None => Ok(()),
        Some(d) => Err(format!("record batches | {d}")),
    }
}

fn kf_nullable_struct() -> Option<String> {
    use vortex::array::{PrimitiveArray, StructArray};
    use vortex::validity::Validity;
    let r = guard(|| -> Result<bool, String> {
        let s = StructArray::try_new(
            ["a".into()].into(),
            vec![PrimitiveArray::from(vec![1i32, 2]).into_array()],
            2,
            Validity::Array(vortex::array::BoolArray::from(vec![true, false]).into_array()),
        )
        .map_err(e2s)?;
        let bytes = block_on(write_file(Vec::<u8>::new(), s.dtype().clone(), vec![s.into_array()], 0))?;
        let (_, b) = block_on(read_file(bytes, ReadOpts::default(), 0, 10))?;
        Ok(b.iter().all(|a| a.with_dyn(|x| (0..a.len()).all(|i| x.is_valid(i)))))
    });
    match r {
        Ok(Ok(true)) => Some("rows that are null as a whole are read back from a file as rows of values".into()),
        _ => None,
    }
}

fn kf_no_columns() -> Option<String> {
    use vortex::array::StructArray;
    use vortex::validity::Validity;
    let r = guard(|| -> Result<(), String> {
        let s = StructArray::try_new([].into(), vec![], 3, Validity::NonNullable).map_err(e2s)?;
        let bytes = block_on(write_file(Vec::<u8>::new(), s.dtype().clone(), vec![s.into_array()], 0))?;
        let (_, b) = block_on(read_file(bytes, ReadOpts::default(), 0, 10))?;
        match b.iter().map(Array::len).sum::<usize>() {
            3 => Ok(()),
            n => Err(format!("{n} rows")),
        }
    });
    match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) | Err(e) => Some(format!("the rows of a file without columns cannot be read: {}", e.lines().next().unwrap_or(""))),
    }
}

fn kf_indices() -> Option<String> {
    use vortex::array::{PrimitiveArray, StructArray};
    use vortex::validity::Validity;
    let r = guard(|| -> Result<usize, String> {
        let s = StructArray::try_new(["a".into()].into(), vec![PrimitiveArray::from(vec![1i32, 2, 3]).into_array()], 3, Validity::NonNullable)
            .map_err(e2s)?;
        let bytes = block_on(write_file(Vec::<u8>::new(), s.dtype().clone(), vec![s.into_array()], 0))?;
        block_on(async {
            let b = LayoutReaderBuilder::new(bytes, serde_ctx())
                .with_indices(PrimitiveArray::from(vec![1u64]).into_array())
                .build()
                .await
                .map_err(e2s)?;
            Ok(b.read_all().await.map_err(e2s)?.len())
        })
    });
    match r {
        Ok(Ok(3)) => Some("LayoutReaderBuilder::with_indices has no effect: every row is returned".into()),
        _ => None,
    }
}

fn not_final<T>(r: &Result<T, String>) -> Res {
    match r {
        Err(e) if e.starts_with("harness") => Err(format!("after an error | {e}")),
        _ => Ok(()),
    }
}

/// What cannot be written or read is an error, not a panic, an endless stream or other rows
fn p_refuse(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 60, depth: 1, ..Default::default() };
    let ty = gen_struct_ty(g, &cfg, 4);
    let Ty::Struct(fs, _) = &ty else { panic!("harness: not a struct") };
    let (arrays, cols) = gen_batches(g, &ty, &cfg, 3)?;
    let all = concat(&ty, &cols);
    g.nontrivial = all.len() > 0;
    match g.usize(4) {
        0 => {
            g.label("write:other type");
            let mut gs = fs.clone();
            let k = g.usize(gs.len());
            match g.usize(4) {
                0 => gs[k].0.push('x'),
                1 => gs[k].1 = gs[k].1.with_null(!gs[k].1.nullable()),
                2 => {
                    gs.remove(k);
                }
                _ => gs.push(("another one".into(), Ty::Bool(false))),
            }
            let other = Ty::Struct(gs, false);
            if other.dtype() == ty.dtype() {
                g.excluded += 1;
                return Ok(());
            }
            let b = gen_batches(g, &other, &cfg, 2)?.0;
            let stream = |t: &Ty, a: Vec<Array>| ArrayStreamAdapter::new(t.dtype(), futures::stream::iter(a.into_iter().map(Ok)));
            let one = g.bool();
            let r = block_on(async {
                let w = LayoutWriter::new(Vec::<u8>::new()).write_array_columns_stream(stream(&ty, arrays)).await.map_err(e2s)?;
                Ok::<_, String>(if one && !b.is_empty() {
                    w.write_array_columns(b[0].clone()).await.is_ok()
                } else {
                    w.write_array_columns_stream(stream(&other, b)).await.is_ok()
                })
            })?;
            if r {
                return Err(format!("write | a file of {} took arrays of {}", ty.dtype(), other.dtype()));
            }
        }
        1 => {
            g.label("read:no such column");
            let bytes = write_any(g, &ty, arrays)?;
            let f = if g.bool() { Field::Index(fs.len() + g.usize(3)) } else { Field::Name("no such column".into()) };
            let mut v: Vec<Field> = (0..fs.len()).filter(|_| g.bool()).map(Field::Index).collect();
            v.insert(g.usize(v.len() + 1), f);
            g.note(|| format!("projection {v:?}"));
            let o = ReadOpts { proj: Some(Projection::Flat(v)), all: g.bool(), ..Default::default() };
            let r = read_any(g, &bytes, o, all.len() + 5);
            not_final(&r)?;
            if let Ok((dt, got)) = r {
                return Err(format!("projection | a column that is not there was read as {dt}, {} batches", got.len()));
            }
        }
        2 => {
            g.label("read:filter on no such column");
            let bytes = write_any(g, &ty, arrays)?;
            let lit: Arc<dyn VortexExpr> = Arc::new(Literal::new(vortex_scalar::Scalar::from(1i32)));
            let c: Arc<dyn VortexExpr> = Arc::new(Column::from(if g.bool() { "no such column".to_string() } else { "".to_string() }));
            if fs.iter().any(|f| f.0.is_empty()) {
                return Ok(());
            }
            let e: Arc<dyn VortexExpr> = Arc::new(BinaryExpr::new(c, *g.pick(&[Operator::Eq, Operator::Lt, Operator::NotEq]), lit));
            let o = ReadOpts { filter: Some(e), all: g.bool(), ..Default::default() };
            let r = read_any(g, &bytes, o, all.len() + 5);
            not_final(&r)?;
            if let Ok((_, got)) = r {
                let n: usize = got.iter().map(|a| a.len()).sum();
                if n > 0 || all.len() > 0 {
                    return Err(format!("filter | {n} of {} rows chosen by a column that is not there", all.len()));
                }
            }
        }
        _ => {
            g.label("read:unknown encoding");
            let known = vortex::Context::default();
            let missing = arrays
                .iter()
                .filter(|a| a.len() > 0)
                .flat_map(|a| a.depth_first_traversal().skip(1))
                .find(|x| known.lookup_encoding(x.encoding().id().code()).is_none())
                .map(|x| enc_id(&x));
            if missing.is_some() {
                g.label("read:lacks one");
            }
            let bytes = write_any(g, &ty, arrays)?;
            let de = LayoutDeserializer::new(Arc::new(vortex::Context::default()), LayoutContext::default().into());
            let r: Result<usize, String> = block_on(async {
                let mut s = LayoutReaderBuilder::new(bytes, de).build().await.map_err(e2s)?;
                let mut n = 0;
                while let Some(a) = s.next().await {
                    match a {
                        Ok(a) => n += a.len(),
                        Err(e) => {
                            after_error(&mut s).await?;
                            return Err(e2s(e));
                        }
                    }
                }
                Ok(n)
            });
            if let Err(e) = &r {
                if e.starts_with("harness") {
                    return Err(format!("encodings | {e}"));
                }
            }
            match (missing, r) {
                (Some(m), Ok(n)) => return Err(format!("encodings | {n} rows read without {m}")),
                (None, Err(e)) => return Err(format!("encodings | error although all are known: {e}")),
                (None, Ok(n)) if n != all.len() => return Err(format!("encodings | {n} rows of {}", all.len())),
                _ => {}
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            rule: "a file of at least two rows from which at least two fields are read",
            assumptions: &["rows that are null as a whole are excluded (KF2), and so are files without columns (KF3)"],
            subs: vec![
                Sub { name: "roundtrip", f: p_roundtrip, quick: 30000, thorough: 300000 },
                Sub { name: "refuse", f: p_refuse, quick: 8000, thorough: 80000 },
                Sub { name: "large", f: p_large, quick: 40, thorough: 300 },
                Sub { name: "record_batches", f: p_record_batches, quick: 15000, thorough: 150000 },
            ],
            known: vec![Known { id: "KF2", f: kf_nullable_struct }, Known { id: "KF3", f: kf_no_columns }],
        },
        Prop {
            id: "C15",
            rule: "a filter that keeps some rows and drops some",
            assumptions: &["conjunction and disjunction are null where either side is null, as documented, and null does not select a row"],
            subs: vec![Sub { name: "filter", f: p_filter, quick: 30000, thorough: 300000 }],
            known: vec![Known { id: "KF4", f: kf_indices }],
        },
    ]
}
