//! C25: a source that ends early or fails is reported, never taken for the data; so is a sink
use super::files::{check_batches, gen_batches, gen_pred, rows_where, gen_projection, gen_struct_ty, project, serde_ctx, write_file, SlowReader};
use super::ipc::{concat, gen_chunks, gen_pages, Sink, Stutter};
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;
use crate::{Prop, Sub};
use bytes::BytesMut;
use futures::executor::block_on;
use futures::StreamExt;
use std::io::Cursor;
use std::sync::Arc;

use vortex::stream::{ArrayStream, ArrayStreamAdapter};
use vortex::{Array, IntoArray};
use vortex_buffer::Buffer;
use vortex_serde::chunked_reader::ChunkedArrayReader;
use vortex_serde::io::{FuturesAdapter, TokioAdapter, VortexRead, VortexReadAt};
use vortex_serde::layouts::LayoutReaderBuilder;
use vortex_serde::stream_reader::StreamArrayReader;
use vortex_serde::stream_writer::StreamArrayWriter;

/// what was read before the end or the error
#[derive(Default)]
struct Got {
    pre: Vec<Vec<u8>>,
    dtype: Option<vortex_dtype::DType>,
    chunks: Vec<Array>,
    post: Vec<Vec<u8>>,
    err: Option<String>,
}

async fn read_until<R: VortexRead>(r: R, limit: usize) -> Got {
    let mut o = Got::default();
    macro_rules! t {
        ($x:expr) => {
            match $x {
                Ok(x) => x,
                Err(e) => {
                    o.err = Some(e2s(e));
                    return o;
                }
            }
        };
    }
    let mut rd = t!(StreamArrayReader::try_new(r, ctx()).await);
    while let Some(p) = t!(rd.next_page().await) {
        o.pre.push(p.as_slice().to_vec());
        if o.pre.len() > limit {
            o.err = Some("harness: endless pages".into());
            return o;
        }
    }
    let mut rd = t!(rd.load_dtype().await);
    {
        let s = rd.array_stream();
        futures::pin_mut!(s);
        o.dtype = Some(s.dtype().clone());
        while let Some(c) = s.next().await {
            let c = t!(c);
            o.chunks.push(c);
            if o.chunks.len() > limit {
                o.err = Some("harness: endless chunks".into());
                return o;
            }
        }
    }
    {
        let s = rd.page_stream().await;
        futures::pin_mut!(s);
        while let Some(p) = s.next().await {
            let p = t!(p);
            o.post.push(p.as_slice().to_vec());
            if o.post.len() > limit {
                o.err = Some("harness: endless pages".into());
                return o;
            }
        }
    }
    o
}

struct StreamCase {
    ty: Ty,
    cols: Vec<Col>,
    pre: Vec<Vec<u8>>,
    post: Vec<Vec<u8>>,
    bytes: Vec<u8>,
    /// where messages end
    ends: Vec<usize>,
    chunk_bytes: Vec<u64>,
    chunk_rows: Vec<u64>,
}

async fn write_stream<W: vortex_serde::io::VortexWrite>(
    w: W,
    ty: &Ty,
    arrays: Vec<Array>,
    pre: &[Vec<u8>],
    post: &[Vec<u8>],
) -> vortex_error::VortexResult<StreamArrayWriter<W>> {
    let mut w = StreamArrayWriter::new(w);
    for p in pre {
        w = w.write_page(Buffer::from(p.clone())).await?;
    }
    let s = ArrayStreamAdapter::new(ty.dtype(), futures::stream::iter(arrays.into_iter().map(Ok)));
    w = w.write_array_stream(s).await?;
    for p in post {
        w = w.write_page(Buffer::from(p.clone())).await?;
    }
    Ok(w)
}

fn gen_stream(g: &mut G) -> Result<(StreamCase, Vec<Array>), String> {
    let cfg = Cfg { max_len: 150, depth: 1, ..Default::default() };
    let (ty, arrays, cols) = gen_chunks(g, &cfg, 3)?;
    let (pre, post) = (gen_pages(g), gen_pages(g));
    let w = block_on(write_stream(Vec::<u8>::new(), &ty, arrays.clone(), &pre, &post)).map_err(|e| format!("write error | {}", e2s(e)))?;
    let mut ends: Vec<usize> = w.page_ranges().iter().map(|r| r.end as usize).collect();
    let l = w.array_layouts()[0].clone();
    ends.push(l.dtype.end as usize);
    ends.extend(l.chunks.byte_offsets.iter().map(|x| *x as usize));
    ends.sort();
    ends.dedup();
    let bytes = w.into_inner();
    Ok((StreamCase { ty, cols, pre, post, bytes, ends, chunk_bytes: l.chunks.byte_offsets, chunk_rows: l.chunks.row_offsets }, arrays))
}

/// a position inside the data, with a liking for message boundaries
fn gen_pos(g: &mut G, c: &StreamCase) -> usize {
    let n = c.bytes.len();
    let p = match g.usize(3) {
        0 => g.usize(n),
        1 => {
            let mut b = c.ends.clone();
            b.push(0);
            let e = *g.pick(&b);
            e + g.range(0, 6)
        }
        _ => {
            let e = *g.pick(&c.ends);
            e.saturating_sub(g.range(0, 70))
        }
    };
    p.min(n - 1)
}

fn check_prefix(g: &mut G, c: &StreamCase, o: &Got) -> Res {
    if let Some(e) = &o.err {
        if e.starts_with("harness") {
            return Err(format!("endless | {e}"));
        }
    }
    if o.pre.len() > c.pre.len() || o.pre[..] != c.pre[..o.pre.len()] || o.post.len() > c.post.len() || o.post[..] != c.post[..o.post.len()] {
        return Err("pages | not those written".into());
    }
    if let Some(d) = &o.dtype {
        if *d != c.ty.dtype() {
            return Err(format!("type | {d} instead of {}", c.ty.dtype()));
        }
    }
    if o.chunks.len() > c.cols.len() {
        return Err("chunks | more than were written".into());
    }
    for (a, col) in o.chunks.iter().zip(&c.cols) {
        check_all(g, a, col).map_err(|e| format!("chunk before the fault: {e}"))?;
    }
    Ok(())
}

fn p_stream_cut(g: &mut G) -> Res {
    let (c, _) = gen_stream(g)?;
    let p = gen_pos(g, &c);
    let clean = p == 0 || c.ends.contains(&p);
    let cut = c.bytes[..p].to_vec();
    g.note(|| format!("cut at {p} of {} (messages end at {:?})", c.bytes.len(), c.ends));
    g.label(if clean { "between messages" } else { "inside a message" });
    g.nontrivial = !clean;
    let max = *g.pick(&[64u64, 1, 7, 4096]);
    let st = Stutter { data: cut.clone(), pos: 0, rng: Rng::new(g.u64()), max, fail_at: None };
    let k = g.usize(5);
    let o = match k {
        0 => block_on(read_until(Cursor::new(cut), 50)),
        1 => block_on(read_until(BytesMut::from(&cut[..]), 50)),
        2 => block_on(read_until(FuturesAdapter(st), 50)),
        3 => block_on(read_until(TokioAdapter(st), 50)),
        _ => block_on(read_until(Cursor::new(Buffer::from(cut)), 50)),
    };
    check_prefix(g, &c, &o)?;
    if clean {
        // everything before the cut is there
        let want = c.chunk_bytes.iter().skip(1).filter(|e| **e as usize <= p).count();
        if o.chunks.len() != want {
            return Err(format!("chunks | {} of the {want} before the cut at a message end: {:?}", o.chunks.len(), o.err));
        }
    } else if o.err.is_none() {
        return Err(format!("cut stream | taken for complete with {} of {} chunks", o.chunks.len(), c.cols.len()));
    }
    Ok(())
}

fn p_stream_fail(g: &mut G) -> Res {
    let (c, _) = gen_stream(g)?;
    let p = gen_pos(g, &c);
    g.note(|| format!("fails at {p} of {} (messages end at {:?})", c.bytes.len(), c.ends));
    g.nontrivial = true;
    let max = *g.pick(&[64u64, 1, 7, 4096]);
    let st = Stutter { data: c.bytes.clone(), pos: 0, rng: Rng::new(g.u64()), max, fail_at: Some(p) };
    let o = if g.bool() { block_on(read_until(FuturesAdapter(st), 50)) } else { block_on(read_until(TokioAdapter(st), 50)) };
    check_prefix(g, &c, &o)?;
    if o.err.is_none() {
        return Err(format!("failing stream | taken for complete with {} of {} chunks", o.chunks.len(), c.cols.len()));
    }
    Ok(())
}

/// taking rows from a stream cut short or failing
fn p_take_fault(g: &mut G) -> Res {
    let (c, _) = gen_stream(g)?;
    let all = concat(&c.ty, &c.cols);
    if all.len() == 0 {
        return Ok(());
    }
    let mut idx = super::arrays::gen_indices(g, all.len());
    idx.sort();
    idx.dedup();
    if idx.is_empty() {
        idx.push(g.usize(all.len()));
    }
    let ia = super::arrays::idx_array(g, &idx, 0)?;
    let u64s = |x: &[u64]| prim_from(vortex_dtype::PType::U64, &x.iter().map(|x| V::I(*x as i128)).collect::<Vec<_>>(), vortex::validity::Validity::NonNullable).into_array();
    let fail = if g.bool() { Some(g.range(0, 3) as u64) } else { None };
    let p = if fail.is_none() { gen_pos(g, &c) } else { c.bytes.len() };
    // is any byte of a chunk with wanted rows missing
    let wanted = |i: usize| idx.iter().any(|x| *x as u64 >= c.chunk_rows[i] && (*x as u64) < c.chunk_rows[i + 1]);
    let lost = (0..c.cols.len()).any(|i| wanted(i) && c.chunk_bytes[i + 1] as usize > p);
    let n_reads = (0..c.cols.len()).filter(|i| wanted(*i)).count() as u64;
    g.note(|| format!("rows {:?}, cut at {p} of {}, failing read {fail:?} of {n_reads}", &idx[..idx.len().min(20)], c.bytes.len()));
    let lost = lost || fail.map(|k| k < n_reads).unwrap_or(false);
    g.nontrivial = lost;
    let rd = SlowReader { data: Arc::new(c.bytes[..p].to_vec()), seed: g.u64(), n: Default::default(), fail };
    let mut rd = ChunkedArrayReader::try_new(rd, ctx(), Arc::new(c.ty.dtype()), u64s(&c.chunk_bytes), u64s(&c.chunk_rows)).map_err(e2s)?;
    match block_on(rd.take_rows(&ia)) {
        Ok(a) if !lost => super::ipc::check_chunked(g, &a, &all.take(&idx)).map_err(|e| format!("take_rows | {e}")),
        Ok(a) => Err(format!("take_rows | {} rows from data that could not be read", a.len())),
        Err(_) if lost => Ok(()),
        Err(e) => Err(format!("take_rows error | {}", e2s(e))),
    }
}

async fn read_batches<R: VortexReadAt + Unpin + Send + 'static>(
    r: R,
    proj: Option<vortex_serde::layouts::Projection>,
    filter: Option<vortex_serde::layouts::RowFilter>,
    batch: Option<usize>,
    size: Option<u64>,
    limit: usize,
) -> (Option<vortex_dtype::DType>, Vec<Array>, Option<String>) {
    let mut b = LayoutReaderBuilder::new(r, serde_ctx());
    if let Some(p) = proj {
        b = b.with_projection(p);
    }
    if let Some(f) = filter {
        b = b.with_row_filter(f);
    }
    if let Some(n) = batch {
        b = b.with_batch_size(n);
    }
    if let Some(n) = size {
        b = b.with_size(n);
    }
    let mut s = match b.build().await {
        Ok(s) => s,
        Err(e) => return (None, vec![], Some(e2s(e))),
    };
    let dt = Some(s.schema().dtype().clone());
    let mut out = vec![];
    while let Some(a) = s.next().await {
        match a {
            Ok(a) => out.push(a),
            Err(e) => {
                let e = e2s(e);
                // whatever comes after the error, it is not rows
                if let Err(h) = super::files::after_error(&mut s).await {
                    return (dt, out, Some(h));
                }
                return (dt, out, Some(e));
            }
        }
        if out.len() > limit {
            return (dt, out, Some("harness: endless".into()));
        }
    }
    (dt, out, None)
}

fn p_file_fault(g: &mut G) -> Res {
    let filtered = g.chance(1, 3);
    let cfg = Cfg { max_len: 120, depth: 1, structs: !filtered, ..Default::default() };
    let ty = gen_struct_ty(g, &cfg, 4);
    let (arrays, cols) = gen_batches(g, &ty, &cfg, 3)?;
    let all = concat(&ty, &cols);
    let pred = if filtered { gen_pred(g, &all, 2) } else { None };
    let how = g.usize(4);
    let bytes = block_on(write_file(Vec::<u8>::new(), ty.dtype(), arrays, how)).map_err(|e| format!("write error | {e}"))?;
    let n = bytes.len();
    let (order, proj) = gen_projection(g, &ty);
    let exp = match &pred {
        Some(p) => project(&all.filter(&rows_where(&all, p)), &order),
        None => project(&all, &order),
    };
    let filter = pred.as_ref().map(|p| {
        g.label("filtered");
        g.note(|| format!("where {p:?}"));
        let idx = g.chance(1, 4);
        vortex_serde::layouts::RowFilter::new(p.expr(&ty, &mut || idx))
    });
    let batch = match g.usize(3) {
        0 => None,
        1 => Some(g.range(1, 20)),
        _ => Some(g.range(1, all.len().max(1))),
    };
    let mut data = bytes.clone();
    let mut size = None;
    let mut fail = None;
    // must this be an error
    let mut must = true;
    let mut postscript = false;
    match g.usize(4) {
        0 => {
            let p = if g.bool() { n - 1 - g.usize(60.min(n)) } else { g.usize(n) };
            data.truncate(p);
            if g.chance(1, 3) {
                size = Some(n as u64);
            }
            g.label("cut");
            g.note(|| format!("cut at {p} of {n}, size {size:?}"));
        }
        1 => {
            let k = g.range(0, 6) as u64;
            fail = Some(k);
            must = false;
            g.label("failing read");
            g.note(|| format!("read {k} fails"));
        }
        2 => {
            // magic and version
            let i = n - 8 + *g.pick(&[0usize, 1, 4, 5, 6, 7]);
            let x = 1 + g.usize(255) as u8;
            data[i] ^= x;
            g.label("corrupt end");
            g.note(|| format!("byte {i} of {n} xor {x}"));
        }
        _ => {
            let i = n - 8 - 32 + g.usize(32);
            let x = if g.bool() { 1 << g.usize(8) } else { 1 + g.usize(255) as u8 };
            data[i] ^= x;
            postscript = true;
            g.label("corrupt postscript");
            g.note(|| format!("byte {i} of {n} xor {x}"));
        }
    }
    g.nontrivial = all.len() > 1;
    let rd = SlowReader { data: Arc::new(data), seed: g.u64(), n: Default::default(), fail };
    let rd = Arc::new(rd);
    let (dt, got, err) = block_on(read_batches(rd.clone(), proj, filter, batch, size, all.len() + 10));
    let reads = rd.n.load(std::sync::atomic::Ordering::Relaxed);
    if postscript {
        // another offset may lead to other valid messages, so only the absence of panics and endless reading is checked
        g.label(if err.is_some() { "postscript refused" } else { "postscript accepted" });
        return Ok(());
    }
    if let Some(k) = fail {
        must = k < reads;
        if must {
            g.label("read failed");
        }
    }
    match err {
        None => {
            if must {
                return Err(format!("faulty file | taken for complete with {} batches", got.len()));
            }
            check_batches(g, &(dt.unwrap(), got), &exp, batch)
        }
        Some(e) => {
            if e.starts_with("harness") {
                return Err(format!("faulty file | {e}"));
            }
            if fail.is_some() && !must {
                return Err(format!("read error | {e}"));
            }
            // the batches before are right
            let mut at = 0;
            for a in got {
                if at + a.len() > exp.len() {
                    return Err("faulty file | more rows than written".into());
                }
                let c = exp.slice(at, at + a.len());
                at += a.len();
                check_all(g, &a, &c).map_err(|e| format!("batch before the fault: {e}"))?;
            }
            Ok(())
        }
    }
}

fn p_write_fault(g: &mut G) -> Res {
    let seed = g.u64();
    let max = *g.pick(&[100u64, 1, 8, 5000]);
    let file = g.bool();
    let hold = file && g.bool();
    let sink = |f: usize| TokioAdapter(Sink { rng: Rng::new(seed), max, fail_at: Some(f), hold, ..Default::default() });
    if !file {
        g.label("stream");
        let (c, arrays) = gen_stream(g)?;
        let n = c.bytes.len();
        let p = g.usize(n);
        g.note(|| format!("writing fails at {p} of {n}"));
        g.nontrivial = p > 0;
        if block_on(write_stream(sink(p), &c.ty, arrays.clone(), &c.pre, &c.post)).is_ok() {
            return Err(format!("failing sink | writing the stream succeeded at {p} of {n}"));
        }
        let w = block_on(write_stream(sink(n), &c.ty, arrays, &c.pre, &c.post)).map_err(|e| format!("write error | {}", e2s(e)))?;
        if w.into_inner().0.out != c.bytes {
            return Err("sink | the stream differs from the one written to memory".into());
        }
    } else {
        g.label("file");
        let cfg = Cfg { max_len: 120, depth: 1, ..Default::default() };
        let ty = gen_struct_ty(g, &cfg, 4);
        let (arrays, _) = gen_batches(g, &ty, &cfg, 3)?;
        let how = g.usize(4);
        let bytes = block_on(write_file(Vec::<u8>::new(), ty.dtype(), arrays.clone(), how)).map_err(|e| format!("write error | {e}"))?;
        let n = bytes.len();
        let p = if g.chance(1, 3) { n - 1 - g.usize(60.min(n)) } else { g.usize(n) };
        g.note(|| format!("writing fails at {p} of {n}"));
        g.nontrivial = p > 0;
        if block_on(write_file(sink(p), ty.dtype(), arrays.clone(), how)).is_ok() {
            return Err(format!("failing sink | writing the file succeeded at {p} of {n}"));
        }
        let w = block_on(write_file(sink(n), ty.dtype(), arrays, how)).map_err(|e| format!("write error | {e}"))?;
        if w.0.out != bytes {
            return Err("sink | the file differs from the one written to memory".into());
        }
    }
    Ok(())
}

/// an array source that fails while it is being written
fn p_source_fault(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 60, depth: 1, ..Default::default() };
    let file = g.bool();
    let (dt, arrays) = if file {
        let ty = gen_struct_ty(g, &cfg, 3);
        (ty.dtype(), gen_batches(g, &ty, &cfg, 3)?.0)
    } else {
        let (ty, a, _) = gen_chunks(g, &cfg, 3)?;
        (ty.dtype(), a)
    };
    let at = g.range(0, arrays.len());
    g.nontrivial = at > 0;
    let mut items: Vec<vortex_error::VortexResult<Array>> = arrays.into_iter().map(Ok).collect();
    items.insert(at, Err(vortex_error::vortex_err!("source failed")));
    let s = ArrayStreamAdapter::new(dt, futures::stream::iter(items));
    let ok = if file {
        block_on(async { vortex_serde::layouts::LayoutWriter::new(Vec::<u8>::new()).write_array_columns_stream(s).await.is_ok() })
    } else {
        block_on(async { StreamArrayWriter::new(Vec::<u8>::new()).write_array_stream(s).await.is_ok() })
    };
    if ok {
        return Err(format!("failing source | written as if complete ({})", if file { "file" } else { "stream" }));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "the fault lies inside the data: a cut inside a message, a failing read or write behind the first byte, a file of at least two rows",
        assumptions: &[],
        subs: vec![
            Sub { name: "stream_cut", f: p_stream_cut, quick: 100_000, thorough: 600000 },
            Sub { name: "stream_fail", f: p_stream_fail, quick: 50_000, thorough: 300000 },
            Sub { name: "take_fault", f: p_take_fault, quick: 50_000, thorough: 300000 },
            Sub { name: "file_fault", f: p_file_fault, quick: 100_000, thorough: 600000 },
            Sub { name: "write_fault", f: p_write_fault, quick: 25_000, thorough: 200000 },
            Sub { name: "source_fault", f: p_source_fault, quick: 15_000, thorough: 60000 },
        ],
        known: vec![],
    }]
}
