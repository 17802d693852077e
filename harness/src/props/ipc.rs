//! C13: the IPC stream format
use super::arrays::*;
use super::stats::check_stats;
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;
use crate::{Prop, Sub};
use bytes::BytesMut;
use futures::executor::block_on;
use futures::StreamExt;
use std::io::Cursor;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use vortex::array::ChunkedArray;
use vortex::stream::{ArrayStream, ArrayStreamAdapter, ArrayStreamExt};
use vortex::{Array, ArrayDType, IntoArray};
use vortex_buffer::Buffer;
use vortex_serde::chunked_reader::ChunkedArrayReader;
use vortex_serde::io::{FuturesAdapter, TokioAdapter, VortexRead, VortexReadAt};
use vortex_serde::stream_reader::StreamArrayReader;
use vortex_serde::stream_writer::StreamArrayWriter;

/// a byte source that returns what it likes: short reads, and Pending in between
pub struct Stutter {
    pub data: Vec<u8>,
    pub pos: usize,
    pub rng: Rng,
    pub max: u64,
    /// reads at or behind this position fail
    pub fail_at: Option<usize>,
}
impl Stutter {
    fn step(&mut self, cx: &mut Context<'_>, want: usize) -> Poll<std::io::Result<usize>> {
        if self.rng.below(4) == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "injected")));
            }
        }
        let k = 1 + self.rng.below(self.max) as usize;
        let mut n = k.min(want).min(self.data.len() - self.pos);
        if let Some(f) = self.fail_at {
            n = n.min(f - self.pos);
        }
        Poll::Ready(Ok(n))
    }
}
impl futures::io::AsyncRead for Stutter {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        match self.step(cx, buf.len()) {
            Poll::Ready(Ok(n)) => {
                let p = self.pos;
                buf[..n].copy_from_slice(&self.data[p..p + n]);
                self.pos += n;
                Poll::Ready(Ok(n))
            }
            x => x,
        }
    }
}
impl tokio::io::AsyncRead for Stutter {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        match self.step(cx, buf.remaining()) {
            Poll::Ready(Ok(n)) => {
                let p = self.pos;
                buf.put_slice(&self.data[p..p + n]);
                self.pos += n;
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}

#[derive(Default)]
pub struct Sink {
    pub out: Vec<u8>,
    pub rng: Rng,
    pub max: u64,
    pub fail_at: Option<usize>,
    /// what is written is kept, and a failure not reported, until the sink is flushed (like a file)
    pub hold: bool,
    pub held: Vec<u8>,
}
impl Sink {
    fn accept(&mut self, buf: &[u8]) -> std::io::Result<()> {
        if self.fail_at.is_some_and(|f| self.out.len() + buf.len() > f) {
            return Err(std::io::Error::new(std::io::ErrorKind::BrokenPipe, "injected"));
        }
        self.out.extend_from_slice(buf);
        Ok(())
    }
}
impl tokio::io::AsyncWrite for Sink {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        if self.rng.below(4) == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let m = self.max;
        let n = (1 + self.rng.below(m) as usize).min(buf.len());
        if self.hold {
            self.held.extend_from_slice(&buf[..n]);
            return Poll::Ready(Ok(n));
        }
        Poll::Ready(self.accept(&buf[..n]).map(|_| n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        if self.rng.below(4) == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let held = std::mem::take(&mut self.held);
        Poll::Ready(self.accept(&held))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

/// a column in chunks
pub fn gen_chunks(g: &mut G, cfg: &Cfg, max_chunks: usize) -> Result<(Ty, Vec<Array>, Vec<Col>), String> {
    let ty = gen_ty(g, cfg);
    let k = g.range(0, max_chunks);
    let mut arrays = vec![];
    let mut cols = vec![];
    for _ in 0..k {
        let n = gen_len(g, cfg.max_len);
        let col = Col { ty: ty.clone(), vals: gen_vals(g, &ty, n) };
        label_col(g, &col);
        let (a, d) = build(g, &col, cfg.depth)?;
        g.note(|| format!("chunk {d}: {col:?}"));
        arrays.push(a);
        cols.push(col);
    }
    Ok((ty, arrays, cols))
}

pub fn concat(ty: &Ty, cols: &[Col]) -> Col {
    Col { ty: ty.clone(), vals: cols.iter().flat_map(|c| c.vals.iter().cloned()).collect() }
}

fn write(g: &mut G, ty: &Ty, arrays: &[Array], pre: &[Vec<u8>], post: &[Vec<u8>]) -> Result<(Vec<u8>, Vec<u64>, Vec<u64>), String> {
    let dt = ty.dtype();
    let how = g.usize(3);
    let seed = g.u64();
    let arrays = arrays.to_vec();
    async fn go<W: vortex_serde::io::VortexWrite>(
        w: W,
        how: usize,
        dt: vortex_dtype::DType,
        arrays: Vec<Array>,
        pre: &[Vec<u8>],
        post: &[Vec<u8>],
    ) -> Result<(W, Vec<u64>, Vec<u64>), String> {
        let mut w = StreamArrayWriter::new(w);
        for p in pre {
            w = w.write_page(Buffer::from(p.clone())).await.map_err(e2s)?;
        }
        w = match how {
            0 if arrays.len() == 1 && arrays[0].encoding().id().as_ref() != "vortex.chunked" => {
                w.write_array(arrays[0].clone()).await.map_err(e2s)?
            }
            1 => {
                let c = ChunkedArray::try_new(arrays, dt).map_err(e2s)?.into_array();
                w.write_array(c).await.map_err(e2s)?
            }
            _ => {
                let s = ArrayStreamAdapter::new(dt, futures::stream::iter(arrays.into_iter().map(Ok)));
                w.write_array_stream(s).await.map_err(e2s)?
            }
        };
        for p in post {
            w = w.write_page(Buffer::from(p.clone())).await.map_err(e2s)?;
        }
        let l = w.array_layouts()[0].chunks.clone();
        if w.page_ranges().len() != pre.len() + post.len() {
            return Err("write pages | wrong number of page ranges".into());
        }
        Ok((w.into_inner(), l.byte_offsets, l.row_offsets))
    }
    match g.usize(3) {
        0 => {
            let (w, b, r) = block_on(go(Vec::<u8>::new(), how, dt, arrays, pre, post))?;
            Ok((w, b, r))
        }
        1 => {
            let (w, b, r) = block_on(go(Cursor::new(Vec::<u8>::new()), how, dt, arrays, pre, post))?;
            Ok((w.into_inner(), b, r))
        }
        _ => {
            let s = Sink { out: vec![], rng: Rng::new(seed), max: 100, ..Default::default() };
            let (w, b, r) = block_on(go(TokioAdapter(s), how, dt, arrays, pre, post))?;
            Ok((w.0.out, b, r))
        }
    }
}

/// what came back: the type, the chunks, and the pages before and after
struct Back {
    dtype: vortex_dtype::DType,
    chunks: Vec<Array>,
    pre: Vec<Vec<u8>>,
    post: Vec<Vec<u8>>,
}

async fn read_back<R: VortexRead>(r: R) -> Result<Back, String> {
    let mut rd = StreamArrayReader::try_new(r, ctx()).await.map_err(e2s)?;
    let mut pre = vec![];
    while let Some(p) = rd.next_page().await.map_err(e2s)? {
        pre.push(p.as_slice().to_vec());
    }
    let mut rd = rd.load_dtype().await.map_err(e2s)?;
    let mut chunks = vec![];
    let dtype;
    {
        let s = rd.array_stream();
        futures::pin_mut!(s);
        dtype = s.dtype().clone();
        while let Some(c) = s.next().await {
            chunks.push(c.map_err(e2s)?);
        }
    }
    let mut post = vec![];
    {
        let s = rd.page_stream().await;
        futures::pin_mut!(s);
        while let Some(p) = s.next().await {
            post.push(p.map_err(e2s)?.as_slice().to_vec());
        }
    }
    Ok(Back { dtype, chunks, pre, post })
}

fn read_any(g: &mut G, buf: Vec<u8>) -> Result<Back, String> {
    let seed = g.u64();
    let max = *g.pick(&[64u64, 1, 7, 4096]);
    let st = |data: Vec<u8>| Stutter { data, pos: 0, rng: Rng::new(seed), max, fail_at: None };
    let k = g.usize(5);
    g.label(format!("reader:{}", ["cursor-vec", "bytesmut", "futures", "tokio", "cursor-buffer"][k]));
    match k {
        0 => block_on(read_back(Cursor::new(buf))),
        1 => block_on(read_back(BytesMut::from(&buf[..]))),
        2 => block_on(read_back(FuturesAdapter(st(buf)))),
        3 => block_on(read_back(TokioAdapter(st(buf)))),
        _ => block_on(read_back(Cursor::new(Buffer::from(buf)))),
    }
}

pub fn gen_pages(g: &mut G) -> Vec<Vec<u8>> {
    let k = if g.chance(2, 3) { 0 } else { g.range(1, 3) };
    (0..k)
        .map(|_| {
            let n = *g.pick(&[3usize, 0, 1, 63, 64, 65, 200]);
            let mut r = g.bulk();
            (0..n).map(|_| r.next() as u8).collect()
        })
        .collect()
}

fn p_stream(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 1200, ..Default::default() };
    let (ty, arrays, cols) = gen_chunks(g, &cfg, 4)?;
    let (pre, post) = (gen_pages(g), gen_pages(g));
    let (buf, bo, ro) = write(g, &ty, &arrays, &pre, &post).map_err(|e| format!("write error | {e}"))?;
    let mut acc = 0u64;
    let mut exp_ro = vec![0u64];
    for c in &cols {
        acc += c.len() as u64;
        exp_ro.push(acc);
    }
    if ro != exp_ro || bo.len() != ro.len() || bo.windows(2).any(|w| w[0] >= w[1]) || bo.last().copied().unwrap_or(0) > buf.len() as u64 {
        return Err(format!("chunk offsets | {bo:?} {ro:?} for {exp_ro:?}"));
    }
    let b = read_any(g, buf).map_err(|e| format!("read error | {e}"))?;
    if b.dtype != ty.dtype() {
        return Err(format!("stream dtype | {} became {}", ty.dtype(), b.dtype));
    }
    if b.pre != pre || b.post != post {
        return Err("pages | the pages read are not those written".into());
    }
    if b.chunks.len() != arrays.len() {
        return Err(format!("stream chunks | {} written, {} read", arrays.len(), b.chunks.len()));
    }
    if cols.iter().any(|c| c.len() >= 2) {
        g.nontrivial = true;
    }
    for ((r, a), col) in b.chunks.iter().zip(&arrays).zip(&cols) {
        if r.encoding().id() != a.encoding().id() {
            return Err(format!("stream encoding | {} became {}", a.encoding().id(), r.encoding().id()));
        }
        check_all(g, r, col).map_err(|e| format!("read back | {e}"))?;
        check_stats(g, r, col, false, "read back")?;
    }
    Ok(())
}

fn gen_sorted_indices(g: &mut G, n: usize, strict: bool) -> Vec<usize> {
    let mut v = gen_indices(g, n);
    v.sort();
    if strict {
        v.dedup();
    }
    v
}

/// KF1: an array of no chunks of an extension type has no known storage type and cannot be decoded
pub fn check_chunked(g: &mut G, a: &Array, col: &Col) -> Res {
    if col.len() == 0 && col.ty.has_ext() {
        g.excluded += 1;
        if a.len() != 0 || a.dtype() != &col.ty.dtype() {
            return Err(format!("empty result | {} elements of {} instead of none of {}", a.len(), a.dtype(), col.ty.dtype()));
        }
        return Ok(());
    }
    check_all(g, a, col)
}

pub fn kf1() -> Option<String> {
    let dt = vortex_dtype::DType::Extension(vortex_dtype::ExtDType::new("vx.ext".into(), None), vortex_dtype::Nullability::NonNullable);
    let r = std::panic::catch_unwind(|| {
        vortex::array::ChunkedArray::try_new(vec![], dt).map_err(e2s).and_then(|a| vortex::IntoCanonical::into_canonical(a).map_err(e2s)).map(|_| ())
    });
    match r {
        Ok(Ok(())) => None,
        _ => Some("an array of no chunks of an extension type (the result of taking no rows) cannot be decoded".into()),
    }
}

fn p_take_rows(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 600, ..Default::default() };
    let (ty, arrays, cols) = gen_chunks(g, &cfg, 5)?;
    let all = concat(&ty, &cols);
    let chunked_reader = g.bool();
    let idx = gen_sorted_indices(g, all.len(), chunked_reader);
    let ia = idx_array(g, &idx, 1)?;
    g.note(|| format!("rows {:?} as {} {}", &idx[..idx.len().min(60)], ia.dtype(), ia.encoding().id()));
    let (pre, post) = (gen_pages(g), gen_pages(g));
    let (buf, bo, ro) = write(g, &ty, &arrays, &pre, &post).map_err(|e| format!("write error | {e}"))?;
    // a row that is not there
    if g.chance(1, 6) {
        let mut v: Vec<V> = idx.iter().map(|i| V::I(*i as i128)).collect();
        let p = *g.pick(&[vortex_dtype::PType::U64, vortex_dtype::PType::I64, vortex_dtype::PType::U32, vortex_dtype::PType::I32]);
        let nu = g.bool();
        match g.usize(3) {
            0 if p.is_signed_int() => v.insert(0, V::I(-1 - g.usize(3) as i128)),
            1 if nu => v.push(V::Null),
            _ => v.push(V::I((all.len() + if g.bool() { 0 } else { g.usize(1000) }) as i128)),
        }
        let c = Col { ty: Ty::Prim(p, nu), vals: v };
        let ia = build_plain(g, &c, 1)?.0;
        g.note(|| format!("impossible rows {:?}", c.vals));
        g.label("rows that are not there");
        g.nontrivial = true;
        let r = if chunked_reader {
            let bo = prim_from(vortex_dtype::PType::U64, &bo.iter().map(|x| V::I(*x as i128)).collect::<Vec<_>>(), vortex::validity::Validity::NonNullable);
            let ro = prim_from(vortex_dtype::PType::U64, &ro.iter().map(|x| V::I(*x as i128)).collect::<Vec<_>>(), vortex::validity::Validity::NonNullable);
            let mut rd = ChunkedArrayReader::try_new(Buffer::from(buf), ctx(), Arc::new(ty.dtype()), bo.into_array(), ro.into_array()).map_err(e2s)?;
            block_on(rd.take_rows(&ia)).map(|a| a.len())
        } else {
            block_on(async {
                let mut rd = StreamArrayReader::try_new(Cursor::new(buf), ctx()).await?;
                while rd.next_page().await?.is_some() {}
                rd.load_dtype().await?.into_array_stream().take_rows(ia.clone())?.collect_chunked().await
            })
            .map(|a| a.len())
        };
        return match r {
            Ok(n) => Err(format!("rows that are not there | {n} rows from a stream of {}, chunked reader {chunked_reader}", all.len())),
            Err(_) => Ok(()),
        };
    }
    let exp = all.take(&idx);
    if idx.len() >= 2 && arrays.len() >= 2 {
        g.nontrivial = true;
    }
    if chunked_reader && g.chance(1, 20) {
        let u64s = |v: &[u64]| prim_from(vortex_dtype::PType::U64, &v.iter().map(|x| V::I(*x as i128)).collect::<Vec<_>>(), vortex::validity::Validity::NonNullable).into_array();
        let (b, r) = if g.bool() { (&bo[1..], &ro[..]) } else { (&bo[..], &ro[1..]) };
        if ChunkedArrayReader::try_new(Buffer::from(buf.clone()), ctx(), Arc::new(ty.dtype()), u64s(b), u64s(r)).is_ok() {
            return Err("chunked reader | offsets of different lengths were accepted".into());
        }
    }
    if chunked_reader {
        let bo = prim_from(vortex_dtype::PType::U64, &bo.iter().map(|x| V::I(*x as i128)).collect::<Vec<_>>(), vortex::validity::Validity::NonNullable);
        let ro = prim_from(vortex_dtype::PType::U64, &ro.iter().map(|x| V::I(*x as i128)).collect::<Vec<_>>(), vortex::validity::Validity::NonNullable);
        let mut rd = ChunkedArrayReader::try_new(Buffer::from(buf), ctx(), Arc::new(ty.dtype()), bo.into_array(), ro.into_array()).map_err(e2s)?;
        let r = block_on(rd.take_rows(&ia)).map_err(|e| format!("take_rows error | {}", e2s(e)))?;
        check_chunked(g, &r, &exp).map_err(|e| format!("take_rows | {e}"))?;
        let whole = block_on(async {
            let s = rd.array_stream().await;
            s.collect_chunked().await
        })
        .map_err(|e| format!("array_stream error | {}", e2s(e)))?;
        check_chunked(g, whole.as_ref(), &all).map_err(|e| format!("array_stream | {e}"))
    } else {
        let r = block_on(async {
            let mut rd = StreamArrayReader::try_new(Cursor::new(buf), ctx()).await?;
            while rd.next_page().await?.is_some() {}
            rd.load_dtype().await?.into_array_stream().take_rows(ia.clone())?.collect_chunked().await
        })
        .map_err(|e| format!("stream take_rows error | {}", e2s(e)))?;
        check_chunked(g, r.as_ref(), &exp).map_err(|e| format!("stream take_rows | {e}"))
    }
}

/// an unlinked file in a scratch directory
pub fn tmpfile() -> std::io::Result<std::fs::File> {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let p = std::env::temp_dir().join(format!("vx-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    let f = std::fs::OpenOptions::new().read(true).write(true).create_new(true).open(&p)?;
    std::fs::remove_file(&p)?;
    Ok(f)
}

/// positional readers: exactly the bytes asked for, or an error past the end
fn p_readers(g: &mut G) -> Res {
    let n = small_len(g, 400);
    let mut r = g.bulk();
    let data: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    let k = g.usize(5);
    g.note(|| format!("{n} bytes, reader {k}"));
    async fn go<R: VortexReadAt>(r: &R, asks: &[(u64, usize)], data: &[u8], what: &str) -> Res {
        let s = r.size().await;
        if s != data.len() as u64 {
            return Err(format!("size | {what}: {s} instead of {}", data.len()));
        }
        for (p, l) in asks {
            let got = r.read_at_into(*p, BytesMut::zeroed(*l)).await;
            let end = *p as usize + *l;
            match got {
                Ok(b) if end <= data.len() => {
                    if b[..] != data[*p as usize..end] {
                        return Err(format!("read_at | {what}: wrong bytes at {p}+{l}"));
                    }
                }
                Ok(b) => {
                    if *l > 0 || !b.is_empty() {
                        return Err(format!("read_at | {what}: {p}+{l} of {} bytes succeeded", data.len()));
                    }
                }
                Err(e) => {
                    if end <= data.len() && *l > 0 {
                        return Err(format!("read_at | {what}: {p}+{l} of {} bytes failed: {e}", data.len()));
                    }
                }
            }
        }
        Ok(())
    }
    let asks: Vec<(u64, usize)> = (0..g.range(1, 6))
        .map(|_| {
            let p = g.range(0, n + 2);
            (p as u64, g.range(0, (n + 3).saturating_sub(p)))
        })
        .collect();
    if n > 2 && asks.iter().any(|a| a.1 > 0 && a.0 as usize + a.1 <= n) {
        g.nontrivial = true;
    }
    match k {
        0 => block_on(go(&data.clone(), &asks, &data, "Vec")),
        1 => block_on(go(&Buffer::from(data.clone()), &asks, &data, "Buffer")),
        2 => block_on(go(&Arc::new(Buffer::from(data.clone())), &asks, &data, "Arc")),
        3 => {
            use std::io::Write;
            let rt = tokio::runtime::Builder::new_current_thread().build().map_err(|e| e.to_string())?;
            let mut f = tmpfile().map_err(|e| e.to_string())?;
            f.write_all(&data).map_err(|e| e.to_string())?;
            rt.block_on(async { go(&tokio::fs::File::from_std(f), &asks, &data, "File").await })
        }
        _ => {
            use object_store::{memory::InMemory, path::Path, ObjectStore, PutPayload};
            use vortex_serde::io::ObjectStoreExt;
            let st: Arc<dyn ObjectStore> = Arc::new(InMemory::new());
            let p = Path::from("x/y");
            block_on(async {
                st.put(&p, PutPayload::from(data.clone())).await.map_err(|e| e.to_string())?;
                let rd = st.vortex_reader(&p);
                // an empty range is an error of the in-memory store itself
                let asks: Vec<_> = asks.iter().cloned().filter(|a| a.1 > 0 && a.0 as usize + a.1 <= n).collect();
                go(&rd, &asks, &data, "ObjectStore").await
            })
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13",
        rule: "a stream with a chunk of at least two rows / at least two rows taken from several chunks / a read inside the data",
        assumptions: &["ChunkedArrayReader::take_rows is defined for strictly sorted row numbers, the stream's take_rows for sorted ones (as documented)"],
        subs: vec![
            Sub { name: "stream", f: p_stream, quick: 60000, thorough: 500000 },
            Sub { name: "take_rows", f: p_take_rows, quick: 40000, thorough: 300000 },
            Sub { name: "readers", f: p_readers, quick: 80000, thorough: 300000 },
        ],
        known: vec![crate::Known { id: "KF1", f: kf1 }],
    }]
}
