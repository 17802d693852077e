//! C31: the footer of a file describes its data, and a scan reads no more than it needs
use super::arrays::*;
use super::files::*;
use super::ipc::concat;
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;
use crate::{Prop, Sub};
use bytes::BytesMut;
use futures::executor::block_on;
use futures::StreamExt;
use std::sync::{Arc, Mutex};
use vortex::stream::ArrayStream;
use vortex::variants::StructArrayTrait;
use vortex::{Array, ArrayDType, IntoArrayVariant};
use vortex_dtype::{DType, PType};
use vortex_flatbuffers::{footer as fb, message as fm};
use vortex_serde::io::VortexReadAt;
use vortex_serde::layouts::{LayoutReaderBuilder, RowFilter, CHUNKED_LAYOUT_ID, COLUMN_LAYOUT_ID, EOF_SIZE, FLAT_LAYOUT_ID, FOOTER_POSTSCRIPT_SIZE, INLINE_SCHEMA_LAYOUT_ID, MAGIC_BYTES, VERSION};
use vortex_serde::stream_reader::StreamArrayReader;

#[derive(Clone, Debug, PartialEq)]
pub struct Chunk {
    pub begin: u64,
    pub end: u64,
    pub rows: usize,
    pub start: usize,
}

fn flat(l: &fb::Layout) -> Result<(u64, u64), String> {
    if l.encoding() != FLAT_LAYOUT_ID.0 {
        return Err(format!("layout | {} is not a flat layout", l.encoding()));
    }
    let b = l.buffers().ok_or("layout | a flat layout without bytes")?;
    if b.len() != 1 {
        return Err(format!("layout | a flat layout of {} ranges", b.len()));
    }
    Ok((b.get(0).begin(), b.get(0).end()))
}

/// the one array within a range of bytes, on its own
fn decode(bytes: &[u8], begin: u64, end: u64, dt: DType) -> Result<Array, String> {
    let part = bytes.get(begin as usize..end as usize).ok_or_else(|| format!("layout | bytes {begin}..{end} of {}", bytes.len()))?;
    let r = block_on(StreamArrayReader::try_new(std::io::Cursor::new(part.to_vec()), ctx())).map_err(e2s)?.with_dtype(Arc::new(dt));
    let mut s = Box::pin(r.into_array_stream());
    let mut out = vec![];
    while let Some(a) = block_on(s.next()) {
        out.push(a.map_err(|e| format!("chunk | {}", e2s(e)))?);
        if out.len() > 1 {
            return Err("chunk | more than one array in the bytes of a chunk".into());
        }
    }
    out.pop().ok_or_else(|| "chunk | no array in the bytes of a chunk".into())
}

/// the message at the start of a chunk: how many rows it announces, and where its buffers lie
fn message(bytes: &[u8], begin: u64, end: u64, rows: usize) -> Res {
    let at = begin as usize;
    let n = u32::from_le_bytes(bytes[at..at + 4].try_into().unwrap()) as usize;
    let m = flatbuffers::root::<fm::Message>(&bytes[at + 4..at + 4 + n]).map_err(|e| format!("message | {e}"))?;
    let b = m.header_as_batch().ok_or("message | not a batch")?;
    if b.length() != rows as u64 {
        return Err(format!("message | announces {} rows of {rows}", b.length()));
    }
    let first = at + 4 + n;
    if first as u64 + b.buffer_size() != end {
        return Err(format!("message | buffers of {} bytes from {first} do not end at {end}", b.buffer_size()));
    }
    if first % vortex_serde::ALIGNMENT != 0 {
        return Err(format!("message | buffers start at {first}"));
    }
    let bs: Vec<(u64, u64)> = b.buffers().map(|v| v.iter().map(|x| (x.offset(), x.padding() as u64)).collect()).unwrap_or_default();
    for (i, (o, p)) in bs.iter().enumerate() {
        let next = bs.get(i + 1).map(|x| x.0).unwrap_or(b.buffer_size());
        if o % vortex_serde::ALIGNMENT as u64 != 0 || next < o + p || (i == 0 && *o != 0) {
            return Err(format!("message | buffer {i} at {o} with {p} bytes of padding, the next at {next}"));
        }
        if bytes[first + (next - p) as usize..first + next as usize].iter().any(|x| *x != 0) {
            return Err(format!("message | the padding of buffer {i} is not empty"));
        }
    }
    Ok(())
}

/// the chunks of every column, as the footer has them, checked against the rows they should hold
fn chunks_of(g: &mut G, bytes: &[u8], all: &Col) -> Result<Vec<Vec<Chunk>>, String> {
    let Ty::Struct(fs, _) = &all.ty else { panic!("harness: not a struct") };
    let n = bytes.len();
    let eof = &bytes[n - EOF_SIZE..];
    if eof[4..8] != MAGIC_BYTES || eof[0..2] != VERSION.to_le_bytes() {
        return Err(format!("trailer | {eof:?}"));
    }
    let ps = flatbuffers::root::<fb::Postscript>(&bytes[n - EOF_SIZE - FOOTER_POSTSCRIPT_SIZE..n - EOF_SIZE]).map_err(|e| format!("postscript | {e}"))?;
    let at = ps.footer_offset() as usize;
    if ps.schema_offset() >= ps.footer_offset() || at + 4 > n {
        return Err(format!("postscript | schema at {}, footer at {at} of {n}", ps.schema_offset()));
    }
    let len = u32::from_le_bytes(bytes[at..at + 4].try_into().unwrap()) as usize;
    if at + 4 + len + FOOTER_POSTSCRIPT_SIZE + EOF_SIZE != n {
        return Err(format!("footer | {len} bytes at {at} of {n}"));
    }
    let f = flatbuffers::root::<fb::Footer>(&bytes[at + 4..at + 4 + len]).map_err(|e| format!("footer | {e}"))?;
    if f.row_count() != all.len() as u64 {
        return Err(format!("footer | counts {} rows of {}", f.row_count(), all.len()));
    }
    let top = f.layout().ok_or("footer | no layout")?;
    if top.encoding() != COLUMN_LAYOUT_ID.0 {
        return Err(format!("layout | {} at the top", top.encoding()));
    }
    let cols = top.children().ok_or("layout | no columns")?;
    if cols.len() != fs.len() {
        return Err(format!("layout | {} columns of {}", cols.len(), fs.len()));
    }
    let mut out = vec![];
    let mut used: Vec<(u64, u64)> = vec![];
    for (i, c) in cols.iter().enumerate() {
        let col = all.field(i);
        if c.encoding() != CHUNKED_LAYOUT_ID.0 {
            return Err(format!("layout | {} for column {i}", c.encoding()));
        }
        let kids: Vec<fb::Layout> = c.children().map(|x| x.iter().collect()).unwrap_or_default();
        let has = c.metadata().map(|m| m.bytes().first() == Some(&1)).unwrap_or(false);
        if has && kids.is_empty() {
            return Err(format!("layout | column {i} lacks its table"));
        }
        let mut chunks: Vec<Chunk> = vec![];
        for l in kids.iter().skip(has as usize) {
            let (begin, end) = flat(l)?;
            let start = chunks.last().map(|c| c.start + c.rows).unwrap_or(0);
            let a = decode(bytes, begin, end, col.ty.dtype()).map_err(|e| format!("column {i} chunk {}: {e}", chunks.len()))?;
            let rows = a.len();
            if start + rows > col.len() {
                return Err(format!("chunk | column {i} chunk {} reaches row {} of {}", chunks.len(), start + rows, col.len()));
            }
            message(bytes, begin, end, rows)?;
            let part = col.slice(start, start + rows);
            if g.chance(1, 4) {
                check_all(g, &a, &part)
            } else {
                check_canonical(&a, &part)
            }
            .map_err(|e| format!("column {i} chunk {}: {e}", chunks.len()))?;
            if chunks.last().is_some_and(|p| p.end > begin) {
                return Err(format!("layout | chunks of column {i} out of order at byte {begin}"));
            }
            used.push((begin, end));
            chunks.push(Chunk { begin, end, rows, start });
        }
        let total: usize = chunks.iter().map(|c| c.rows).sum();
        if total != all.len() {
            return Err(format!("layout | column {i} has chunks of {total} rows of {}", all.len()));
        }
        if has {
            let t = &kids[0];
            if t.encoding() != INLINE_SCHEMA_LAYOUT_ID.0 {
                return Err(format!("layout | {} for the table of column {i}", t.encoding()));
            }
            let d = t.buffers().ok_or("layout | a table without type")?.get(0);
            let (begin, end) = flat(&t.children().ok_or("layout | a table without rows")?.get(0))?;
            used.push((d.begin(), d.end()));
            used.push((begin, end));
            let r = block_on(StreamArrayReader::try_new(std::io::Cursor::new(bytes[d.begin() as usize..d.end() as usize].to_vec()), ctx())).map_err(e2s)?;
            // the type is that of the table: reading it as such gives the rows
            let mut r = block_on(r.load_dtype()).map_err(|e| format!("table type | {}", e2s(e)))?;
            let dt = r.array_stream().dtype().clone();
            let a = decode(bytes, begin, end, dt.clone())?;
            let s = a.into_struct().map_err(|e| format!("table | {}", e2s(e)))?;
            let DType::Struct(st, _) = &dt else {
                return Err(format!("table | of type {dt}"));
            };
            if st.names().iter().map(|x| x.to_string()).collect::<Vec<_>>() != ["row_offset"] || st.dtypes()[0] != DType::Primitive(PType::U64, false.into()) {
                return Err(format!("table | of type {dt}"));
            }
            let o = s.field(0).ok_or("table | no row offsets")?.into_primitive().map_err(e2s)?;
            let exp: Vec<u64> = chunks.iter().map(|c| c.start as u64).collect();
            if o.maybe_null_slice::<u64>() != exp {
                return Err(format!("row offsets | column {i}: {:?} instead of {exp:?}", o.maybe_null_slice::<u64>()));
            }
        } else {
            g.label("no_table");
        }
        out.push(chunks);
    }
    used.sort();
    for w in used.windows(2) {
        if w[0].1 > w[1].0 {
            return Err(format!("layout | bytes {:?} and {:?} overlap", w[0], w[1]));
        }
    }
    if let Some(l) = used.last() {
        if l.1 > ps.schema_offset() {
            return Err(format!("layout | bytes {l:?} reach into the schema at {}", ps.schema_offset()));
        }
    }
    Ok(out)
}

struct Recorder {
    data: Arc<Vec<u8>>,
    reads: Arc<Mutex<Vec<(u64, u64)>>>,
}
impl VortexReadAt for Recorder {
    async fn read_at_into(&self, pos: u64, buffer: BytesMut) -> std::io::Result<BytesMut> {
        self.reads.lock().unwrap().push((pos, pos + buffer.len() as u64));
        self.data.as_slice().read_at_into(pos, buffer).await
    }
    async fn size(&self) -> u64 {
        self.data.len() as u64
    }
}

fn gen_case(g: &mut G, structs: bool) -> Result<FileCase, String> {
    let cfg = Cfg { max_len: 300, structs, ..Default::default() };
    gen_file(g, &cfg)
}

fn p_footer(g: &mut G) -> Res {
    let ty = {
        let cfg = Cfg { max_len: 300, ..Default::default() };
        gen_struct_ty(g, &cfg, 5)
    };
    let cfg = Cfg { max_len: 300, ..Default::default() };
    let (arrays, cols) = gen_batches(g, &ty, &cfg, 5)?;
    let all = concat(&ty, &cols);
    let bytes = write_any(g, &ty, arrays.clone()).map_err(|e| format!("write error | {e}"))?;
    let chunks = chunks_of(g, &bytes, &all)?;
    if all.len() >= 2 && chunks.iter().any(|c| c.iter().filter(|x| x.rows > 0).count() >= 2) {
        g.nontrivial = true;
    }
    g.label(format!("chunks:{}", match chunks.iter().map(|c| c.len()).max().unwrap_or(0) {
        x @ 0..=3 => x.to_string(),
        4..=9 => "4-9".into(),
        _ => "10+".into(),
    }));
    Ok(())
}

/// the reads of a scan, seen batch by batch
fn p_scan(g: &mut G) -> Res {
    let f = gen_case(g, false)?;
    let chunks = chunks_of(g, &f.bytes, &f.all)?;
    let (order, proj) = gen_projection(g, &f.ty);
    let batch = gen_batch_size(g, f.all.len());
    let pred = if g.bool() { gen_pred(g, &f.all, 2) } else { None };
    g.note(|| format!("where {pred:?} project {proj:?} batch {batch:?}"));
    let mut need = order.clone();
    if let Some(p) = &pred {
        let mut refs = vec![];
        p.refs(&mut refs);
        if refs.is_empty() {
            // the rows to decide on are counted by the first column
            refs.push(0);
        }
        need.extend(refs);
    }
    if order.is_empty() {
        need.push(0);
    }
    need.sort();
    need.dedup();
    let reads = Arc::new(Mutex::new(vec![]));
    let r = Recorder { data: Arc::new(f.bytes.clone()), reads: reads.clone() };
    let mut b = LayoutReaderBuilder::new(r, serde_ctx());
    if let Some(p) = proj {
        b = b.with_projection(p);
    }
    if let Some(p) = &pred {
        // a position keeps its meaning only among all of the columns
        let idx = g.chance(1, 4);
        let mut refs = vec![];
        p.refs(&mut refs);
        if idx && !refs.is_empty() {
            need = (0..chunks.len()).collect();
        }
        b = b.with_row_filter(RowFilter::new(p.expr(&f.ty, &mut || idx)));
    }
    if let Some(n) = batch {
        b = b.with_batch_size(n);
    }
    let size = batch.unwrap_or(vortex_serde::layouts::DEFAULT_BATCH_SIZE);
    let mut s = block_on(b.build()).map_err(|e| format!("open | {}", e2s(e)))?;
    reads.lock().unwrap().clear();
    let mut rows = 0;
    let mut seen: Vec<(u64, u64)> = vec![];
    let mut count = 0;
    loop {
        let x = block_on(s.next());
        let new: Vec<(u64, u64)> = std::mem::take(&mut *reads.lock().unwrap());
        for (x, y) in &new {
            let Some((c, k)) = need.iter().flat_map(|c| chunks[*c].iter().map(move |k| (*c, k))).find(|(_, k)| k.begin <= *x && *y <= k.end) else {
                let of: Vec<usize> = (0..chunks.len()).filter(|c| chunks[*c].iter().any(|k| k.begin < *y && *x < k.end)).collect();
                return Err(format!("reads | bytes {x}..{y} of column {of:?}, only {need:?} are asked for"));
            };
            if let Some(z) = seen.iter().find(|z| z.0 < *y && *x < z.1) {
                return Err(format!("reads | bytes {x}..{y} of column {c} again, after {z:?}"));
            }
            if pred.is_none() && k.start >= rows + size {
                return Err(format!("reads | column {c} from row {} for the batch of {size} rows at {rows}", k.start));
            }
            seen.push((*x, *y));
        }
        match x {
            None => break,
            Some(a) => rows += a.map_err(|e| format!("next | {}", e2s(e)))?.len(),
        }
        count += 1;
        if count > f.all.len() + 10 {
            return Err("endless | more batches than rows".into());
        }
    }
    if pred.is_none() && rows != f.all.len() {
        return Err(format!("rows | {rows} of {}", f.all.len()));
    }
    if need.len() < chunks.len() && f.all.len() >= 2 && !seen.is_empty() {
        g.nontrivial = true;
        g.label("skips_columns");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        rule: "a file with a column of at least two chunks that have rows, or a scan that leaves out a column of a file of two rows or more",
        assumptions: &["files without columns are excluded (KF3)"],
        subs: vec![
            Sub { name: "footer", f: p_footer, quick: 12000, thorough: 120000 },
            Sub { name: "scan", f: p_scan, quick: 16000, thorough: 160000 },
        ],
        known: vec![],
    }]
}
