//! C26: lazily parsed arrays describe and answer the same as owned ones
//! C27: buffers and I/O adapters are byte exact
//! C28: arrays shared between threads answer as on one thread
use super::arrays::*;
use super::ipc::{Sink, Stutter};
use super::stats::{check_stat, check_stats};
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;
use crate::{Prop, Sub};
use bytes::{Bytes, BytesMut};
use futures::executor::block_on;
use object_store::ObjectStore;
use std::io::Cursor;
use std::sync::Arc;
use vortex::compute::unary::scalar_at;
use vortex::compute::{filter, slice, take};
use vortex::stats::{ArrayStatistics, Stat};
use vortex::{Array, ArrayDType, ArrayData, IntoArray, IntoCanonical};
use vortex_buffer::io_buf::IoBuf;
use vortex_buffer::{Buffer, BufferString};
use vortex_serde::io::offset::OffsetReadAt;
use vortex_serde::io::{FuturesAdapter, ObjectStoreExt, TokioAdapter, VortexRead, VortexReadAt, VortexWrite};

const STATS: [Stat; 10] = [
    Stat::BitWidthFreq,
    Stat::TrailingZeroFreq,
    Stat::IsConstant,
    Stat::IsSorted,
    Stat::IsStrictSorted,
    Stat::Max,
    Stat::Min,
    Stat::RunCount,
    Stat::TrueCount,
    Stat::NullCount,
];

fn walk(a: &Array, f: &mut dyn FnMut(&Array)) {
    f(a);
    for c in a.children() {
        walk(&c, f);
    }
}

fn describe(a: &Array) -> Vec<String> {
    let mut v = vec![];
    walk(a, &mut |x| {
        let b = x.buffer().map(|b| hash_str(&format!("{:?}", b.as_slice())));
        v.push(format!("{} {} len={} nbytes={} children={} buffer={b:?}", x.encoding().id(), x.dtype(), x.len(), x.nbytes(), x.nchildren()))
    });
    v
}

/// relations between the parts of one array
fn check_parts(a: &Array) -> Res {
    let mut e = Ok(());
    let mut order = vec![];
    walk(a, &mut |x| {
        let id = x.encoding().id();
        if e.is_err() {
            return;
        }
        let kids = x.children();
        if kids.len() != x.nchildren() {
            e = Err(format!("children | {id} lists {} children of {}", kids.len(), x.nchildren()));
            return;
        }
        let sum: usize = kids.iter().map(|k| k.nbytes()).sum::<usize>() + x.buffer().map(|b| b.len()).unwrap_or(0);
        // bit-packing deliberately leaves padding out
        if sum != x.nbytes() && id.as_ref() != "fastlanes.bitpacked" {
            e = Err(format!("nbytes | {id} counts {} bytes, its buffer and children {sum}", x.nbytes()));
            return;
        }
        let own = usize::from(x.buffer().is_some());
        let n: usize = kids.iter().map(|k| k.cumulative_nbuffers()).sum::<usize>() + own;
        if n != x.cumulative_nbuffers() {
            e = Err(format!("cumulative_nbuffers | {id} {} instead of {n}", x.cumulative_nbuffers()));
            return;
        }
        if x.clone().into_buffer().as_ref().map(|b| b.as_slice()) != x.buffer().map(|b| b.as_slice()) {
            e = Err(format!("into_buffer | {id} differs from buffer"));
            return;
        }
        if x.is_empty() != (x.len() == 0) {
            e = Err(format!("is_empty | {id} of {}", x.len()));
        }
        order.push((x.encoding().id().as_ref().to_string(), x.len(), x.buffer().map(|b| b.len())));
    });
    e?;
    let got: Vec<_> = a.depth_first_traversal().map(|x| (enc_id(&x), x.len(), x.buffer().map(|b| b.len()))).collect();
    if got != order {
        return Err(format!("depth_first_traversal | {got:?} instead of {order:?}"));
    }
    for al in [1usize, 8, 64, 128] {
        let mut exp = vec![];
        let mut at = 0usize;
        for (_, _, b) in &order {
            if let Some(b) = b {
                exp.push(at as u64);
                at += b.div_ceil(al) * al;
            }
        }
        exp.push(at as u64);
        let got = a.all_buffer_offsets(al);
        if got != exp {
            return Err(format!("all_buffer_offsets | {got:?} instead of {exp:?} for alignment {al}"));
        }
    }
    Ok(())
}

fn p_view(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 300, ..Default::default() };
    let (a, col, _) = gen_array(g, &cfg)?;
    let id = enc_id(&a);
    if g.bool() {
        check_stats(g, &a, &col, true, "computed")?;
        g.label("stats computed");
    }
    check_parts(&a)?;
    if vortex::array::ChunkedArray::try_from(&a).is_ok() {
        // the chunks are written one by one
        return Ok(());
    }
    let v = ipc_roundtrip(&a)?;
    let view = matches!(v, Array::View(_));
    g.label(if view { "view" } else { "data" });
    if view && a.children().len() > 0 {
        g.nontrivial = true;
    }
    check_parts(&v).map_err(|e| format!("view {e}"))?;
    let d: Array = ArrayData::from(v.clone()).into();
    check_parts(&d).map_err(|e| format!("data of view {e}"))?;
    let (da, dv, dd) = (describe(&a), describe(&v), describe(&d));
    for (name, x) in [("view", &dv), ("data of view", &dd)] {
        if &da != x {
            let i = da.iter().zip(x.iter()).position(|(p, q)| p != q).unwrap_or(da.len().min(x.len()));
            return Err(format!("parts of the {name} | {id} {:?} instead of {:?}", x.get(i), da.get(i)));
        }
    }
    // the metadata of a view prints small numbers as narrow ones
    let strip = |a: &Array| a.tree_display().to_string().replace('$', "").lines().filter(|l| !l.trim_start().starts_with("metadata:")).collect::<Vec<_>>().join("\n");
    let (ta, tv, td) = (strip(&a), strip(&v), strip(&d));
    if ta != tv || ta != td {
        let o = if ta != tv { &tv } else { &td };
        let l = ta.lines().zip(o.lines()).find(|(x, y)| x != y);
        return Err(format!("tree display | of the view differs {l:?}"));
    }
    if ta.lines().count() < order_len(&a) {
        return Err(format!("tree display | {} lines for {} arrays", ta.lines().count(), order_len(&a)));
    }
    // statistics: what is carried over is right, what is computed is the same
    for s in STATS {
        let (x, y) = (a.statistics().get(s), v.statistics().get(s));
        if y.is_some() && x.is_none() {
            return Err(format!("stat {s} | known for the view only, of {id}"));
        }
        let set = v.statistics().to_set();
        if set.get(s) != y.as_ref() {
            return Err(format!("stat set {s} | {:?} for the view instead of {y:?}, of {id}", set.get(s)));
        }
    }
    check_stats(g, &v, &col, false, "carried over to the view")?;
    check_stats(g, &v, &col, true, "computed of the view")?;
    check_stats(g, &d, &col, true, "computed of the data of the view")?;
    check_all(g, &d, &col).map_err(|e| format!("data of view: {e}"))
}

fn order_len(a: &Array) -> usize {
    let mut n = 0;
    walk(a, &mut |_| n += 1);
    n
}

/// a context lacking the encoding of the array refuses it
fn p_context(g: &mut G) -> Res {
    use vortex_serde::stream_reader::StreamArrayReader;
    use vortex_serde::stream_writer::StreamArrayWriter;
    let cfg = Cfg { max_len: 60, depth: 1, ..Default::default() };
    let (a, col, _) = gen_array(g, &cfg)?;
    let id = a.encoding().id();
    let all: Vec<_> = ctx().encodings().collect();
    let used: std::collections::HashSet<_> = {
        let mut s = std::collections::HashSet::new();
        walk(&a, &mut |x| {
            s.insert(x.encoding().id());
        });
        s
    };
    let mode = g.usize(3);
    let keep: Vec<_> = all
        .iter()
        .filter(|e| match mode {
            // exactly what is used
            0 => used.contains(&e.id()),
            // all but the encoding of the array
            1 => e.id() != id,
            _ => true,
        })
        .cloned()
        .collect();
    let base = vortex::Context::default();
    let default_has = base.encodings().any(|e| e.id() == id);
    let c = base.with_encodings(keep.iter().cloned());
    for e in &keep {
        let f = c.lookup_encoding(e.id().code());
        if f.map(|f| f.id()) != Some(e.id()) {
            return Err(format!("lookup | {} found as {:?}", e.id(), f.map(|f| f.id())));
        }
    }
    let bytes = block_on(async { StreamArrayWriter::new(Vec::<u8>::new()).write_array(a.clone()).await.map(|w| w.into_inner()) }).map_err(|e| format!("write error | {}", e2s(e)))?;
    let r = block_on(async {
        let r = StreamArrayReader::try_new(Cursor::new(bytes), Arc::new(c)).await?;
        let r = r.load_dtype().await?;
        vortex::stream::ArrayStreamExt::collect_chunked(r.into_array_stream()).await
    });
    if mode == 1 && !default_has {
        g.label("unknown encoding");
        g.nontrivial = true;
        return match r {
            Err(_) => Ok(()),
            Ok(_) => Err(format!("unknown encoding | {id} was read by a context which does not have it")),
        };
    }
    g.label("known encodings");
    g.nontrivial |= used.len() > 1;
    check_all(g, &r.map_err(|e| format!("read error | {}", e2s(e)))?.into_array(), &col)
}

// ---------------------------------------------------------------- C27

fn gen_bytes(g: &mut G, max: usize) -> Vec<u8> {
    let n = gen_len(g, max);
    let mut r = g.bulk();
    match g.usize(3) {
        0 => (0..n).map(|_| r.next() as u8).collect(),
        1 => (0..n).map(|i| i as u8).collect(),
        _ => (0..n).map(|_| (r.below(3)) as u8).collect(),
    }
}

fn vec_t<T: Copy>(b: &[u8]) -> Vec<T> {
    let s = std::mem::size_of::<T>();
    let n = b.len() / s;
    let mut v = Vec::with_capacity(n);
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), v.as_mut_ptr() as *mut u8, n * s);
        v.set_len(n);
    }
    v
}

fn gen_buffer(g: &mut G) -> (Buffer, Vec<u8>) {
    let mut m = gen_bytes(g, 200);
    let k = g.usize(9);
    g.note(|| format!("buffer kind {k} of {} bytes", m.len()));
    let b = match k {
        0 => Buffer::from(m.as_slice()),
        1 => Buffer::from(m.clone()),
        2 => Buffer::from(Bytes::from(m.clone())),
        3 => Buffer::from(Bytes::copy_from_slice(&m)),
        4 => {
            m.truncate(m.len() / 4 * 4);
            Buffer::from(vec_t::<u32>(&m))
        }
        5 => {
            m.truncate(m.len() / 8 * 8);
            Buffer::from(vec_t::<f64>(&m))
        }
        6 => {
            let p = g.range(0, m.len());
            let mut x = m.split_off(p);
            let b = Bytes::from([m.clone(), x.clone(), m.clone()].concat()).slice(p..p + x.len());
            m = std::mem::take(&mut x);
            Buffer::from(b)
        }
        7 => {
            let mut x = arrow_buffer::MutableBuffer::new(m.len());
            x.extend_from_slice(&m);
            Buffer::from(x)
        }
        _ => {
            m = vec![0; m.len()];
            Buffer::from_len_zeroed(m.len())
        }
    };
    (b, m)
}

fn same(b: &Buffer, m: &[u8], what: &str) -> Res {
    if b.as_slice() != m || b.len() != m.len() || b.is_empty() != m.is_empty() || &b[..] != m || AsRef::<[u8]>::as_ref(b) != m {
        return Err(format!("{what} | {:?} instead of {m:?}", b.as_slice()));
    }
    if IoBuf::as_slice(b) != m || b.bytes_init() != m.len() {
        return Err(format!("{what} as IoBuf | {:?} instead of {m:?}", IoBuf::as_slice(b)));
    }
    Ok(())
}

fn into_vec<T: arrow_buffer::ArrowNativeType + bytemuck_like::Raw>(g: &mut G, b: Buffer, m: &[u8]) -> Res {
    let s = std::mem::size_of::<T>();
    if m.len() % s != 0 {
        return Ok(());
    }
    match b.into_vec::<T>() {
        Ok(v) => {
            g.label("into_vec");
            let raw = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, v.len() * s) };
            if raw != m {
                return Err(format!("into_vec | {raw:?} instead of {m:?}"));
            }
            Ok(())
        }
        Err(b) => same(&b, m, "buffer given back by into_vec"),
    }
}

mod bytemuck_like {
    pub trait Raw {}
    impl Raw for u8 {}
    impl Raw for u16 {}
    impl Raw for i32 {}
    impl Raw for u64 {}
    impl Raw for f64 {}
}

fn p_buffer(g: &mut G) -> Res {
    let (mut b, mut m) = gen_buffer(g);
    same(&b, &m, "built")?;
    let held = if g.bool() { Some((b.clone(), m.clone())) } else { None };
    for _ in 0..g.usize(5) {
        if g.chance(1, 4) {
            b = b.clone();
        }
        let x = g.range(0, m.len());
        let y = g.range(x, m.len());
        g.note(|| format!("slice {x}..{y} of {}", m.len()));
        let p = b.as_ptr() as usize;
        b = b.slice(x..y);
        m = m[x..y].to_vec();
        same(&b, &m, "sliced")?;
        if b.as_ptr() as usize != p + x && !m.is_empty() {
            return Err("sliced | the slice is a copy".into());
        }
        g.nontrivial |= !m.is_empty();
    }
    let (o, om) = gen_buffer(g);
    if (b == o) != (m == om) || b != b.clone() {
        return Err(format!("eq | {:?} {:?}", m, om));
    }
    let (o2, _) = (Buffer::from(Bytes::copy_from_slice(&m)), ());
    if b != o2 || o2 != b {
        return Err("eq | buffers of other origin with the same bytes differ".into());
    }
    if b.partial_cmp(&o) != m.as_slice().partial_cmp(om.as_slice()) {
        return Err(format!("partial_cmp | {:?} of {m:?} {om:?}", b.partial_cmp(&o)));
    }
    // strings
    let std_str = std::str::from_utf8(&m).map(|s| s.to_string());
    match (BufferString::try_from(b.clone()), std_str) {
        (Ok(s), Ok(t)) => {
            if s.as_str() != t || &*s != t || AsRef::<str>::as_ref(&s) != t || s != BufferString::from(t.clone()) {
                return Err(format!("string | {:?} instead of {t:?}", s.as_str()));
            }
            same(&Buffer::from(s), &m, "buffer of the string")?;
        }
        (Err(_), Err(_)) => {}
        (x, _) => return Err(format!("string | valid utf-8: {} of {m:?}", x.is_ok())),
    }
    // I/O slices
    {
        let x = g.range(0, m.len());
        let y = g.range(x, m.len());
        let s = b.clone().slice_owned(x..y);
        if IoBuf::as_slice(&s) != &m[x..y] || s.bytes_init() != y - x {
            return Err(format!("slice_owned {x}..{y} | {:?} instead of {:?}", IoBuf::as_slice(&s), &m[x..y]));
        }
        let p = g.range(0, y - x);
        let q = g.range(p, y - x);
        let t = s.slice_owned(p..q);
        if IoBuf::as_slice(&t) != &m[x..y][p..q] {
            return Err(format!("nested slice_owned | {:?} instead of {:?}", IoBuf::as_slice(&t), &m[x..y][p..q]));
        }
        same(&t.into_inner().into_inner(), &m, "into_inner")?;
        let s = m.clone().slice_owned(x..y);
        if IoBuf::as_slice(&s) != &m[x..y] || s.into_inner() != m {
            return Err("slice_owned of a vec".into());
        }
    }
    match g.usize(6) {
        0 => into_vec::<u8>(g, b, &m)?,
        1 => into_vec::<u16>(g, b, &m)?,
        2 => into_vec::<i32>(g, b, &m)?,
        3 => into_vec::<u64>(g, b, &m)?,
        4 => into_vec::<f64>(g, b, &m)?,
        _ => {
            let a = b.into_arrow();
            if a.as_slice() != m {
                return Err(format!("into_arrow | {:?} instead of {m:?}", a.as_slice()));
            }
        }
    }
    if let Some((b, m)) = held {
        same(&b, &m, "held clone")?;
    }
    Ok(())
}

async fn at<R: VortexReadAt>(r: &R, m: &[u8], reqs: &[(u64, usize)], what: &str) -> Res {
    let n = r.size().await;
    if n != m.len() as u64 {
        return Err(format!("size | {what} is {n} instead of {}", m.len()));
    }
    for (p, l) in reqs {
        let mut b = BytesMut::with_capacity(*l);
        b.resize(*l, 0xEE);
        let x = r.read_at_into(*p, b).await;
        let fits = p.checked_add(*l as u64).is_some_and(|e| e <= m.len() as u64);
        match x {
            Ok(b) => {
                if !fits && *l > 0 {
                    return Err(format!("read past the end | {what}: {l} bytes at {p} of {} succeeded", m.len()));
                }
                if *l > 0 && &b[..] != &m[*p as usize..][..*l] || b.len() != *l {
                    return Err(format!("read at | {what}: {l} bytes at {p} of {}: {:?}", m.len(), &b[..]));
                }
            }
            Err(e) => {
                if fits && *l > 0 {
                    return Err(format!("read at error | {what}: {l} bytes at {p} of {}: {e}", m.len()));
                }
            }
        }
    }
    Ok(())
}

fn rt() -> &'static tokio::runtime::Runtime {
    static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap())
}

fn p_read_at(g: &mut G) -> Res {
    let m = gen_bytes(g, 400);
    let off = g.range(0, m.len());
    let k = g.usize(8);
    let len = if k >= 4 && k < 7 { m.len() - off } else { m.len() };
    let mut reqs = vec![];
    for _ in 0..g.range(1, 6) {
        let p = if g.chance(1, 12) { *g.pick(&[u64::MAX, u64::MAX - 3, 1 << 63, u32::MAX as u64]) } else { g.range(0, len + 3) as u64 };
        let l = match g.usize(3) {
            0 => g.range(0, 9),
            1 => (len as u64).saturating_sub(p.min(1 << 40)) as usize,
            _ => g.range(0, len + 3),
        };
        if k >= 4 && k < 7 && p > 1 << 62 {
            continue;
        }
        g.nontrivial |= l > 0 && p.saturating_add(l as u64) <= len as u64;
        reqs.push((p, l));
    }
    let what = ["vec", "slice", "buffer", "arc", "offset vec", "offset buffer", "nested offset", "object store"][k];
    g.label(what);
    g.note(|| format!("{what} of {} bytes, offset {off}: {reqs:?}", m.len()));
    match k {
        0 => block_on(at(&m, &m, &reqs, what)),
        1 => block_on(at(&m.as_slice(), &m, &reqs, what)),
        2 => {
            let (pre, post) = (g.usize(5), g.usize(5));
            let big = [vec![1u8; pre], m.clone(), vec![2u8; post]].concat();
            let b = if g.bool() { Buffer::from(big) } else { Buffer::from(Bytes::from(big)) };
            let b = b.slice(pre..pre + m.len());
            block_on(at(&b, &m, &reqs, what))
        }
        3 => block_on(at(&Arc::new(m.clone()), &m, &reqs, what)),
        4 => block_on(at(&OffsetReadAt::new(m.clone(), off as u64), &m[off..], &reqs, what)),
        5 => block_on(at(&OffsetReadAt::new(Buffer::from(m.clone()), off as u64), &m[off..], &reqs, what)),
        6 => {
            let o = g.range(0, off);
            block_on(at(&OffsetReadAt::new(OffsetReadAt::new(&m, o as u64), (off - o) as u64), &m[off..], &reqs, what))
        }
        _ => {
            let s: Arc<dyn ObjectStore> = Arc::new(object_store::memory::InMemory::new());
            let path = object_store::path::Path::from("dir/x.vortex");
            let (x, y) = (g.range(0, m.len()), g.range(0, m.len()));
            let (x, y) = (x.min(y), x.max(y));
            rt().block_on(async {
                s.put(&path, Bytes::from(m.clone()).into()).await.map_err(|e| format!("harness put: {e}"))?;
                at(&s.vortex_reader(&path), &m, &reqs, what).await?;
                if x < y {
                    let mut r = s.vortex_read(&path, x..y).await.map_err(|e| format!("vortex_read error | {}", e2s(e)))?;
                    seq(&mut r, &m[x..y], &[1, 2, y - x, 1000], "object store range").await?;
                }
                Ok(())
            })
        }
    }
}

/// reads of the given sizes one after the other; the first which does not fit fails
async fn seq<R: VortexRead>(r: &mut R, m: &[u8], sizes: &[usize], what: &str) -> Res {
    let mut p = 0;
    for s in sizes {
        let mut b = BytesMut::with_capacity(*s);
        b.resize(*s, 0xEE);
        match r.read_into(b).await {
            Ok(b) => {
                if p + s > m.len() {
                    return Err(format!("read past the end | {what}: {s} bytes at {p} of {}", m.len()));
                }
                if b[..] != m[p..p + s] {
                    return Err(format!("read | {what}: {s} bytes at {p} of {}: {:?}", m.len(), &b[..]));
                }
                p += s;
            }
            Err(e) => {
                if p + s <= m.len() {
                    return Err(format!("read error | {what}: {s} bytes at {p} of {}: {e}", m.len()));
                }
                if e.kind() != std::io::ErrorKind::UnexpectedEof {
                    return Err(format!("end of input | {what}: reported as {:?}", e.kind()));
                }
                return Ok(());
            }
        }
    }
    Ok(())
}

fn tmp_path() -> std::path::PathBuf {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    std::env::temp_dir().join(format!("vxcheck-{}-{n}.bin", std::process::id()))
}

fn p_read_seq(g: &mut G) -> Res {
    let m = gen_bytes(g, 400);
    let mut sizes = vec![];
    let mut p = 0;
    for _ in 0..g.range(1, 8) {
        let s = if g.chance(1, 4) { m.len().saturating_sub(p) } else { g.range(0, 60) };
        p += s;
        sizes.push(s);
    }
    g.nontrivial = sizes.len() > 1 && m.len() > 1;
    let k = g.usize(7);
    let what = ["bytes", "cursor vec", "cursor buffer", "tokio", "futures", "cursor offset", "tokio file"][k];
    g.label(what);
    g.note(|| format!("{what} of {} bytes: {sizes:?}", m.len()));
    let st = |g: &mut G| Stutter { data: m.clone(), pos: 0, rng: Rng::new(g.u64()), max: *g.pick(&[1u64, 7, 100]), fail_at: None };
    match k {
        0 => block_on(seq(&mut BytesMut::from(&m[..]), &m, &sizes, what)),
        1 => block_on(seq(&mut Cursor::new(m.clone()), &m, &sizes, what)),
        2 => block_on(seq(&mut Cursor::new(Buffer::from(m.clone())), &m, &sizes, what)),
        3 => block_on(seq(&mut TokioAdapter(st(g)), &m, &sizes, what)),
        4 => block_on(seq(&mut FuturesAdapter(st(g)), &m, &sizes, what)),
        5 => {
            let o = g.range(0, m.len());
            block_on(seq(&mut Cursor::new(OffsetReadAt::new(m.clone(), o as u64)), &m[o..], &sizes, what))
        }
        _ => {
            let path = tmp_path();
            std::fs::write(&path, &m).map_err(|e| format!("harness write: {e}"))?;
            let r = rt().block_on(async {
                let mut f = tokio::fs::File::open(&path).await.map_err(|e| format!("harness open: {e}"))?;
                seq(&mut f, &m, &sizes, what).await?;
                // reading at positions does not depend on what was read before
                let mut reqs = vec![(0, m.len()), (0, m.len() + 1), (m.len() as u64, 1)];
                let mut p = 0;
                for s in &sizes {
                    reqs.push((p as u64, *s));
                    p += s / 2;
                }
                at(&f, &m, &reqs, what).await
            });
            let _ = std::fs::remove_file(&path);
            r
        }
    }
}

async fn put<W: VortexWrite>(w: &mut W, parts: &[Vec<u8>], kinds: &[usize], flush: usize) -> Res {
    for (i, (p, k)) in parts.iter().zip(kinds).enumerate() {
        match k {
            0 => {
                let b = w.write_all(p.clone()).await.map_err(|e| format!("write error | {e}"))?;
                if &b != p {
                    return Err("write | gave back another buffer".into());
                }
            }
            1 => {
                let b = w.write_all(Buffer::from(p.clone())).await.map_err(|e| format!("write error | {e}"))?;
                same(&b, p, "written buffer")?;
            }
            _ => {
                let big = [vec![7u8; 3], p.clone(), vec![9u8; 2]].concat();
                let s = w.write_all(Buffer::from(Bytes::from(big)).slice_owned(3..3 + p.len())).await.map_err(|e| format!("write error | {e}"))?;
                if IoBuf::as_slice(&s) != &p[..] {
                    return Err("write | gave back another slice".into());
                }
            }
        }
        if i % 4 == flush {
            w.flush().await.map_err(|e| format!("flush error | {e}"))?;
        }
    }
    w.flush().await.map_err(|e| format!("flush error | {e}"))
}

fn p_write(g: &mut G) -> Res {
    let n = g.range(0, 6);
    let parts: Vec<Vec<u8>> = (0..n).map(|_| gen_bytes(g, 120)).collect();
    let kinds: Vec<usize> = (0..n).map(|_| g.usize(3)).collect();
    let flush = g.usize(5);
    let all = parts.concat();
    g.nontrivial = n > 1 && all.len() > 1;
    let k = g.usize(6);
    let what = ["vec", "cursor", "tokio", "borrowed", "tokio file", "object store"][k];
    g.label(what);
    g.note(|| format!("{what}: {:?} bytes", parts.iter().map(|p| p.len()).collect::<Vec<_>>()));
    let out = match k {
        0 => {
            let mut w = Vec::new();
            block_on(put(&mut w, &parts, &kinds, flush))?;
            block_on(VortexWrite::shutdown(&mut w)).map_err(|e| format!("shutdown error | {e}"))?;
            w
        }
        1 => {
            let mut w = Cursor::new(Vec::new());
            block_on(put(&mut w, &parts, &kinds, flush))?;
            w.into_inner()
        }
        2 => {
            let mut w = TokioAdapter(Sink { out: vec![], rng: Rng::new(g.u64()), max: *g.pick(&[1u64, 9, 1000]), hold: g.bool(), ..Default::default() });
            block_on(put(&mut w, &parts, &kinds, flush))?;
            block_on(w.shutdown()).map_err(|e| format!("shutdown error | {e}"))?;
            w.0.out
        }
        3 => {
            let mut v: Vec<u8> = Vec::new();
            let mut w = &mut v;
            block_on(put(&mut w, &parts, &kinds, flush))?;
            v
        }
        4 => {
            let path = tmp_path();
            let r = rt().block_on(async {
                let mut f = tokio::fs::File::create(&path).await.map_err(|e| format!("harness create: {e}"))?;
                put(&mut f, &parts, &kinds, flush).await?;
                VortexWrite::shutdown(&mut f).await.map_err(|e| format!("shutdown error | {e}"))
            });
            let d = std::fs::read(&path).map_err(|e| format!("harness read: {e}"));
            let _ = std::fs::remove_file(&path);
            r?;
            d?
        }
        _ => {
            let s: Arc<dyn ObjectStore> = Arc::new(object_store::memory::InMemory::new());
            let path = object_store::path::Path::from("x.vortex");
            rt().block_on(async {
                let mut w = s.vortex_writer(&path).await.map_err(|e| format!("vortex_writer error | {}", e2s(e)))?;
                put(&mut w, &parts, &kinds, flush).await?;
                w.shutdown().await.map_err(|e| format!("shutdown error | {e}"))?;
                if w.write_all(vec![1u8]).await.is_ok() {
                    return Err("object store | writing after the end succeeded".to_string());
                }
                let r = s.get(&path).await.map_err(|e| format!("object store | {e}"))?;
                Ok(r.bytes().await.map_err(|e| format!("harness get: {e}"))?.to_vec())
            })?
        }
    };
    if out != all {
        return Err(format!("written | {what}: {out:?} instead of {all:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C28

#[derive(Debug, Clone)]
enum Do {
    Stat(Stat),
    Known(Stat),
    At(usize),
    Canon,
    Slice(usize, usize),
    Take(Vec<usize>),
    Filter(Vec<bool>),
    Bytes,
    Valid,
    Ipc,
    Iter,
}

fn gen_do(g: &mut G, n: usize) -> Do {
    match g.usize(14) {
        0..=3 => Do::Stat(*g.pick(&STATS)),
        4 => Do::Known(*g.pick(&STATS)),
        5 if n > 0 => Do::At(g.usize(n)),
        6 => Do::Canon,
        7 => {
            let x = g.range(0, n);
            Do::Slice(x, g.range(x, n))
        }
        8 => Do::Take(gen_indices(g, n)),
        9 => Do::Filter(gen_bools(g, n)),
        10 => Do::Bytes,
        11 => Do::Valid,
        12 => Do::Ipc,
        _ => Do::Iter,
    }
}

/// `must`: the statistic is one that's computed for this array
fn perform(a: &Array, d: &Do, col: &Col, nbytes: usize, must: bool) -> Res {
    let id = enc_id(&a);
    let leaf = matches!(id.as_str(), "vortex.primitive" | "vortex.bool" | "vortex.varbin" | "vortex.varbinview" | "vortex.bytebool" | "vortex.roaring_bool");
    let vals = |x: &Array, c: &Col, w: &str| {
        let v = canonical_vals(x, &c.ty).map_err(|e| format!("{w} | {id} {e}"))?;
        match diff(&v, &c.vals) {
            None => Ok(()),
            Some(d) => Err(format!("{w} | {id} {d}")),
        }
    };
    let err = |w: &str, e: vortex_error::VortexError| format!("{w} error | {id} {}", e2s(e));
    match d {
        Do::Stat(s) => match a.statistics().compute(*s) {
            Some(v) => check_stat(*s, &v, col, true, leaf).map_err(|e| format!("stat {s} | {id} {e}")),
            None if must => Err(format!("stat {s} | {id} not computed")),
            None => Ok(()),
        },
        Do::Known(s) => match a.statistics().get(*s) {
            Some(v) => check_stat(*s, &v, col, true, leaf).map_err(|e| format!("known stat {s} | {id} {e}")),
            None => Ok(()),
        },
        Do::At(i) => check_scalars(a, col, &[*i]),
        Do::Canon => vals(a, col, "canonical"),
        Do::Slice(x, y) => vals(&slice(a, *x, *y).map_err(|e| err("slice", e))?, &col.slice(*x, *y), "slice"),
        Do::Take(i) => {
            let ia = vortex::array::PrimitiveArray::from(i.iter().map(|x| *x as u64).collect::<Vec<_>>()).into_array();
            vals(&take(a, &ia).map_err(|e| err("take", e))?, &col.take(i), "take")
        }
        Do::Filter(m) => {
            let ma = vortex::array::BoolArray::from(m.clone()).into_array();
            vals(&filter(a, &ma).map_err(|e| err("filter", e))?, &col.filter(m), "filter")
        }
        Do::Bytes => {
            let n = a.nbytes();
            if n != nbytes {
                return Err(format!("nbytes | {id} {n} instead of {nbytes}"));
            }
            Ok(())
        }
        Do::Valid => {
            let v = validity_of(a)?;
            let exp: Vec<bool> = col.vals.iter().map(|v| !matches!(v, V::Null)).collect();
            if v != exp {
                return Err(format!("validity | {id}"));
            }
            Ok(())
        }
        Do::Ipc => vals(&ipc_roundtrip(a)?, col, "stream"),
        Do::Iter => {
            for i in (0..col.len()).step_by(1 + col.len() / 8) {
                let s = scalar_at(a, i).map_err(|e| err("scalar_at", e))?;
                let v = scalar_to_v(&s, &col.ty)?;
                if diff(&[v], &col.vals[i..i + 1]).is_some() {
                    return Err(format!("scalar_at | {id} {i} is {s}"));
                }
            }
            Ok(())
        }
    }
}

fn p_threads(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 200, ..Default::default() };
    let (mut a, col, _) = gen_array(g, &cfg)?;
    if g.chance(1, 4) {
        a = ipc_roundtrip(&a)?;
        g.label("view");
    }
    let nbytes = a.nbytes();
    let k = g.range(2, 5);
    let race = g.chance(1, 3);
    let plans: Vec<Vec<Do>> = if race {
        // every thread asks for statistics at the same moment, step by step
        g.label("race");
        let n = g.range(1, 4);
        let steps: Vec<Stat> = (0..n).map(|_| *g.pick(&STATS)).collect();
        (0..k).map(|_| steps.iter().map(|s| if g.chance(1, 6) { Do::Stat(*g.pick(&STATS)) } else { Do::Stat(*s) }).collect()).collect()
    } else {
        (0..k)
            .map(|_| {
                let n = g.range(1, 6);
                (0..n).map(|_| gen_do(g, col.len())).collect()
            })
            .collect()
    };
    g.note(|| format!("{k} threads: {plans:?}"));
    // what fails on one thread already is not a matter of threads, and a statistic that one
    // thread gets, all threads get
    let mut gets: Vec<Vec<bool>> = vec![];
    for p in &plans {
        let mut row = vec![];
        for d in p {
            let fresh: Array = rebuild(&a);
            if guard(|| perform(&fresh, d, &col, nbytes, false)).unwrap_or_else(Err).is_err() {
                g.excluded += 1;
                return Ok(());
            }
            row.push(match d {
                Do::Stat(s) => guard(|| rebuild(&a).statistics().compute(*s).is_some()).unwrap_or(false),
                _ => false,
            });
        }
        gets.push(row);
    }
    g.nontrivial = col.len() > 1 && plans.iter().map(|p| p.len()).sum::<usize>() > 2;
    let rounds = if race && matches!(a, Array::Data(_)) { 4 } else { 1 };
    for round in 0..rounds {
        let shared = if round + 1 == rounds { a.clone() } else { rebuild(&a) };
        let start = std::sync::Barrier::new(k);
        let res: Vec<Res> = std::thread::scope(|s| {
            let hs: Vec<_> = plans
                .iter()
                .zip(&gets)
                .map(|(p, gets)| {
                    let (a, col, start) = (shared.clone(), &col, &start);
                    s.spawn(move || {
                        let mut res = Ok(());
                        start.wait();
                        for (i, (d, gets)) in p.iter().zip(gets).enumerate() {
                            if race && i > 0 {
                                start.wait();
                            }
                            if res.is_ok() {
                                res = guard(|| perform(&a, d, col, nbytes, *gets)).unwrap_or_else(Err).map_err(|e| format!("thread {e}"));
                            }
                        }
                        res
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread | panicked".into()))).collect()
        });
        for r in res {
            r?;
        }
    }
    check_stats(g, &a, &col, true, "computed after the threads")?;
    check_all(g, &a, &col).map_err(|e| format!("after the threads: {e}"))
}

/// the same array with statistics of its own
fn rebuild(a: &Array) -> Array {
    match a {
        Array::View(_) => a.clone(),
        Array::Data(d) => {
            let kids: Vec<Array> = a.children().iter().map(rebuild).collect();
            ArrayData::try_new(d.encoding(), d.dtype().clone(), d.len(), d.metadata().clone(), d.buffer().cloned(), kids.into(), d.statistics().to_set()).map(Array::from).unwrap_or_else(|_| a.clone())
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            rule: "view: the array has children and is read back as a view; context: the encoding is missing, or several are used",
            assumptions: &[],
            subs: vec![Sub { name: "view", f: p_view, quick: 60_000, thorough: 300_000 }, Sub { name: "context", f: p_context, quick: 30_000, thorough: 150_000 }],
            known: vec![],
        },
        Prop {
            id: "C27",
            rule: "a non-empty slice, a read within the bytes, several reads or several writes",
            assumptions: &[],
            subs: vec![
                Sub { name: "buffer", f: p_buffer, quick: 400_000, thorough: 1_000_000 },
                Sub { name: "read_at", f: p_read_at, quick: 400_000, thorough: 1_000_000 },
                Sub { name: "read_seq", f: p_read_seq, quick: 300_000, thorough: 600_000 },
                Sub { name: "write", f: p_write, quick: 300_000, thorough: 600_000 },
            ],
            known: vec![],
        },
        Prop {
            id: "C28",
            rule: "more than one row and more than two operations on all threads",
            assumptions: &[],
            subs: vec![Sub { name: "threads", f: p_threads, quick: 36_000, thorough: 200_000 }],
            known: vec![],
        },
    ]
}
