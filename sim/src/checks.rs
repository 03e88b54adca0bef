//! The properties and what they share.
use std::cell::RefCell;
use std::ops::Range;
use std::path::Path;
use std::rc::Rc;
use std::sync::Arc;

use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::TiffMetadataReader;
use async_tiff::reader::AsyncFileReader;
use async_tiff::{CompressedBytes, ImageFileDirectory, Tile};
use bytes::Bytes;

use crate::core::*;
use crate::io::*;
use crate::stack::*;
use crate::tiff::*;
use crate::{c_host, c_io, c_meta, c_mix, c_tile, http};

pub struct Prop {
    pub id: &'static str,
    pub quick_runs: u64,
    pub what: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub f: fn(),
}
const LIB: &str = "async-tiff (whole crate, all features, debug assertions and overflow checks on)";
const STORE: &str = "storage (simulated content, latency, faults)";
const SCHED: &str = "async executor and clock (seeded scheduler, virtual time)";
const RANDOM: &str = "seeded random search: says nothing about schedules, faults and inputs that were not drawn";
const ONE: &str = "one simulation thread: data races between OS threads inside one poll are not modelled";

macro_rules! prop {
    ($id:expr, $n:expr, $f:expr, $what:expr, real: [$($r:expr),*], stub: [$($s:expr),*], assume: [$($a:expr),*]) => {
        Prop { id: $id, quick_runs: $n, f: $f, what: $what, real: &[LIB $(, $r)*], stub: &[STORE, SCHED $(, $s)*], assumptions: &[RANDOM, ONE $(, $a)*] }
    };
}
pub const PROPS: &[Prop] = &[
    prop!("C01", 100000, c_meta::c01,
        "a generated well-formed file with 1 to 4 directories, opened by 1 to 4 concurrent tasks through drawn reader stacks, everything reported compared with the file model.",
        real: ["object_store range coalescing", "tokio AsyncReadExt/AsyncSeekExt and Mutex"], stub: ["object store, stream"],
        assume: ["read-ahead cache over the seekable-stream reader is limited by a known finding"]),
    prop!("C02", 600000, c_meta::c02,
        "concurrent callers of one read-ahead cache over a faulty source (errors, short and empty responses, cancelled callers), every answer compared with the content; then a fault-free phase.",
        real: ["tokio Mutex"], stub: [], assume: []),
    prop!("C03", 600000, c_meta::c03,
        "concurrent callers of one read-ahead cache with drawn initial size and multiplier; the request log of the source checked against the read-ahead policy.",
        real: ["tokio Mutex"], stub: [], assume: []),
    prop!("C04", 90000, c_meta::c04,
        "scripts of next / all / query operations on metadata readers over faulty storage, with cancellation at any await point, compared with a reference iterator; then drained without faults.",
        real: ["tokio Mutex", "object_store"], stub: ["object store, stream"], assume: []),
    prop!("C05", 90000, c_mix::c05,
        "open, metadata, tile and batch operations by concurrent tasks over failing storage; every Ok compared with the model, every Err must carry an injected fault delivered during the call; repeated after the storage heals.",
        real: ["object_store", "tokio AsyncReadExt"], stub: ["object store, stream"], assume: []),
    prop!("C06", 250000, c_tile::c06,
        "tile requests inside and outside the grid of generated images (tiled, stripped, incomplete tables, sparse, band-separated), bytes, labels and storage reads compared with the model.",
        real: ["object_store", "tokio AsyncReadExt"], stub: ["object store, stream"], assume: []),
    prop!("C07", 300000, c_tile::c07,
        "batches of tiles (repeated, unordered, empty, partly invalid, far apart) by concurrent tasks through every reader, with faults, compared with the model.",
        real: ["object_store range coalescing", "tokio AsyncReadExt"], stub: ["object store, stream"], assume: []),
    prop!("C08", 20000, c_tile::c08,
        "generated images of every codec, sample type, byte order, predictor and band layout, opened, fetched and decoded by concurrent tasks (some decodes on other threads), arrays compared element by element.",
        real: ["all codec libraries", "ndarray"], stub: ["object store, stream"],
        assume: ["JPEG images use DC-only blocks so that the exact result is known", "LERC and JPEG 2000 multi-byte samples only in little-endian files"]),
    prop!("C09", 50000, c_tile::c09,
        "tiles whose stored bytes are damaged, fetched and decoded between undamaged ones.",
        real: ["deflate, LZW, zstd, LZMA, JPEG decoders"], stub: ["object store, stream"],
        assume: ["JPEG frame dimensions are left as they are", "C codec libraries (WebP, JPEG 2000, LERC) are not fed damaged data"]),
    prop!("C10", 150000, c_host::c10,
        "damaged copies of generated files and synthetic hostile metadata, opened and asked for tiles and geo keys under an allocation budget and a request bound.",
        real: [], stub: ["memory allocator budget"], assume: []),
    prop!("C11", 200000, c_io::c11,
        "concurrent reads through TokioReader over a simulated stream with short reads, suspension, errors and cancellation.",
        real: ["tokio AsyncReadExt/AsyncSeekExt and Mutex"], stub: ["AsyncRead + AsyncSeek stream"], assume: []),
    prop!("C12", 80000, c_io::c12,
        "concurrent single and multi-range reads through ObjectReader over a simulated store with chunked bodies, delays and failures.",
        real: ["object_store default get_ranges and coalescing"], stub: ["ObjectStore backend"], assume: []),
    prop!("C13", 60000, http::c13,
        "concurrent range reads through ReqwestReader against a simulated HTTP server (delays, segmentation, error statuses, ignored ranges, truncation, dropped connections), then a fault-free phase.",
        real: ["reqwest, hyper, tokio reactor (unix socket, paused clock)"], stub: ["HTTP server"],
        assume: ["loopback byte transport is the kernel's unix socket; its timing is not a source of decisions"]),
    prop!("C14", 120000, c_tile::c14,
        "tiles decoded through registries with recording decoders (built-in, overridden, custom, missing, failing), by one task or by real threads that a seeded scheduler releases one at a time.",
        real: ["OS threads"], stub: ["decoders that record their calls"], assume: []),
    prop!("C15", 600000, c_io::c15,
        "single and multi-range calls through boxed, shared and nested trait objects and through the default multi-range read, call log of the wrapped reader compared.",
        real: [], stub: [], assume: []),
    prop!("C16", 100000, c_meta::c16,
        "files with metadata before image data: reported header size compared with the model, then reopened by concurrent tasks through a cache of that initial size, counting storage requests.",
        real: ["object_store", "tokio Mutex"], stub: ["object store, stream"], assume: []),
    prop!("C17", 60000, c_meta::c17,
        "files rich in geo keys, stored in several orders and places, opened through drawn stacks under drawn hash seeds.",
        real: ["std HashMap with seeded keys"], stub: ["object store, stream"], assume: []),
    prop!("C18", 30000, c_mix::c18,
        "mixed open / metadata / fetch / decode workloads of 2 to 6 tasks sharing readers, caches, directories and registries, with cancellation, bounded scheduler steps.",
        real: ["object_store", "tokio Mutex", "codec libraries"], stub: ["object store, stream"], assume: []),
];

pub fn run(prop: &'static str) {
    (PROPS.iter().find(|p| p.id == prop).unwrap().f)()
}

/// Deterministic scenarios of the defects listed (not repaired) in known_findings.txt. A finding is
/// printed only while it is listed there and still fails.
pub fn known_findings(prop: &str, root: &Path) -> Vec<String> {
    let listed = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in listed.lines() {
        if let Some(rest) = l.strip_prefix(&format!("known: property={prop} ")) {
            if prop == "C01" && rest.contains("[readahead-over-stream]") && c_meta::known_readahead_over_stream() {
                out.push(rest.to_string());
            }
            if prop == "C10" && rest.contains("[object-ranges-panic]") && c_host::known_object_ranges_panic() {
                out.push(rest.to_string());
            }
        }
    }
    out
}

// ---------------------------------------------------------------- shared helpers

pub fn text(e: &AsyncTiffError) -> String {
    let mut s = format!("{e}");
    s.truncate(s.char_indices().nth(200).map(|x| x.0).unwrap_or(s.len()));
    s
}
/// Does the error carry one of the faults delivered since `from`?
pub fn carries(e: &AsyncTiffError, src: &SimSource, from: usize) -> bool {
    // An error's text copied into a message is not the error any more.
    if matches!(e, AsyncTiffError::General(t) if !t.starts_with("source simfault#")) {
        return false;
    }
    let ids = fault_ids(e);
    let st = src.st.lock().unwrap();
    ids.iter().any(|i| st.faults[from.min(st.faults.len())..].contains(i))
}
/// In fault-free operation an error is always wrong; with faults it must carry one of them.
pub fn err_ok(what: &str, e: &AsyncTiffError, src: &SimSource, from: usize) {
    if carries(e, src, from) {
        count("op.failed_by_fault");
        return;
    }
    if src.fault_count() > from {
        violate("error-lost", format!("{what}: storage failed during the call, but the error does not carry it: {}", text(e)));
    } else {
        violate("unexpected-error", format!("{what}: {}", text(e)));
    }
}
pub fn check_dirs(what: &str, got: &[ImageFileDirectory], want: &[Dir]) {
    check!(got.len() == want.len(), "wrong-directories", "{what}: {} directories, file has {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if let Err(m) = check_dir(g, w) {
            violate("wrong-metadata", format!("{what}: directory {i}: {m}"));
            return;
        }
    }
}
pub struct Opened {
    pub ifds: Vec<ImageFileDirectory>,
}
pub async fn open_all(m: &Meta) -> AsyncTiffResult<Opened> {
    let mut r = TiffMetadataReader::try_open(m).await?;
    let ifds = r.read_all_ifds(m).await?;
    Ok(Opened { ifds })
}
/// Open the file outside the simulated schedule's interest: fault-free, immediate.
pub fn open_quiet(src: &Arc<SimSource>, many: bool) -> Option<Rc<Vec<ImageFileDirectory>>> {
    let saved = {
        let mut s = src.st.lock().unwrap();
        std::mem::replace(&mut s.knobs, Knobs::immediate())
    };
    let rd: Arc<dyn AsyncFileReader> = Arc::new(SimReader(src.clone()));
    let m = if many { Meta::Cached(Arc::new(ReadaheadMetadataCache::new(rd))) } else { Meta::Plain(rd) };
    let r = block_on(async move { open_all(&m).await });
    src.st.lock().unwrap().knobs = saved;
    match r {
        Some(Ok(o)) => Some(Rc::new(o.ifds)),
        Some(Err(e)) => {
            violate("unexpected-error", format!("opening a well-formed file: {}", text(&e)));
            None
        }
        None => None,
    }
}
pub fn compressed(t: &Tile) -> (bool, Vec<Bytes>) {
    match t.compressed_bytes() {
        CompressedBytes::Chunky(b) => (false, vec![b.clone()]),
        CompressedBytes::Planar(v) => (true, v.clone()),
    }
}
/// The stored bytes of the blocks of tile (x, y); `None` if it is outside the grid or the tables.
pub fn model_tile(d: &Dir, x: usize, y: usize) -> Option<Vec<Bytes>> {
    model_ranges(d, x, y).map(|v| v.into_iter().map(|(_, b)| b).collect())
}
pub fn model_ranges(d: &Dir, x: usize, y: usize) -> Option<Vec<(Range<u64>, Bytes)>> {
    if !d.tiled || d.no_tables {
        return None;
    }
    let (nx, ny) = d.grid();
    if x >= nx || y >= ny {
        return None;
    }
    let bands = if d.planar() { d.spp() } else { 1 };
    (0..bands)
        .map(|b| {
            let i = d.block_index(x, y, b);
            if i >= d.blocks.len() - d.cut_counts.min(d.blocks.len()) {
                return None;
            }
            let bl = &d.blocks[i];
            let r = if bl.sparse { (0..0, Bytes::new()) } else { (bl.offset..bl.offset + bl.count(), bl.data.clone()) };
            Some(r)
        })
        .collect()
}
pub fn check_tile(what: &str, t: &Tile, ifd_of: &Dir, x: usize, y: usize) {
    let want = match model_tile(ifd_of, x, y) {
        Some(w) => w,
        None => {
            violate("tile-from-nowhere", format!("{what}: tile ({x},{y}) does not exist, but a tile was returned"));
            return;
        }
    };
    let (planar, got) = compressed(t);
    check!(t.x() == x && t.y() == y, "tile-label", "{what}: tile labelled ({},{}), requested ({x},{y})", t.x(), t.y());
    check!(planar == ifd_of.planar(), "tile-layout", "{what}: planar={planar} for tile ({x},{y})");
    check!(got.len() == want.len(), "tile-bands", "{what}: {} blocks for tile ({x},{y}), stored {}", got.len(), want.len());
    for (b, (g, w)) in got.iter().zip(&want).enumerate() {
        if g != w {
            violate("tile-bytes", format!("{what}: tile ({x},{y}) block {b}: {} bytes returned differ from the {} stored", g.len(), w.len()));
            return;
        }
    }
    let comp = ifd_of.u(259).unwrap_or(1) as u16;
    check!(t.compression_method().to_u16() == comp, "tile-label", "{what}: compression {:?}, stored {comp}", t.compression_method());
    check!(
        t.photometric_interpretation().to_u16() == ifd_of.u(262).unwrap() as u16,
        "tile-label",
        "{what}: photometric {:?}",
        t.photometric_interpretation()
    );
    let tables = ifd_of.tags.get(&347).map(|v| v.uints().iter().map(|x| *x as u8).collect::<Vec<u8>>());
    check!(t.jpeg_tables().map(|b| b.to_vec()) == tables, "tile-label", "{what}: JPEG tables differ from the stored ones");
}
/// Normalise ranges to a sorted union of bytes.
pub fn union(mut v: Vec<Range<u64>>) -> Vec<Range<u64>> {
    v.retain(|r| !r.is_empty());
    v.sort_by_key(|r| (r.start, r.end));
    let mut out: Vec<Range<u64>> = vec![];
    for r in v {
        match out.last_mut() {
            Some(l) if r.start <= l.end => l.end = l.end.max(r.end),
            _ => out.push(r),
        }
    }
    out
}
/// Ranges a task asked a recorded reader for since log position `from`.
pub fn asked(log: &CallLog, task: usize, from: usize) -> Vec<Range<u64>> {
    let l = log.lock().unwrap();
    let mut out = vec![];
    for (t, c) in &l[from..] {
        if *t == task {
            match c {
                Call::One(r) => out.push(r.clone()),
                Call::Many(v) => out.extend(v.iter().cloned()),
            }
        }
    }
    out
}
/// A grid position, mostly inside.
pub fn draw_xy(d: &Dir, outside: u64) -> (usize, usize) {
    let (nx, ny) = if d.tags.contains_key(&322) { d.grid() } else { (2, 2) };
    if chance(outside) {
        let far = [nx, nx + 1, nx * 2, usize::MAX, u32::MAX as usize, 1 << 33, nx * ny, usize::MAX / 2];
        let farv = [ny, ny + 1, ny * 2, usize::MAX, u32::MAX as usize, 1 << 33, nx * ny, usize::MAX / 2];
        match below(3) {
            0 => (pick(&far), below(ny as u64) as usize),
            1 => (below(nx as u64) as usize, pick(&farv)),
            _ => (pick(&far), pick(&farv)),
        }
    } else {
        let at = |n: usize| match below(8) {
            7 => n - 1,
            _ => below(n as u64) as usize,
        };
        (at(nx), at(ny))
    }
}
pub type Shared<T> = Rc<RefCell<T>>;

/// Draw a huge hole for files read without a cache.
pub fn draw_jump(spec: &mut FileSpec) {
    spec.jump = if spec.big {
        pick(&[1u64 << 32, (1 << 40) + 12345, (1 << 31) - 500, (1 << 62) + 7])
    } else {
        pick(&[1u64 << 31, (1 << 31) - 300, 0xE000_0001])
    };
    probe("probe.huge_offsets");
}
