//! Tiles: C06, C07, C08, C09, C14.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::ops::Range;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

use async_tiff::decoder::{Decoder, DecoderRegistry};
use async_tiff::error::{AsyncTiffError, AsyncTiffResult, TiffError, TiffUnsupportedError};
use async_tiff::tags::{Compression, PhotometricInterpretation};
use async_tiff::{Array, ImageFileDirectory, Tile, TileByteRange, TilesByteRanges};
use bytes::Bytes;

use crate::checks::*;
use crate::codec::*;
use crate::core::*;
use crate::io::*;
use crate::stack::*;
use crate::tiff::*;

/// A directory for tile requests: mostly a plain tiled image, sometimes one that is not.
pub fn draw_tile_dir() -> Dir {
    let mut d = draw_opaque_dir(MetaOpts { max_vals: 8, rich: pick(&[0, 150]), geo: false });
    if d.tiled {
        match below(12) {
            8 => {
                d.no_tables = true;
                probe("probe.no_tables");
            }
            9 => {
                let n = below(d.blocks.len() as u64) as usize;
                d.blocks.truncate(n.max(1));
                for b in 0..d.blocks.len() {
                    if d.blocks[b].alias.is_some_and(|a| a >= n) {
                        d.blocks[b].alias = None;
                    }
                }
                probe("probe.short_tables");
            }
            10 => {
                d.cut_counts = below(d.blocks.len() as u64) as usize;
                probe("probe.short_count_table");
            }
            11 => {
                // Tables with entries beyond the last tile: those are no tiles of the image.
                let (nx, ny) = d.grid();
                for _ in 0..1 + small((nx * (ny + 1)) as u64) {
                    d.blocks.push(Block::new(vec![7; 1 + small(20) as usize]));
                }
                probe("probe.long_tables");
            }
            _ => {}
        }
        if below(3) == 2 {
            for i in 0..d.blocks.len() {
                if chance(200) {
                    d.blocks[i].sparse = true;
                    d.blocks[i].alias = None;
                }
            }
            for i in 0..d.blocks.len() {
                if let Some(a) = d.blocks[i].alias {
                    if d.blocks[a].sparse {
                        d.blocks[i].alias = None;
                        d.blocks[i].sparse = true;
                    }
                }
            }
            probe("probe.sparse_block");
        }
    }
    d
}
pub struct OpaqueFile {
    pub b: Rc<Built>,
    pub src: Arc<SimSource>,
    pub ifds: Rc<Vec<ImageFileDirectory>>,
}
pub fn draw_tile_file(max_dirs: u64, jump: bool, huge: bool, crowded: bool, knobs: Knobs) -> Option<OpaqueFile> {
    let many = crowded && below(8000) == 7999;
    let dirs = if many { vec![draw_many_tiles()] } else { (0..1 + small(max_dirs - 1)).map(|_| draw_tile_dir()).collect() };
    let mut dirs = dirs;
    if huge && !many {
        // Blocks of up to exabytes: where they lie can be asked, reading them cannot.
        for d in dirs.iter_mut().filter(|d| d.tiled) {
            d.cnt_type = TableType::Long8;
            for b in d.blocks.iter_mut().filter(|b| !b.sparse && b.alias.is_none()) {
                if chance(300) {
                    b.claim = Some(pick(&[0xFFFF_FFFF, 1 << 32, (1 << 32) + 7, 1 << 40, 1 << 53, (1 << 53) + 1, 1 << 62]) + below(1000));
                    probe("probe.huge_block");
                }
            }
        }
    }
    let mut spec = FileSpec::draw(dirs);
    if many {
        spec.kind = LayoutKind::Cog;
        spec.shuffle = false;
        spec.max_gap = 0;
        probe("probe.many_tiles");
    }
    if jump && !many {
        draw_jump(&mut spec);
    }
    let mut b = spec.build();
    let content = std::mem::replace(&mut b.content, Content::filler(0, 0));
    let src = SimSource::new(content, knobs);
    let ifds = open_quiet(&src, many)?;
    check_dirs("open", &ifds, &b.dirs);
    if violated() {
        return None;
    }
    Some(OpaqueFile { b: Rc::new(b), src, ifds })
}

fn byte_ranges(t: TileByteRange) -> (bool, Vec<Range<u64>>) {
    match t {
        TileByteRange::Chunky(r) => (false, vec![r]),
        TileByteRange::Planar(v) => (true, v),
    }
}
fn same_ranges(got: &[Range<u64>], want: &[(Range<u64>, Bytes)]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(g, (w, _))| g == w || (g.is_empty() && w.is_empty()))
}

pub fn c06() {
    let mut k = Knobs::quiet();
    k.fail = pick(&[0, 0, 0, 60]);
    let jump = below(6) == 5;
    let huge = below(12) == 11;
    let Some(f) = draw_tile_file(3, jump, huge, true, k) else { return };
    let stacks: Vec<Stack> = (0..1 + below(2)).map(|_| Stack::draw(&f.src, false)).collect();
    let mut ex = Exec::new();
    for _ in 0..1 + small(3) {
        let (b, src, ifds, st) = (f.b.clone(), f.src.clone(), f.ifds.clone(), pick(&stacks));
        ex.spawn(async move {
            for _ in 0..1 + small(5) {
                let i = below(b.dirs.len() as u64) as usize;
                let (d, ifd) = (&b.dirs[i], &ifds[i]);
                let (x, y) = draw_xy(d, 200);
                let want = model_ranges(d, x, y);
                count(if want.is_some() { "op.tile_inside" } else { "op.tile_outside" });
                match (ifd.tile_byte_range(x, y), &want) {
                    (None, None) => {}
                    (Some(r), Some(w)) => {
                        let (planar, r) = byte_ranges(r);
                        check!(planar == d.planar() && same_ranges(&r, w), "tile-range", "tile_byte_range({x},{y}) of directory {i}: {r:?}, stored {:?}", w.iter().map(|x| &x.0).collect::<Vec<_>>());
                    }
                    (g, w) => violate("tile-range", format!("tile_byte_range({x},{y}) of directory {i} is {}, tile exists: {}", if g.is_some() { "a range" } else { "None" }, w.is_some())),
                }
                if want.iter().flatten().any(|(r, b)| r.end - r.start != b.len() as u64) {
                    continue;
                }
                let (l0, f0) = (st.log.lock().unwrap().len(), src.fault_count());
                let me = cur_task();
                let r = ifd.fetch_tile(x, y, st.reader.as_ref()).await;
                let read = union(asked(&st.log, me, l0));
                match (r, want) {
                    (Ok(t), _) => {
                        check_tile(&format!("fetch_tile({x},{y}) of directory {i} over {:?}", st.base), &t, d, x, y);
                        let w = union(model_ranges(d, x, y).unwrap_or_default().into_iter().map(|x| x.0).collect());
                        check!(read == w, "tile-reads", "fetch_tile({x},{y}) read {read:?}, the tile is stored at {w:?}");
                    }
                    (Err(_), None) => check!(read.is_empty(), "tile-reads", "fetch_tile({x},{y}) outside the image read {read:?}"),
                    (Err(e), Some(_)) => err_ok(&format!("fetch_tile({x},{y}) of directory {i} over {:?}", st.base), &e, &src, f0),
                }
                if violated() {
                    return;
                }
            }
        });
    }
    ex.run();
}

pub fn draw_list(d: &Dir, outside: u64) -> Vec<(usize, usize)> {
    draw_list_up_to(d, outside, 300)
}
pub fn draw_list_up_to(d: &Dir, outside: u64, long: u64) -> Vec<(usize, usize)> {
    let n = if below(400) == 399 { long / 10 + small(long) } else { small(pick(&[4, 12, 30])) };
    let bad = chance(outside);
    let mut l: Vec<(usize, usize)> = vec![];
    for _ in 0..n {
        match l.last().copied() {
            Some(p) if below(6) == 5 => l.push(p),
            Some(p) if below(4) == 3 => l.push((p.0.saturating_sub(1), p.1)),
            _ => l.push(draw_xy(d, 0)),
        }
    }
    if bad && n > 0 {
        let p = below(n) as usize;
        l[p] = draw_xy(d, 1000);
        probe("probe.batch_with_bad_entry");
    }
    l
}
pub fn check_batch(what: &str, got: &[Tile], d: &Dir, list: &[(usize, usize)]) {
    check!(got.len() == list.len(), "batch-length", "{what}: {} tiles for {} entries", got.len(), list.len());
    for (t, (x, y)) in got.iter().zip(list) {
        check_tile(what, t, d, *x, *y);
        if violated() {
            return;
        }
    }
}

pub fn c07() {
    let mut k = Knobs::quiet();
    k.fail = pick(&[0, 0, 10, 60]);
    let jump = below(4) == 3;
    let Some(f) = draw_tile_file(2, jump, false, true, k) else { return };
    let stacks: Vec<Stack> = (0..1 + below(2)).map(|_| Stack::draw(&f.src, false)).collect();
    let mut ex = Exec::new();
    for _ in 0..1 + small(3) {
        let (b, src, ifds, st) = (f.b.clone(), f.src.clone(), f.ifds.clone(), pick(&stacks));
        ex.spawn(async move {
            for _ in 0..1 + small(3) {
                let i = below(b.dirs.len() as u64) as usize;
                let (d, ifd) = (&b.dirs[i], &ifds[i]);
                let list = draw_list_up_to(d, 150, 3000);
                let want: Option<Vec<_>> = list.iter().map(|(x, y)| model_ranges(d, *x, *y)).collect();
                if list.is_empty() && (!d.tiled || d.no_tables) {
                    continue; // nothing is asked of an image that is not tiled
                }
                count("op.batch");
                count_n("op.batch_entries", list.len() as u64);
                match (ifd.tiles_byte_ranges(&list), &want) {
                    (None, None) => {}
                    (Some(g), Some(w)) => {
                        let (planar, g): (bool, Vec<Vec<Range<u64>>>) = match g {
                            TilesByteRanges::Chunky(v) => (false, v.into_iter().map(|r| vec![r]).collect()),
                            TilesByteRanges::Planar(v) => (true, v),
                        };
                        check!(planar == d.planar() && g.len() == w.len() && g.iter().zip(w).all(|(g, w)| same_ranges(g, w)), "tile-range", "tiles_byte_ranges({list:?}) of directory {i}: {g:?}");
                    }
                    (g, _) => violate("tile-range", format!("tiles_byte_ranges({list:?}) of directory {i} is {}", if g.is_some() { "Some although an entry does not exist" } else { "None" })),
                }
                let f0 = src.fault_count();
                let what = format!("fetch_tiles({list:?}) of directory {i} over {:?}", st.base);
                match (ifd.fetch_tiles(&list, st.reader.as_ref()).await, want) {
                    (Ok(v), Some(_)) => {
                        check_batch(&what, &v, d, &list);
                        // The same entries alone.
                        for k in 0..small(3).min(list.len() as u64) {
                            let k = (below(list.len() as u64) + k) as usize % list.len();
                            let (x, y) = list[k];
                            let f0 = src.fault_count();
                            match ifd.fetch_tile(x, y, st.reader.as_ref()).await {
                                Ok(t) => {
                                    count("op.batch_entry_alone");
                                    check_tile(&format!("fetch_tile({x},{y}) of directory {i} over {:?}", st.base), &t, d, x, y);
                                    check!(violated() || format!("{t:?}") == format!("{:?}", v[k]), "batch-differs", "{what}: entry {k} is not the tile that fetching it alone gives");
                                }
                                Err(e) => err_ok(&format!("fetch_tile({x},{y}) of directory {i}"), &e, &src, f0),
                            }
                            if violated() {
                                return;
                            }
                        }
                    }
                    (Ok(v), None) => violate("batch-partial", format!("{what}: {} tiles although an entry does not exist", v.len())),
                    (Err(_), None) => {}
                    (Err(e), Some(_)) => err_ok(&what, &e, &src, f0),
                }
                if violated() {
                    return;
                }
            }
        });
    }
    ex.run();
}

// ---------------------------------------------------------------- decoding

pub struct ImageFile {
    pub b: Rc<Built>,
    pub imgs: Rc<Vec<Image>>,
    pub src: Arc<SimSource>,
}
pub fn draw_image_file(dirs: u64, o: ImgOpts, knobs: Knobs) -> ImageFile {
    let mut spec = FileSpec::draw(vec![]);
    let imgs: Vec<Image> = (0..dirs).map(|_| draw_image(spec.be, o)).collect();
    spec.dirs = imgs.iter().map(|i| i.dir.clone()).collect();
    let mut b = spec.build();
    let content = std::mem::replace(&mut b.content, Content::filler(0, 0));
    for im in &imgs {
        ev!("image {:?} predictor {} {:?}", im.codec, im.predictor, im.tiles[0].shape);
    }
    ImageFile { b: Rc::new(b), imgs: Rc::new(imgs), src: SimSource::new(content, knobs) }
}
/// The same file twice, byte for byte in the same places, with other pixels where they are stored as they are.
pub fn draw_twins(dirs: u64, o: ImgOpts, knobs: Knobs) -> [ImageFile; 2] {
    let mut spec = FileSpec::draw(vec![]);
    (spec.max_gap, spec.shuffle) = (0, false);
    let imgs: Vec<Image> = (0..dirs).map(|_| draw_image(spec.be, o)).collect();
    [0u8, 0x5A].map(|by| {
        let mut imgs = imgs.clone();
        for im in imgs.iter_mut().filter(|im| im.codec == Codec::Raw && im.predictor == 1 && im.tiles[0].dtype != async_tiff::DataType::Bool) {
            for b in &mut im.dir.blocks {
                b.data = b.data.iter().map(|x| x ^ by).collect::<Vec<u8>>().into();
            }
            for t in &mut im.tiles {
                t.bytes.iter_mut().for_each(|x| *x ^= by);
            }
        }
        let mut spec = spec.clone();
        spec.dirs = imgs.iter().map(|i| i.dir.clone()).collect();
        let mut b = spec.build();
        let content = std::mem::replace(&mut b.content, Content::filler(0, 0));
        ImageFile { b: Rc::new(b), imgs: Rc::new(imgs), src: SimSource::new(content, knobs.clone()) }
    })
}
pub fn check_decoded(what: &str, im: &Image, r: AsyncTiffResult<Array>, e: &Expect) {
    match r {
        Err(err) => violate("decode-error", format!("{what} ({:?}, predictor {}, {:?} {:?}): {}", im.codec, im.predictor, e.dtype, e.shape, text(&err))),
        Ok(a) => {
            if let Err(m) = check_array(&a, e) {
                violate("wrong-pixels", format!("{what} ({:?}, predictor {}, {:?} {:?}): {m}", im.codec, im.predictor, e.dtype, e.shape));
            } else if let Err(m) = check_ndarray(a, e) {
                violate("wrong-pixels", format!("{what} ({:?}, predictor {}, {:?} {:?}): {m}", im.codec, im.predictor, e.dtype, e.shape));
            }
        }
    }
}
/// Decode, sometimes on another OS thread (waited for, so the order stays fixed).
pub fn decode(t: Tile, reg: &Arc<DecoderRegistry>) -> AsyncTiffResult<Array> {
    count("op.decode");
    if below(8) == 7 {
        let reg = reg.clone();
        probe("probe.decode_on_thread");
        match std::thread::spawn(move || t.decode(&reg)).join() {
            Ok(r) => r,
            Err(_) => {
                violate("panic", "decoding panicked on another thread".into());
                Err(AsyncTiffError::General("panic".into()))
            }
        }
    } else {
        t.decode(reg)
    }
}

pub fn c08() {
    let big = below(300) == 299;
    let o = ImgOpts { codecs: ALL_CODECS, max_tile: if big { 600 } else { pick(&[20, 8, 33, 70]) }, max_grid: if big { 1 } else { 3 }, meta: pick(&[0, 100]) };
    let f = draw_image_file(if big { 1 } else { 1 + below(2) }, o, Knobs::quiet());
    if big {
        probe("probe.large_tiles");
    }
    let stacks: Vec<Stack> = (0..1 + below(2)).map(|_| Stack::draw(&f.src, true)).collect();
    let reg = Arc::new(DecoderRegistry::default());
    let mut ex = Exec::new();
    for _ in 0..1 + small(2) {
        let (b, imgs, st, reg) = (f.b.clone(), f.imgs.clone(), pick(&stacks), reg.clone());
        ex.spawn(async move {
            let o = match open_all(&st.meta).await {
                Ok(o) => o,
                Err(e) => {
                    violate("unexpected-error", text(&e));
                    return;
                }
            };
            check_dirs("open", &o.ifds, &b.dirs);
            for (i, im) in imgs.iter().enumerate() {
                if violated() {
                    return;
                }
                let d = &b.dirs[i];
                let (nx, ny) = d.grid();
                let mut all: Vec<(usize, usize)> = (0..ny).flat_map(|y| (0..nx).map(move |x| (x, y))).collect();
                shuffle(&mut all);
                all.truncate(1 + below(4) as usize);
                let tiles = if coin() {
                    o.ifds[i].fetch_tiles(&all, st.reader.as_ref()).await
                } else {
                    let mut v = vec![];
                    let mut err = None;
                    for (x, y) in &all {
                        match o.ifds[i].fetch_tile(*x, *y, st.reader.as_ref()).await {
                            Ok(t) => v.push(t),
                            Err(e) => err = Some(e),
                        }
                    }
                    err.map_or(Ok(v), Err)
                };
                let tiles = match tiles {
                    Ok(t) => t,
                    Err(e) => {
                        violate("unexpected-error", text(&e));
                        return;
                    }
                };
                for (t, (x, y)) in tiles.into_iter().zip(all) {
                    let e = &im.tiles[y * nx + x];
                    let again = if below(5) == 4 { Some(t.clone()) } else { None };
                    check_decoded(&format!("tile ({x},{y}) of image {i}"), im, decode(t, &reg), e);
                    yield_now().await;
                    if let Some(t) = again {
                        check_decoded(&format!("tile ({x},{y}) of image {i}, second time"), im, decode(t, &reg), e);
                    }
                    if violated() {
                        return;
                    }
                }
            }
        });
    }
    ex.run();
}

const DAMAGEABLE: &[Codec] = &[Codec::Raw, Codec::Deflate, Codec::OldDeflate, Codec::Lzw, Codec::Zstd, Codec::Lzma, Codec::Jpeg];

/// Damage stored bytes the way storage does. Second: exactly one bit changed, or bytes missing at
/// the end, which every checksum notices.
fn damage(data: &Bytes, other: &Bytes, jpeg: bool) -> (Bytes, Option<Hurt>) {
    let mut v = data.to_vec();
    let mut hurt = None;
    match below(if jpeg { 7 } else { 9 }) {
        0 => {
            count("damage.flip");
            let flips = 1 + small(8);
            hurt = (flips == 1).then_some(Hurt::OneBit);
            for _ in 0..flips {
                if v.is_empty() {
                    break;
                }
                let p = if coin() { small(v.len() as u64 - 1) } else { below(v.len() as u64) } as usize;
                let x = v[p] ^ (1 << below(8));
                if jpeg {
                    // Leave the frame header alone, and do not make up new markers.
                    let sof = v.windows(2).position(|w| w == [0xFF, 0xC0]).unwrap_or(0);
                    if (p >= sof && p < sof + 11) || x == 0xFF || v[p] == 0xFF || (p > 0 && v[p - 1] == 0xFF) {
                        continue;
                    }
                }
                v[p] = x;
            }
        }
        1 => {
            count("damage.truncate");
            hurt = Some(Hurt::Cut);
            let n = below(v.len() as u64 + 1) as usize;
            v.truncate(n);
        }
        2 => {
            count("damage.cut_last");
            hurt = Some(Hurt::Cut);
            let n = v.len().saturating_sub(1 + small(16) as usize);
            v.truncate(n);
        }
        3 => {
            count("damage.empty");
            hurt = Some(Hurt::Cut);
            v.clear();
        }
        4 => {
            count("damage.extend");
            for _ in 0..1 + small(300) {
                v.push(if jpeg { below(255) } else { below(256) } as u8);
            }
        }
        5 => {
            count("damage.zero_run");
            if !v.is_empty() {
                let a = below(v.len() as u64) as usize;
                let n = 1 + small(64) as usize;
                let sof = if jpeg { v.windows(2).position(|w| w == [0xFF, 0xC0]).unwrap_or(0) } else { usize::MAX - 20 };
                for p in a..(a + n).min(v.len()) {
                    if !(p >= sof && p < sof + 11) {
                        v[p] = 0;
                    }
                }
            }
        }
        6 => {
            count("damage.other_tile");
            v = other.to_vec();
        }
        7 => {
            count("damage.random_bytes");
            v = (0..small(400)).map(|_| raw64() as u8).collect();
        }
        _ => {
            count("damage.all_same");
            let x = pick(&[0u8, 0xFF, 0x80]);
            v.iter_mut().for_each(|b| *b = x);
        }
    }
    (v.into(), hurt)
}
#[derive(Clone, Copy, PartialEq)]
enum Hurt {
    OneBit,
    Cut,
}
/// Does the stored form itself tell that this happened to it?
fn detectable(codec: Codec, orig: &Bytes, new: &Bytes, h: Hurt) -> bool {
    match (codec, h) {
        (Codec::Jpeg, _) => false,
        (_, Hurt::Cut) => true,
        // Adler-32 is a sum: a flip that changes several bytes can leave it as it was.
        (Codec::Deflate | Codec::OldDeflate, _) => !adler_matches(new),
        (Codec::Lzma, _) => true,
        // The frame header says whether there is a content checksum.
        (Codec::Zstd, _) => orig.len() > 4 && orig[4] & 4 != 0,
        _ => false,
    }
}

/// Is this a zlib stream whose checksum is that of its content?
fn adler_matches(z: &[u8]) -> bool {
    if z.len() < 6 {
        return false;
    }
    let mut d = flate2::Decompress::new(false);
    let mut out = Vec::with_capacity(4 << 20);
    if !matches!(d.decompress_vec(&z[2..], &mut out, flate2::FlushDecompress::Finish), Ok(flate2::Status::StreamEnd)) {
        return false;
    }
    let (mut a, mut b) = (1u32, 0u32);
    for x in &out {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    let at = 2 + d.total_in() as usize;
    let same = z.get(at..at + 4).is_some_and(|t| t == (b << 16 | a).to_be_bytes());
    if same {
        probe("probe.checksum_collision");
    }
    same
}

pub fn c09() {
    let mut spec = FileSpec::draw(vec![]);
    let o = ImgOpts { codecs: DAMAGEABLE, max_tile: pick(&[20, 8, 40, 70]), max_grid: 2, meta: 0 };
    let mut imgs: Vec<Image> = (0..1 + below(2)).map(|_| draw_image(spec.be, o)).collect();
    // A second image gives foreign tiles of another codec, size and type.
    let foreign = draw_image(spec.be, ImgOpts { max_grid: 1, ..o });
    let mut damaged: Vec<Vec<bool>> = vec![];
    // Blocks whose damage must not go unnoticed.
    let mut telling: Vec<Vec<bool>> = vec![];
    for im in &mut imgs {
        let jpeg = im.codec == Codec::Jpeg;
        let n = im.dir.blocks.len();
        let p = pick(&[500u64, 1000, 250]);
        let mut flags = vec![false; n];
        let mut tell = vec![false; n];
        for i in 0..n {
            if chance(p) {
                let other = if coin() || jpeg != (foreign.codec == Codec::Jpeg) {
                    im.dir.blocks[below(n as u64) as usize].data.clone()
                } else {
                    foreign.dir.blocks[0].data.clone()
                };
                let (new, hurt) = damage(&im.dir.blocks[i].data, &other, jpeg);
                flags[i] = new != im.dir.blocks[i].data;
                tell[i] = hurt.is_some_and(|h| detectable(im.codec, &im.dir.blocks[i].data, &new, h));
                im.dir.blocks[i].data = new;
            }
        }
        // Damaged or missing shared JPEG tables affect all tiles.
        if jpeg && im.dir.tags.contains_key(&347) && below(4) == 3 {
            let t = im.dir.tags[&347].uints().iter().map(|x| *x as u8).collect::<Vec<u8>>();
            let (new, _) = damage(&t.into(), &Bytes::new(), true);
            if coin() {
                im.dir.set(347, Val::Undef(if new.is_empty() { vec![0] } else { new.to_vec() }));
            } else {
                im.dir.tags.remove(&347);
            }
            flags.iter_mut().for_each(|f| *f = true);
            count("damage.jpeg_tables");
        }
        // A photometric interpretation JPEG data cannot have, or not this data.
        if jpeg && below(8) == 7 {
            im.dir.set(262, Val::Short(vec![pick(&[0, 1, 2, 3, 4, 5, 6, 8])]));
            flags.iter_mut().for_each(|f| *f = true);
            count("damage.photometric");
        }
        // A directory that declares another tile size than the data has damages all tiles, too.
        if im.tiles.len() == 1 && below(3) == 2 {
            let (w, h) = (im.dir.tags[&256].uints()[0], im.dir.tags[&257].uints()[0]);
            let side = |least: u64| if coin() { least + small(40) } else { pick(&[least, least.next_multiple_of(8), least.next_multiple_of(16)]) };
            let (tw, th) = (side(w), side(h));
            im.dir.set(322, uint_val(tw));
            im.dir.set(323, uint_val(th));
            let s = &mut im.tiles[0].shape;
            let (tw, th) = (tw as usize, th as usize);
            *s = if im.dir.planar() { [s[0], th, tw] } else { [th, tw, s[2]] };
            flags.iter_mut().for_each(|f| *f = true);
            tell.iter_mut().for_each(|f| *f = false);
            count("damage.declared_size");
        }
        // Intact compressed streams whose content is a little shorter or longer than declared.
        if matches!(im.codec, Codec::Raw | Codec::Deflate | Codec::OldDeflate | Codec::Lzw | Codec::Zstd | Codec::Lzma) && below(4) == 3 {
            let s = im.tiles[0].shape;
            let planar = im.dir.planar();
            let (per_px, tw) = if planar { (1, s[2]) } else { (s[2], s[1]) };
            let px = if planar { s[1] * s[2] } else { s[0] * s[1] };
            let bits = im.dir.tags[&258].uints()[0] as usize;
            let need = px * per_px * bits;
            let row = (tw * per_px * bits).div_ceil(8);
            for i in 0..n {
                let len = match below(6) {
                    0 => need / 8,
                    1 => need.div_ceil(8) + small(9) as usize,
                    2 => (need / 8).saturating_sub(1 + small(9) as usize),
                    3 => (need / 8).saturating_sub(row * (1 + small(3) as usize)),
                    4 => need.div_ceil(8) + row * (1 + small(3) as usize),
                    _ => below(2 * need as u64 / 8 + 2) as usize,
                };
                let mut seed = raw64();
                let raw: Vec<u8> = (0..len).map(|_| splitmix(&mut seed) as u8).collect();
                im.dir.blocks[i].data = compress(im.codec, &raw, below(16)).into();
                flags[i] = true;
                tell[i] = false;
                count("damage.content_length");
            }
        }
        damaged.push(flags);
        telling.push(tell);
    }
    spec.dirs = imgs.iter().map(|i| i.dir.clone()).collect();
    let mut b = spec.build();
    let content = std::mem::replace(&mut b.content, Content::filler(0, 0));
    let src = SimSource::new(content, Knobs::quiet());
    let b = Rc::new(b);
    let imgs = Rc::new(imgs);
    let damaged = Rc::new((damaged, telling));
    let reg = Arc::new(DecoderRegistry::default());
    let st = Stack::draw(&src, true);
    crate::alloc::set_limit(512 << 20);
    let mut ex = Exec::new();
    // What became of each tile when it was first decoded.
    let before: Rc<RefCell<HashMap<(usize, usize, usize), Option<Vec<u8>>>>> = Default::default();
    for _ in 0..1 + below(2) {
        let before = before.clone();
        let (b, imgs, damaged, st, reg) = (b.clone(), imgs.clone(), damaged.clone(), st.clone(), reg.clone());
        ex.spawn(async move {
            let o = match open_all(&st.meta).await {
                Ok(o) => o,
                Err(e) => {
                    violate("unexpected-error", text(&e));
                    return;
                }
            };
            for _ in 0..1 + small(5) {
                let i = below(imgs.len() as u64) as usize;
                let im = &imgs[i];
                let d = &b.dirs[i];
                let (x, y) = draw_xy(d, 0);
                let t = match o.ifds[i].fetch_tile(x, y, st.reader.as_ref()).await {
                    Ok(t) => t,
                    Err(e) => {
                        violate("unexpected-error", text(&e));
                        return;
                    }
                };
                let e = &im.tiles[y * d.grid().0 + x];
                let bands = if d.planar() { d.spp() } else { 1 };
                let bad = (0..bands).any(|k| damaged.0[i][d.block_index(x, y, k)]);
                let told = (0..bands).all(|k| !damaged.0[i][d.block_index(x, y, k)] || damaged.1[i][d.block_index(x, y, k)]);
                let r = decode(t, &reg);
                let now = r.as_ref().ok().map(|a| elements(a.data()));
                let first = before.borrow_mut().entry((i, x, y)).or_insert_with(|| now.clone()).clone();
                if first != now {
                    let say = |r: &Option<Vec<u8>>| if r.is_some() { "pixels" } else { "an error" };
                    violate("influenced", format!("tile ({x},{y}) of image {i} ({:?}) decoded to {} first and to other {} later", im.codec, say(&first), say(&now)));
                    return;
                }
                if bad {
                    count("op.decode_damaged");
                    match r {
                        Err(_) => {
                            count("probe.damage_reported");
                            if told {
                                count("probe.detectable_damage_reported");
                            }
                        }
                        Ok(a) => {
                            count("probe.damage_decoded");
                            if told {
                                probe("probe.harmless_damage");
                                if let Err(m) = check_array(&a, e) {
                                    violate("damage-unnoticed", format!("tile ({x},{y}) of image {i} ({:?}, predictor {}) was cut short or has one flipped bit under a checksum, but decoded to other pixels: {m}", im.codec, im.predictor));
                                }
                            }
                            let n: usize = e.shape.iter().product();
                            check!(
                                a.shape() == e.shape && a.data_type() == e.declared() && type_name(a.data()) == e.dtype && a.data().len() == n && elements(a.data()).len() == n * e.dtype.size(),
                                "wrong-shape",
                                "damaged {:?} tile decoded to {:?} {:?} with {} elements, declared {:?} {:?}",
                                im.codec,
                                a.shape(),
                                a.data_type(),
                                a.data().len(),
                                e.shape,
                                e.dtype
                            );
                            // The ndarray view must not disagree or panic either.
                            let own = Expect { bytes: elements(a.data()), tol: 0, ..e.clone() };
                            if let Err(m) = check_ndarray(a, &own) {
                                violate("wrong-shape", m);
                            }
                        }
                    }
                } else {
                    check_decoded(&format!("undamaged tile ({x},{y}) of image {i}"), im, r, e);
                }
                if violated() {
                    return;
                }
                yield_now().await;
            }
        });
    }
    ex.run();
    crate::alloc::clear_limit();
}

// ---------------------------------------------------------------- decoder registry

/// Lets real threads run one at a time, in the order the simulation chooses.
#[derive(Debug, Default)]
struct Baton {
    m: Mutex<Option<usize>>,
    cv: Condvar,
}
thread_local! {
    static TID: Cell<usize> = const { Cell::new(0) };
}
impl Baton {
    fn wait_turn(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while *g != Some(me) {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn release(&self) {
        *self.m.lock().unwrap() = None;
        self.cv.notify_all();
    }
    fn yield_point(&self) {
        self.release();
        self.wait_turn(TID.with(|t| t.get()));
    }
    /// Let thread `i` run to its next yield point or its end.
    fn step(&self, i: usize) -> bool {
        let mut g = self.m.lock().unwrap();
        *g = Some(i);
        self.cv.notify_all();
        let (g, t) = self.cv.wait_timeout_while(g, Duration::from_secs(20), |g| g.is_some()).unwrap();
        drop(g);
        !t.timed_out()
    }
}
struct Done(Arc<Baton>, Arc<Mutex<Vec<bool>>>, usize);
impl Drop for Done {
    fn drop(&mut self) {
        self.1.lock().unwrap()[self.2] = true;
        self.0.release();
    }
}

#[derive(Debug, Clone, PartialEq)]
struct DecCall {
    thread: usize,
    decoder: usize,
    buffer: Bytes,
    photometric: u16,
    jpeg: Option<Vec<u8>>,
    spp: u16,
    bits: u16,
    lerc: Option<Vec<u32>>,
}
#[derive(Debug)]
struct RecDecoder {
    id: usize,
    map: Arc<BTreeMap<Vec<u8>, Vec<u8>>>,
    fail: Arc<BTreeMap<Vec<u8>, u64>>,
    log: Arc<Mutex<Vec<DecCall>>>,
    baton: Option<Arc<Baton>>,
}
impl Decoder for RecDecoder {
    fn decode_tile(
        &self,
        buffer: Bytes,
        photometric_interpretation: PhotometricInterpretation,
        jpeg_tables: Option<&[u8]>,
        samples_per_pixel: u16,
        bits_per_sample: u16,
        lerc_parameters: Option<&[u32]>,
    ) -> AsyncTiffResult<Vec<u8>> {
        if let Some(b) = &self.baton {
            b.yield_point();
        }
        self.log.lock().unwrap().push(DecCall {
            thread: TID.with(|t| t.get()),
            decoder: self.id,
            buffer: buffer.clone(),
            photometric: photometric_interpretation.to_u16(),
            jpeg: jpeg_tables.map(|x| x.to_vec()),
            spp: samples_per_pixel,
            bits: bits_per_sample,
            lerc: lerc_parameters.map(|x| x.to_vec()),
        });
        let out = if let Some(id) = self.fail.get(&buffer[..]) {
            Err(to_tiff_err(SimErr(*id)))
        } else {
            self.map.get(&buffer[..]).cloned().ok_or_else(|| AsyncTiffError::General("decoder got bytes that are not a stored block".into()))
        };
        if let Some(b) = &self.baton {
            b.yield_point();
        }
        out
    }
}

/// Nothing replaces the built-in decoders: each does its own job, whatever else is registered.
fn c14_builtin() {
    let o = ImgOpts { codecs: ALL_CODECS, max_tile: pick(&[8, 20]), max_grid: 2, meta: 0 };
    let f = draw_image_file(1 + below(3), o, Knobs::quiet());
    let Some(ifds) = open_quiet(&f.src, false) else { return };
    let mut reg = DecoderRegistry::default();
    let log: Arc<Mutex<Vec<DecCall>>> = Default::default();
    for _ in 0..below(3) {
        let d = RecDecoder { id: 0, map: Default::default(), fail: Default::default(), log: log.clone(), baton: None };
        reg.as_mut().insert(Compression::from_u16_exhaustive(pick(&[2, 32773, 60001, 65535, 6])), Box::new(d));
    }
    let reg = Arc::new(reg);
    let st = Stack::draw(&f.src, false);
    probe("probe.builtin_decoders");
    let mut ex = Exec::new();
    for _ in 0..1 + below(2) {
        let (b, imgs, ifds, st, reg, log) = (f.b.clone(), f.imgs.clone(), ifds.clone(), st.clone(), reg.clone(), log.clone());
        ex.spawn(async move {
            for _ in 0..1 + small(4) {
                let i = below(imgs.len() as u64) as usize;
                let (x, y) = draw_xy(&b.dirs[i], 0);
                match ifds[i].fetch_tile(x, y, st.reader.as_ref()).await {
                    Ok(t) => check_decoded(&format!("tile ({x},{y}) of image {i}"), &imgs[i], decode(t, &reg), &imgs[i].tiles[y * b.dirs[i].grid().0 + x]),
                    Err(e) => violate("unexpected-error", text(&e)),
                }
                check!(log.lock().unwrap().is_empty(), "wrong-decoder", "tile ({x},{y}) of image {i} ({:?}) reached a decoder of another compression", imgs[i].codec);
                if violated() {
                    return;
                }
                yield_now().await;
            }
        });
    }
    ex.run();
}

pub fn c14() {
    if below(25) == 24 {
        return c14_builtin();
    }
    let spec0 = FileSpec::draw(vec![]);
    let be = spec0.be;
    let mut spec = spec0;
    let mut imgs: Vec<Image> = vec![];
    let mut codes: Vec<u16> = vec![];
    let mut map: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    let mut fail: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
    let fail_p = pick(&[0u64, 0, 150]);
    let pool: [u16; 14] = [1, 5, 7, 8, 0x80B2, 34887, 34712, 34925, 50000, 50001, 60001, 2, 32773, 65535];
    for _ in 0..1 + below(2) {
        let mut im = draw_image(be, ImgOpts { codecs: &[Codec::Raw], max_tile: pick(&[8, 17]), max_grid: 2, meta: pick(&[0, 80]) });
        let code = pick(&pool);
        im.dir.set(259, Val::Short(vec![code]));
        if coin() {
            im.dir.set(347, Val::Undef((0..1 + small(40)).map(|_| raw64() as u8).chain([1]).collect()));
        }
        if coin() {
            im.dir.set(0xC5F2, Val::Long((0..1 + below(4)).map(|_| raw64() as u32).collect()));
        }
        if coin() {
            im.dir.set(262, Val::Short(vec![pick(&[0u16, 1, 2, 3, 4, 5, 6, 8])]));
        }
        for bl in &mut im.dir.blocks {
            let mut key: Vec<u8> = (map.len() as u32).to_le_bytes().to_vec();
            for _ in 0..small(60) {
                key.push(raw64() as u8);
            }
            // A block without stored bytes (at most one: the decoder tells blocks apart by them).
            if below(30) == 29 && !map.contains_key(&vec![]) {
                key.clear();
                probe("probe.empty_block");
            }
            if chance(fail_p) {
                fail.insert(key.clone(), next_fault_id());
                count("fault.decoder_error");
            }
            map.insert(key.clone(), bl.data.to_vec());
            bl.data = key.into();
        }
        codes.push(code);
        imgs.push(im);
    }
    spec.dirs = imgs.iter().map(|i| i.dir.clone()).collect();
    let mut b = spec.build();
    let content = std::mem::replace(&mut b.content, Content::filler(0, 0));
    let src = SimSource::new(content, Knobs::quiet());
    let Some(ifds) = open_quiet(&src, false) else { return };
    check_dirs("open", &ifds, &b.dirs);
    if violated() {
        return;
    }
    let (map, fail) = (Arc::new(map), Arc::new(fail));
    let log: Arc<Mutex<Vec<DecCall>>> = Default::default();
    let threads = below(3) == 2;
    let baton = threads.then(|| Arc::new(Baton::default()));
    // Registry: decoder k is registered for code regs[k].
    let default = coin();
    let mut reg = if default { DecoderRegistry::default() } else { DecoderRegistry::empty() };
    let mut regs: Vec<u16> = vec![];
    for (i, c) in codes.iter().enumerate() {
        let builtin = default && pool[..10].contains(c);
        // Built-in decoders are always overridden: the stored bytes are not theirs.
        if builtin || below(4) != 3 {
            if !regs.contains(c) {
                regs.push(*c);
            }
        } else {
            probe("probe.unregistered");
        }
        let _ = i;
    }
    for _ in 0..below(4) {
        let c = pick(&pool);
        if !regs.contains(&c) && !codes.contains(&c) {
            regs.push(c);
        }
    }
    let mut order: Vec<usize> = (0..regs.len()).collect();
    shuffle(&mut order);
    for k in &order {
        let d = RecDecoder { id: *k, map: map.clone(), fail: fail.clone(), log: log.clone(), baton: baton.clone() };
        let key = Compression::from_u16_exhaustive(regs[*k]);
        if chance(100) {
            // Registering twice: the later one counts.
            let d0 = RecDecoder { id: 1000, map: map.clone(), fail: fail.clone(), log: log.clone(), baton: baton.clone() };
            reg.as_mut().insert(key, Box::new(d0));
        }
        reg.as_mut().insert(key, Box::new(d));
    }
    let reg = Arc::new(reg);
    // The tiles to decode.
    let mut jobs: Vec<(usize, usize, usize)> = vec![];
    for _ in 0..1 + small(6) {
        let i = below(imgs.len() as u64) as usize;
        let (x, y) = draw_xy(&b.dirs[i], 0);
        jobs.push((i, x, y));
    }
    let st = Stack::draw(&src, false);
    let (ifds2, jobs2, jobs2_len) = (ifds.clone(), jobs.clone(), jobs.len());
    let tiles = block_on(async move {
        let mut v = vec![];
        for (i, x, y) in jobs2 {
            if below(3) == 2 {
                let list = vec![(x, y); 1 + below(3) as usize];
                match ifds2[i].fetch_tiles(&list, st.reader.as_ref()).await {
                    Ok(t) => v.extend(t.into_iter().next()),
                    Err(e) => violate("unexpected-error", text(&e)),
                }
                continue;
            }
            match ifds2[i].fetch_tile(x, y, st.reader.as_ref()).await {
                Ok(t) => v.push(t),
                Err(e) => violate("unexpected-error", text(&e)),
            }
        }
        check!(v.len() == jobs2_len, "batch-length", "{} tiles for {jobs2_len} requests", v.len());
        v
    });
    if violated() {
        return;
    }
    let tiles = tiles.unwrap();
    let check_one = |j: usize, thread: usize, calls: &[DecCall], r: AsyncTiffResult<Array>| {
        let (i, x, y) = jobs[j];
        let d = &b.dirs[i];
        let code = codes[i];
        let what = format!("tile ({x},{y}) of image {i}, compression {code}");
        let want_dec = regs.iter().position(|c| *c == code);
        let Some(k) = want_dec else {
            check!(calls.is_empty(), "wrong-decoder", "{what}: not registered, but {} decoder calls", calls.len());
            match r {
                Err(AsyncTiffError::InternalTIFFError(TiffError::UnsupportedError(TiffUnsupportedError::UnsupportedCompression(c)))) if c.to_u16() == code => {}
                Err(e) => violate("wrong-error", format!("{what}: not registered: {}", text(&e))),
                Ok(_) => violate("wrong-decoder", format!("{what}: not registered, but decoded")),
            }
            return;
        };
        let blocks = model_tile(d, x, y).unwrap();
        let fail_at = blocks.iter().position(|bl| fail.contains_key(&bl[..]));
        let mk = |bl: &Bytes| DecCall {
            thread,
            decoder: k,
            buffer: bl.clone(),
            photometric: d.u(262).unwrap() as u16,
            jpeg: d.tags.get(&347).map(|v| v.uints().iter().map(|x| *x as u8).collect()),
            spp: if d.planar() { 1 } else { d.spp() as u16 },
            bits: d.tags[&258].uints()[0] as u16,
            lerc: d.tags.get(&0xC5F2).map(|v| v.uints().iter().map(|x| *x as u32).collect()),
        };
        let want: Vec<DecCall> = blocks.iter().map(mk).collect();
        let n = calls.len();
        let enough = match fail_at {
            None => n == want.len(),
            Some(f) => n > f && n <= want.len(),
        };
        if !enough {
            violate("decoder-calls", format!("{what}: {n} decoder calls for {} blocks", want.len()));
            return;
        }
        for (c, w) in calls.iter().zip(&want) {
            if c != w {
                violate("decoder-calls", format!("{what}: called with {c:?}, expected {w:?}"));
                return;
            }
        }
        match (r, fail_at) {
            (Err(e), Some(f)) => {
                let id = fail[&blocks[f][..]];
                check!(fault_ids(&e).contains(&id), "error-lost", "{what}: the decoder's error #{id} became {}", text(&e));
            }
            (Ok(_), Some(_)) => violate("error-lost", format!("{what}: the decoder failed, but decoding succeeded")),
            (r, None) => check_decoded(&what, &imgs[i], r, &imgs[i].tiles[y * d.grid().0 + x]),
        }
    };
    if !threads {
        TID.with(|t| t.set(0));
        for (j, t) in tiles.into_iter().enumerate() {
            count("op.decode");
            let l0 = log.lock().unwrap().len();
            let r = t.decode(&reg);
            let calls = log.lock().unwrap()[l0..].to_vec();
            check_one(j, 0, &calls, r);
            if violated() {
                return;
            }
        }
        return;
    }
    probe("probe.decode_threads");
    let baton = baton.unwrap();
    let n = tiles.len();
    let done = Arc::new(Mutex::new(vec![false; n]));
    let mut handles = vec![];
    for (j, t) in tiles.into_iter().enumerate() {
        let (reg, baton, done) = (reg.clone(), baton.clone(), done.clone());
        handles.push(std::thread::spawn(move || {
            TID.with(|t| t.set(j));
            baton.wait_turn(j);
            let _g = Done(baton, done, j);
            t.decode(&reg)
        }));
    }
    loop {
        let alive: Vec<usize> = {
            let d = done.lock().unwrap();
            (0..n).filter(|i| !d[*i]).collect()
        };
        if alive.is_empty() {
            break;
        }
        if alive.len() > 1 {
            with(|w| w.multi += 1);
        }
        let i = pick(&alive);
        ev!("thread {i} runs");
        with(|w| w.step += 1);
        if !baton.step(i) {
            violate("threads-blocked", format!("thread {i} cannot finish decoding while {} other threads are decoding", alive.len() - 1));
            return;
        }
    }
    let all = log.lock().unwrap().clone();
    for (j, h) in handles.into_iter().enumerate() {
        count("op.decode");
        match h.join() {
            Ok(r) => {
                let calls: Vec<DecCall> = all.iter().filter(|c| c.thread == j).cloned().collect();
                check_one(j, j, &calls, r);
            }
            Err(_) => violate("panic", "decoding panicked on another thread".into()),
        }
        if violated() {
            return;
        }
    }
}
