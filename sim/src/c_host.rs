//! C10: damaged and hostile metadata.
use std::rc::Rc;
use std::sync::Arc;

use async_tiff::decoder::DecoderRegistry;
use async_tiff::metadata::{ImageFileDirectoryReader, TiffMetadataReader};
use async_tiff::reader::Endianness;
use async_tiff::{ImageFileDirectory, TIFF};
use bytes::Bytes;
use futures::FutureExt;

use crate::codec::*;
use crate::core::*;
use crate::geo::add_geo;
use crate::io::*;
use crate::stack::*;
use crate::tiff::*;

/// Where the fields of a file are.
struct Map {
    big: bool,
    be: bool,
    dirs: Vec<(u64, u64)>,
    meta: Vec<(u64, u64)>,
}
fn put(v: &mut [u8], at: u64, size: usize, x: u64, be: bool) {
    let at = at as usize;
    if at.checked_add(size).is_none_or(|e| e > v.len()) {
        return;
    }
    let le = x.to_le_bytes();
    for i in 0..size {
        v[at + i] = le[if be { size - 1 - i } else { i }];
    }
}
const TAGS: &[u16] = &[
    254, 256, 257, 258, 259, 262, 270, 273, 277, 278, 279, 282, 284, 296, 306, 315, 317, 320, 322, 323, 324, 325, 338, 339, 347, 33550, 33922,
    34264, 34735, 34736, 34737, 42112, 42113, 0xC5F2, 0, 65535, 330, 34665, 514,
];
fn hostile(len: u64, m: &Map) -> u64 {
    match below(10) {
        0 => below(20),
        1 => len,
        2 => len.saturating_sub(1 + small(40)),
        3 => len + small(40),
        4 => pick(&[0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000]),
        5 => pick(&[0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0xFFFF_FFFE, 0xFFFF_FFF0, 0x2000_0000, 0x1_0000_0000]),
        6 => pick(&[u64::MAX, u64::MAX - 1, u64::MAX - 8, u64::MAX - 100, i64::MAX as u64, 1 << 63, 1 << 62, u64::MAX / 8, u64::MAX / 16 + 1, u64::MAX / 20, u64::MAX / 20 - 1, u64::MAX / 12, u64::MAX / 2, u64::MAX / 4]),
        7 if !m.dirs.is_empty() => pick(&m.dirs).0,
        8 => below(len + 1),
        _ => raw64() >> below(64),
    }
}
fn damage_field(v: &mut [u8], m: &Map) {
    let len = v.len() as u64;
    let x = hostile(len, m);
    if m.dirs.is_empty() {
        return;
    }
    let (off, n) = pick(&m.dirs);
    let (cs, es, vs) = if m.big { (8u64, 20u64, 8usize) } else { (2, 12, 4) };
    let e = off + cs + es * below(n.max(1));
    match below(9) {
        0 => {
            count("damage.entry_count");
            put(v, off, cs as usize, x, m.be)
        }
        1 => {
            count("damage.tag_code");
            put(v, e, 2, pick(TAGS) as u64, m.be)
        }
        2 => {
            count("damage.type_code");
            put(v, e + 2, 2, if coin() { below(20) } else { x }, m.be)
        }
        3 | 4 => {
            count("damage.value_count");
            put(v, e + 4, vs, x, m.be)
        }
        5 | 6 => {
            count("damage.value_or_offset");
            put(v, e + 4 + vs as u64, vs, x, m.be)
        }
        7 => {
            count("damage.next_pointer");
            put(v, off + cs + es * n, vs, x, m.be)
        }
        _ => {
            count("damage.short_value");
            put(v, e + 4 + vs as u64, 2, x, m.be)
        }
    }
}
fn damage(v: &mut Vec<u8>, m: &Map) {
    let len = v.len() as u64;
    match below(12) {
        0..=6 => {
            for _ in 0..1 + small(3) {
                damage_field(v, m)
            }
        }
        7 => {
            count("damage.truncate");
            let k = if coin() { below(len + 1) } else { pick(&m.meta).1.saturating_sub(small(20)) };
            v.truncate(k as usize);
        }
        8 => {
            count("damage.flip");
            for _ in 0..1 + small(30) {
                let r = pick(&m.meta);
                let p = (r.0 + below((r.1 - r.0).max(1))) as usize;
                if p < v.len() {
                    v[p] ^= 1 << below(8);
                }
            }
        }
        9 => {
            count("damage.overwrite_words");
            for _ in 0..1 + small(6) {
                let r = pick(&m.meta);
                let p = r.0 + below((r.1 - r.0).max(1));
                put(v, p, pick(&[1, 2, 4, 8]), hostile(len, m), m.be);
            }
        }
        10 => {
            count("damage.header");
            put(v, below(8), pick(&[1, 2, 4, 8]), hostile(len, m), m.be);
        }
        _ => {
            count("damage.zero_or_ones");
            let r = pick(&m.meta);
            let a = (r.0 + below((r.1 - r.0).max(1))) as usize;
            let b = (a + small(60) as usize + 1).min(v.len());
            let x = if coin() { 0 } else { 0xFF };
            for i in a..b.max(a) {
                v[i] = x;
            }
        }
    }
}
fn from_built(b: Built) -> (Vec<u8>, Map) {
    let v = b.content.read(0..b.content.len);
    let m = Map { big: b.big, be: b.be, dirs: b.dirs.iter().map(|d| (d.offset, d.order.len() as u64)).collect(), meta: b.meta_ranges.clone() };
    (v, m)
}
fn small_spec(dirs: Vec<Dir>) -> FileSpec {
    let mut s = FileSpec::draw(dirs);
    s.max_gap = s.max_gap.min(40);
    s.trailing = s.trailing.min(100);
    s
}
/// A file made of entries nobody would write.
fn synthetic() -> (Vec<u8>, Map) {
    let (big, be) = (coin(), coin());
    let mut v: Vec<u8> = vec![];
    v.extend_from_slice(if be { b"MM" } else { b"II" });
    let w = |v: &mut Vec<u8>, x: u64, n: usize| {
        let at = v.len();
        v.resize(at + n, 0);
        put(v, at as u64, n, x, be);
    };
    let hdr = if big { 16 } else { 8 };
    if big {
        w(&mut v, 43, 2);
        w(&mut v, 8, 2);
        w(&mut v, 0, 2);
        w(&mut v, 16, 8);
    } else {
        w(&mut v, 42, 2);
        w(&mut v, 8, 4);
    }
    let (cs, vs) = if big { (8usize, 8usize) } else { (2, 4) };
    let n = 1 + small(30);
    let mut m = Map { big, be, dirs: vec![(hdr, n)], meta: vec![(0, hdr + 400)] };
    w(&mut v, n, cs);
    for i in 0..n {
        let tag = if i < 14 && below(4) != 3 { [256u16, 257, 258, 262, 277, 322, 323, 324, 325, 259, 317, 284, 339, 34735][i as usize] } else { pick(TAGS) };
        w(&mut v, tag as u64, 2);
        w(&mut v, if below(4) == 3 { below(20) } else { pick(&[3u64, 4, 16, 12, 2, 1]) }, 2);
        let c = if coin() { 1 } else { hostile(600, &m) };
        w(&mut v, c, vs);
        let x = if coin() { 1 + below(20) } else { hostile(600, &m) };
        w(&mut v, x, vs);
    }
    let x = if coin() { 0 } else { hostile(600, &m) };
    w(&mut v, x, vs);
    let tail = small(600);
    for i in 0..tail {
        v.push(if below(3) == 0 { raw64() as u8 } else { (i % 7) as u8 });
    }
    m.meta = vec![(0, v.len() as u64)];
    count("input.synthetic");
    (v, m)
}

/// Well-formed, readable entries whose values make no sense together.
fn nonsense(d: &mut Dir) {
    let side = || pick(&[0u64, 1, 2, 7, 8, 16, 255, 65535, 65536, 0x7FFF_FFFF, 0xFFFF_FFFF]);
    let num = |x: u64| if x < 65536 && coin() { Val::Short(vec![x as u16]) } else if x < 1 << 32 { Val::Long(vec![x as u32]) } else { Val::Long8(vec![x]) };
    let list = |n: u64, f: &dyn Fn() -> u16| Val::Short((0..n).map(|_| f()).collect());
    if coin() {
        d.tiled = true;
    }
    for _ in 0..1 + small(5) {
        match below(16) {
            0 => d.set(256, num(side())),
            1 => d.set(257, num(side())),
            2 => d.set(322, num(side())),
            3 => d.set(323, num(side())),
            4 => {
                let n = pick(&[0, 0, 1, 2, 3, 9]);
                d.set(258, list(n, &|| pick(&[0, 1, 7, 8, 9, 12, 16, 24, 32, 33, 64, 65, 128, 65535])))
            }
            5 => d.set(277, num(pick(&[0, 0, 1, 2, 3, 255, 65535]))),
            6 => d.set(284, num(pick(&[0, 1, 2, 2, 2, 3, 65535]))),
            7 => d.set(317, num(pick(&[0, 1, 2, 2, 3, 3, 4, 34892]))),
            8 => {
                let n = pick(&[0, 1, 2, 5]);
                d.set(339, list(n, &|| pick(&[0, 1, 2, 3, 4, 7])))
            }
            9 => d.set(259, num(pick(&[1, 5, 8, 50000, 7, 34887, 34925, 32946, 65000]))),
            10 => {
                let n = pick(&[0, 1, 2, 3, 4]);
                d.set(347, Val::Undef((0..n).map(|_| pick(&[0xFF, 0xD8, 0xD9, 0])).collect()))
            }
            11 => {
                let n = pick(&[0, 1, 2, 3]);
                d.set(0xC5F2, Val::Long((0..n).map(|_| below(4) as u32).collect()))
            }
            12 => {
                // Block tables of any length, pointing anywhere.
                d.no_tables = true;
                let v = |n: u64, top: u64| -> Val {
                    let x: Vec<u64> = (0..n).map(|_| if below(4) == 3 { pick(&[u64::MAX, u64::MAX - 1, u64::MAX / 2, 1 << 32, 0xFFFF_FFFF]) } else { below(top) }).collect();
                    if x.iter().all(|x| *x < 1 << 32) && coin() { Val::Long(x.iter().map(|x| *x as u32).collect()) } else { Val::Long8(x) }
                };
                let (a, b) = (small(12), small(12));
                d.set(324, v(a, 300));
                d.set(325, v(b, 100));
            }
            13 => {
                let keys: Vec<u16> = (0..small(24)).map(|i| match i {
                    0 | 1 if below(8) != 7 => 1,
                    3 if coin() => below(8) as u16,
                    _ => pick(&[0, 1, 2, 1024, 1026, 2049, 2057, 3072, 3073, 4096, 34736, 34737, 65535, 5]),
                }).collect();
                d.set(34735, Val::Short(keys));
            }
            14 => {
                let n = small(6);
                d.set(34736, Val::Double((0..n).map(|_| pick(&[0.0, -1.5, f64::NAN, f64::INFINITY])).collect()))
            }
            _ => {
                let n = small(6) as usize;
                d.set(34737, Val::Ascii(pick(&["abc|", "|", "é漢|", "a|b|c|", "x"]).repeat(n)))
            }
        }
    }
    count("input.nonsense");
}

async fn poke(ifds: &[ImageFileDirectory], st: &Stack, reg: &DecoderRegistry) {
    for ifd in ifds.iter().take(4) {
        if let Some(g) = ifd.geo_key_directory() {
            let _ = g.epsg_code();
            let _ = format!("{g:?}").len();
            count("op.geo_keys");
        }
        let n = ifd.tile_count();
        let planar = ifd.planar_configuration().to_u16() == 2;
        for _ in 0..3 {
            let (nx, ny) = n.unwrap_or((1, 1));
            let far = |n: usize| match below(6) {
                0 => 0,
                1 => n.saturating_sub(1),
                2 => n,
                3 => usize::MAX,
                4 => usize::MAX / 2 + 1,
                _ => below((n as u64).clamp(1, 1 << 40)) as usize,
            };
            let (x, y) = (far(nx), far(ny));
            let r = ifd.tile_byte_range(x, y);
            let _ = ifd.tiles_byte_ranges(&[(x, y), (0, 0), (y, x)]);
            count("op.tile_ranges");
            // object_store itself panics on multi-range reads outside the object (known finding).
            if planar && st.base == Base::Object {
                continue;
            }
            if planar && r.is_some() {
                probe("probe.planar_tile");
            }
            match ifd.fetch_tile(x, y, st.reader.as_ref()).await {
                Err(_) => count("op.tile_refused"),
                Ok(t) => {
                    count("op.tile");
                    let c = t.compression_method().to_u16();
                    // Damaged data of the other codecs is the business of C09.
                    if [1, 5, 8, 32946, 50000].contains(&c) {
                        match t.decode(reg) {
                            Ok(_) => count("op.decode"),
                            Err(_) => count("op.decode_refused"),
                        }
                    }
                }
            }
            if st.base != Base::Object && below(3) == 2 {
                let _ = ifd.fetch_tiles(&[(0, 0), (x, y)], st.reader.as_ref()).await;
                let _ = ifd.fetch_tiles(&[(0, 0), (0, 0)], st.reader.as_ref()).await;
            }
        }
    }
}

/// Tens of thousands of directories: neither the stack nor the request count may depend on more than their number.
fn throng() {
    let n = 20_000 + below(20_000) as usize;
    let tags: [(u16, u16); 6] = [(256, 8), (257, 8), (258, 8), (259, 1), (262, 1), (277, 1)];
    let size = 2 + 12 * tags.len() + 4;
    let mut v = b"II*\0\x08\0\0\0".to_vec();
    let end = if coin() { 0 } else { 8 + size * below(n as u64) as usize };
    for i in 0..n {
        v.extend((tags.len() as u16).to_le_bytes());
        for (t, x) in tags {
            v.extend(t.to_le_bytes());
            v.extend([3, 0, 1, 0, 0, 0]);
            v.extend((x as u32).to_le_bytes());
        }
        let next = if i + 1 < n { 8 + size * (i + 1) } else { end };
        v.extend((next as u32).to_le_bytes());
    }
    count("damage.throng");
    let len = v.len() as u64;
    let src = SimSource::new(Content { segs: vec![(0, Bytes::from(v))], len, salt: 1 }, Knobs::immediate());
    let st = Stack::over(&src, pick(&[Base::Sim, Base::Par]), below(4) != 3);
    crate::alloc::set_limit(512 << 20);
    let mode = below(3);
    let mut ex = Exec::new();
    ex.spawn(async move {
        let Ok(mut r) = TiffMetadataReader::try_open(&st.meta).await else { return };
        match mode {
            0 => drop(r.read(&st.meta).await),
            1 => drop(r.read_all_ifds(&st.meta).await),
            _ => {
                let mut k = 0;
                while let Ok(Some(_)) = r.read_next_ifd(&st.meta).await {
                    k += 1;
                    if k > n {
                        violate("endless-chain", format!("{k} directories of {n}"));
                        return;
                    }
                }
            }
        }
    });
    ex.run();
    crate::alloc::clear_limit();
}

/// A file that ends too early: what lies behind its end is refused, and nothing is made up for it.
fn cut() {
    let o = MetaOpts { max_vals: pick(&[3, 8, 30]), rich: pick(&[100, 0, 400]), geo: true };
    let mut dirs: Vec<Dir> = (0..1 + small(2)).map(|_| draw_opaque_dir(o)).collect();
    if coin() {
        add_geo(&mut dirs[0]);
    }
    let mut b = small_spec(dirs).build();
    let mut v = b.content.read(0..b.content.len);
    let (lo, hi) = pick(&b.meta_ranges);
    let at = match below(4) {
        0 => hi.saturating_sub(1 + small(8)),
        1 => lo + small(24),
        2 => lo + below(hi - lo + 1),
        _ => below(v.len() as u64 + 1),
    };
    v.truncate(at as usize);
    let len = v.len() as u64;
    let lost = b.meta_ranges.iter().any(|r| r.1 > len);
    b.content = Content { segs: vec![(0, Bytes::from(v))], len, salt: 1 };
    ev!("cut to {len} bytes, metadata lost: {lost}");
    let src = SimSource::new(b.content.clone(), Knobs { stall: 0, ..Knobs::quiet() });
    let st = Stack::over(&src, pick(BASES), coin());
    let b = Rc::new(b);
    let mode = below(4);
    let mut ex = Exec::new();
    ex.spawn(async move {
        match crate::c_meta::read_metadata(mode, &st.meta, &b).await {
            Err(_) => count("op.cut_refused"),
            Ok(()) if lost && mode < 3 && !violated() => violate("made-up-metadata", format!("all metadata delivered from the first {len} bytes, which do not hold all of it")),
            Ok(()) => count("op.cut_complete"),
        }
    });
    ex.run();
}

/// The header a source begins with: byte order, BigTIFF, place of the first directory.
fn header_of(v: &[u8]) -> Option<(bool, bool, u64)> {
    let be = match v.get(..2)? {
        b"II" => false,
        b"MM" => true,
        _ => return None,
    };
    let num = |at: usize, n: usize| -> Option<u64> { Some(v.get(at..at + n)?.iter().enumerate().fold(0u64, |x, (i, b)| x | (*b as u64) << (8 * if be { n - 1 - i } else { i }))) };
    match num(2, 2)? {
        42 => Some((be, false, num(4, 4)?)),
        43 if num(4, 2)? == 8 && num(6, 2)? == 0 => Some((be, true, num(8, 8)?)),
        _ => None,
    }
}
fn damage_signature(v: &mut [u8], m: &Map) {
    count("damage.signature");
    match below(6) {
        0 => v[..2].copy_from_slice(pick(&[b"IM", b"MI", b"ii", b"mm", b"EP", b"II", b"MM", b"\0\0", b"I\0", b"\0M", b"JI"])),
        1 => {
            let p = below(2) as usize;
            v[p] = if coin() { v[p] ^ (1 << below(8)) } else { raw64() as u8 };
        }
        2 => put(v, 2, 2, pick(&[0, 1, 41, 42, 43, 44, 0x2A00, 0x2B00, 0x55, 85, 0x4F52, 0xFFFF]), m.be),
        3 => v[2 + below(2) as usize] = pick(&[0, 42, 43, 1, 0xFF]),
        4 => put(v, 4, 2, pick(&[0, 4, 7, 8, 9, 16, 0x0800, 0xFFFF]), m.be),
        _ => put(v, 6, 2, pick(&[0, 1, 8, 0x0100, 0xFFFF]), m.be),
    }
}

pub fn c10() {
    if below(25) == 24 {
        return cut();
    }
    let ring = below(150) == 149;
    if ring && below(60) == 59 {
        return throng();
    }
    let kind = if ring { 6 } else { below(6) };
    let (mut v, m) = match kind {
        6 => {
            // A long chain whose end points back into it.
            let o = MetaOpts { max_vals: 3, rich: 0, geo: false };
            let n = if below(8) == 7 { 100 + below(250) } else { 2 + below(80) };
            from_built(small_spec((0..n).map(|_| draw_opaque_dir(o)).collect()).build())
        }
        0 | 1 => {
            let o = MetaOpts { max_vals: pick(&[8, 3, 30]), rich: pick(&[100, 0, 400]), geo: true };
            let mut dirs: Vec<Dir> = (0..1 + small(3)).map(|_| draw_opaque_dir(o)).collect();
            if coin() {
                add_geo(&mut dirs[0]);
            }
            from_built(small_spec(dirs).build())
        }
        2 | 3 => {
            let mut spec = small_spec(vec![]);
            let imgs: Vec<Image> = (0..1 + small(1)).map(|_| draw_image(spec.be, ImgOpts { codecs: &[Codec::Raw, Codec::Deflate, Codec::Lzw, Codec::Zstd], max_tile: 12, max_grid: 3, meta: 50 })).collect();
            spec.dirs = imgs.iter().map(|i| i.dir.clone()).collect();
            if below(3) == 0 {
                add_geo(&mut spec.dirs[0]);
            }
            from_built(spec.build())
        }
        4 => synthetic(),
        _ => {
            let mut spec = small_spec(vec![]);
            spec.dirs = (0..1 + small(1)).map(|_| draw_image(spec.be, ImgOpts { codecs: &[Codec::Raw, Codec::Deflate, Codec::Lzw, Codec::Zstd], max_tile: 12, max_grid: 3, meta: 30 }).dir).collect();
            if below(3) == 0 {
                add_geo(&mut spec.dirs[0]);
            }
            spec.dirs.iter_mut().for_each(nonsense);
            from_built(spec.build())
        }
    };
    if ring {
        count("damage.ring");
        let (off, n) = m.dirs[m.dirs.len() - 1];
        let (cs, es, vs) = if m.big { (8u64, 20u64, 8usize) } else { (2, 12, 4) };
        put(&mut v, off + cs + es * n, vs, pick(&m.dirs).0, m.be);
    } else if kind == 5 && below(4) != 3 {
        // as built
    } else if below(25) == 24 {
        damage_signature(&mut v, &m);
    } else if below(8) != 7 {
        for _ in 0..1 + small(2) {
            damage(&mut v, &m);
        }
    } else {
        damage_field(&mut v, &m);
    }
    let len = v.len() as u64;
    ev!("source {} bytes", len);
    let header = header_of(&v);
    let src = SimSource::new(Content { segs: vec![(0, Bytes::from(v))], len, salt: 1 }, Knobs { stall: 0, ..Knobs::quiet() });
    let base = pick(BASES);
    let st = Stack::over(&src, base, coin());
    let dirs: Vec<u64> = m.dirs.iter().map(|d| d.0).collect();
    crate::alloc::set_limit((64 << 20) + 16 * len as usize);
    let (src2, src3, reg) = (src.clone(), src.clone(), Rc::new(DecoderRegistry::default()));
    let mut ex = Exec::new();
    let mode = below(if ring { 3 } else { 4 });
    ex.spawn(async move {
        let mut ifds = vec![];
        let mut reader = match TiffMetadataReader::try_open(&st.meta).await {
            Ok(r) => {
                let be = r.endianness() == Endianness::BigEndian;
                match (header, r.next_ifd_offset()) {
                    (None, _) => violate("not-a-tiff", "a source without a TIFF header was opened".into()),
                    (Some(h), at) => check!((be, r.bigtiff()) == (h.0, h.1) && at.is_none_or(|a| a == h.2), "not-a-tiff", "header says {h:?}, the reader {be} {} {at:?}", r.bigtiff()),
                }
                Some(r)
            }
            Err(_) => {
                count("op.open_refused");
                None
            }
        };
        match (mode, &mut reader) {
            (0, Some(r)) => match r.read(&st.meta).await {
                Ok(t) => {
                    let t: TIFF = t;
                    ifds = t.ifds().to_vec();
                }
                Err(_) => count("op.metadata_refused"),
            },
            (1, Some(r)) => match r.read_all_ifds(&st.meta).await {
                Ok(v) => ifds = v,
                Err(_) => count("op.metadata_refused"),
            },
            (2, Some(r)) => {
                // Errors do not move the reader on, so a bounded number of retries.
                let mut errs = 0;
                let mut n = 0u64;
                loop {
                    match r.read_next_ifd(&st.meta).await {
                        Ok(Some(i)) => {
                            n += 1;
                            if ifds.len() < 8 {
                                ifds.push(i);
                            }
                            // Directories at distinct offsets of the source, and no more.
                            if n > len {
                                violate("endless-chain", format!("{n} directories from a source of {len} bytes"));
                                break;
                            }
                        }
                        Ok(None) => break,
                        Err(_) => {
                            errs += 1;
                            count("op.metadata_refused");
                            if errs > 2 {
                                break;
                            }
                        }
                    }
                    let _ = (r.has_next_ifd(), r.next_ifd_offset());
                }
            }
            _ => {
                for off in dirs.iter().copied().chain([len.saturating_sub(3), u64::MAX, u64::MAX - 5, 3]).take(6) {
                    let e = if m.be { Endianness::BigEndian } else { Endianness::LittleEndian };
                    let Ok(r) = ImageFileDirectoryReader::open(&st.meta, off, m.big, e).await else { continue };
                    let raw = src3.content.read(off..off.saturating_add(if m.big { 8 } else { 2 }));
                    let n = raw.iter().enumerate().fold(0u64, |n, (i, x)| n | (*x as u64) << (8 * if m.be { raw.len() - 1 - i } else { i }));
                    // An index beyond the count is documented to panic.
                    for k in [0, 1, below(30), raw64()] {
                        if k < n {
                            let _ = r.read_tag(&st.meta, k).await;
                        }
                    }
                    if let Ok(i) = r.read(&st.meta).await {
                        ifds.push(i);
                    }
                    let _ = r.finish(&st.meta).await;
                }
            }
        }
        if !ifds.is_empty() {
            count("op.opened");
        }
        poke(&ifds, &st, &reg).await;
    });
    ex.run();
    crate::alloc::clear_limit();
    count_n("io.requests_max_sum", src2.nreqs() as u64);
    let _: Arc<SimSource> = src2;
}

/// Known finding: a tile range that starts past the end of the object, read in a batch through
/// ObjectReader over a store with object_store's own multi-range read, panics inside object_store.
pub fn known_object_ranges_panic() -> bool {
    let r = std::thread::spawn(|| {
        install(Source::Replay(vec![], 0), false);
        let mut d = Dir::new(true);
        for (t, v) in [(256, 16u16), (257, 8), (258, 8), (259, 1), (262, 1), (277, 1), (322, 8), (323, 8)] {
            d.set(t, Val::Short(vec![v]));
        }
        d.blocks = vec![Block::new(vec![0u8; 64]), Block::new(vec![0u8; 64])];
        let mut spec = FileSpec::draw(vec![d]);
        spec.kind = LayoutKind::Cog;
        spec.trailing = 0;
        (spec.max_gap, spec.shuffle) = (0, false);
        let mut b = spec.build();
        // The file lost its last bytes.
        b.content.len -= 80;
        let src = SimSource::new(b.content, Knobs::immediate());
        let st = Stack::over(&src, Base::Object, false);
        let r = block_on(async move {
            match crate::checks::open_all(&st.meta).await {
                Ok(o) => std::panic::AssertUnwindSafe(o.ifds[0].fetch_tiles(&[(0, 0), (1, 0)], st.reader.as_ref())).catch_unwind().await.is_err(),
                Err(_) => false,
            }
        });
        drop_events();
        take_world();
        r == Some(true)
    });
    r.join().unwrap_or(false)
}
