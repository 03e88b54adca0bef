//! An independent model of TIFF files: what a file contains (directories, tags, blocks), how it is
//! laid out, and the bytes that result. Shares no code with async-tiff's parser.

use std::collections::{BTreeMap, BTreeSet};

use async_tiff::reader::Endianness;
use async_tiff::tags::{Compression, ExtraSamples, PhotometricInterpretation, PlanarConfiguration, Predictor, ResolutionUnit, SampleFormat, Tag};
use async_tiff::{ImageFileDirectory, TagValue};
use bytes::Bytes;

use crate::core::*;
use crate::io::Content;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Byte(Vec<u8>),
    Undef(Vec<u8>),
    Ascii(String),
    /// Text followed by more than one NUL.
    AsciiPad(String, usize),
    Short(Vec<u16>),
    Long(Vec<u32>),
    Rat(Vec<(u32, u32)>),
    SByte(Vec<i8>),
    SShort(Vec<i16>),
    SLong(Vec<i32>),
    SRat(Vec<(i32, i32)>),
    Float(Vec<f32>),
    Double(Vec<f64>),
    Ifd(Vec<u32>),
    Long8(Vec<u64>),
    SLong8(Vec<i64>),
    Ifd8(Vec<u64>),
}
fn put<const N: usize>(out: &mut Vec<u8>, le: [u8; N], be: bool) {
    if be {
        out.extend(le.iter().rev())
    } else {
        out.extend_from_slice(&le)
    }
}
impl Val {
    pub fn type_code(&self) -> u16 {
        use Val::*;
        match self {
            Byte(_) => 1,
            Ascii(_) | AsciiPad(..) => 2,
            Short(_) => 3,
            Long(_) => 4,
            Rat(_) => 5,
            SByte(_) => 6,
            Undef(_) => 7,
            SShort(_) => 8,
            SLong(_) => 9,
            SRat(_) => 10,
            Float(_) => 11,
            Double(_) => 12,
            Ifd(_) => 13,
            Long8(_) => 16,
            SLong8(_) => 17,
            Ifd8(_) => 18,
        }
    }
    pub fn count(&self) -> u64 {
        use Val::*;
        (match self {
            Byte(v) | Undef(v) => v.len(),
            Ascii(s) => s.len() + 1,
            AsciiPad(s, n) => s.len() + 1 + n,
            Short(v) => v.len(),
            Long(v) | Ifd(v) => v.len(),
            Rat(v) => v.len(),
            SByte(v) => v.len(),
            SShort(v) => v.len(),
            SLong(v) => v.len(),
            SRat(v) => v.len(),
            Float(v) => v.len(),
            Double(v) => v.len(),
            Long8(v) | Ifd8(v) => v.len(),
            SLong8(v) => v.len(),
        }) as u64
    }
    pub fn encode(&self, be: bool) -> Vec<u8> {
        use Val::*;
        let mut o = vec![];
        match self {
            Byte(v) | Undef(v) => o.extend_from_slice(v),
            Ascii(s) => {
                o.extend_from_slice(s.as_bytes());
                o.push(0)
            }
            AsciiPad(s, n) => {
                o.extend_from_slice(s.as_bytes());
                o.extend(std::iter::repeat_n(0, n + 1))
            }
            Short(v) => v.iter().for_each(|x| put(&mut o, x.to_le_bytes(), be)),
            Long(v) | Ifd(v) => v.iter().for_each(|x| put(&mut o, x.to_le_bytes(), be)),
            Rat(v) => v.iter().for_each(|(a, b)| {
                put(&mut o, a.to_le_bytes(), be);
                put(&mut o, b.to_le_bytes(), be)
            }),
            SByte(v) => v.iter().for_each(|x| o.push(*x as u8)),
            SShort(v) => v.iter().for_each(|x| put(&mut o, x.to_le_bytes(), be)),
            SLong(v) => v.iter().for_each(|x| put(&mut o, x.to_le_bytes(), be)),
            SRat(v) => v.iter().for_each(|(a, b)| {
                put(&mut o, a.to_le_bytes(), be);
                put(&mut o, b.to_le_bytes(), be)
            }),
            Float(v) => v.iter().for_each(|x| put(&mut o, x.to_le_bytes(), be)),
            Double(v) => v.iter().for_each(|x| put(&mut o, x.to_le_bytes(), be)),
            Long8(v) | Ifd8(v) => v.iter().for_each(|x| put(&mut o, x.to_le_bytes(), be)),
            SLong8(v) => v.iter().for_each(|x| put(&mut o, x.to_le_bytes(), be)),
        }
        o
    }
    /// What a faithful reader reports for this value.
    pub fn expected(&self) -> TagValue {
        use Val::*;
        fn one<T: Copy>(v: &[T], f: impl Fn(T) -> TagValue) -> TagValue {
            if v.len() == 1 {
                f(v[0])
            } else {
                TagValue::List(v.iter().map(|x| f(*x)).collect())
            }
        }
        match self {
            Byte(v) | Undef(v) => one(v, TagValue::Byte),
            Ascii(s) | AsciiPad(s, _) => TagValue::Ascii(s.clone()),
            Short(v) => one(v, TagValue::Short),
            Long(v) => one(v, TagValue::Unsigned),
            Rat(v) => one(v, |(a, b)| TagValue::Rational(a, b)),
            SByte(v) => one(v, TagValue::SignedByte),
            SShort(v) => one(v, TagValue::SignedShort),
            SLong(v) => one(v, TagValue::Signed),
            SRat(v) => one(v, |(a, b)| TagValue::SRational(a, b)),
            Float(v) => one(v, TagValue::Float),
            Double(v) => one(v, TagValue::Double),
            Ifd(v) => one(v, TagValue::Ifd),
            Long8(v) => one(v, TagValue::UnsignedBig),
            SLong8(v) => one(v, TagValue::SignedBig),
            Ifd8(v) => one(v, TagValue::IfdBig),
        }
    }
    /// Unsigned integer content, for tags with such a meaning.
    pub fn uints(&self) -> Vec<u64> {
        use Val::*;
        match self {
            Byte(v) | Undef(v) => v.iter().map(|x| *x as u64).collect(),
            Short(v) => v.iter().map(|x| *x as u64).collect(),
            Long(v) | Ifd(v) => v.iter().map(|x| *x as u64).collect(),
            Long8(v) | Ifd8(v) => v.clone(),
            _ => panic!("harness: not an unsigned value"),
        }
    }
    pub fn text(&self) -> &str {
        match self {
            Val::Ascii(s) | Val::AsciiPad(s, _) => s,
            _ => panic!("harness: not text"),
        }
    }
    pub fn doubles(&self) -> &[f64] {
        match self {
            Val::Double(s) => s,
            _ => panic!("harness: not doubles"),
        }
    }
}

/// Table types for offsets and byte counts.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TableType {
    Short,
    Long,
    Long8,
    Ifd8,
}
pub fn table(t: TableType, v: &[u64]) -> Val {
    match t {
        TableType::Short => Val::Short(v.iter().map(|x| *x as u16).collect()),
        TableType::Long => Val::Long(v.iter().map(|x| *x as u32).collect()),
        TableType::Long8 => Val::Long8(v.to_vec()),
        TableType::Ifd8 => Val::Ifd8(v.to_vec()),
    }
}

#[derive(Clone, Debug)]
pub struct Block {
    pub data: Bytes,
    /// Shares the storage of an earlier block.
    pub alias: Option<usize>,
    /// Not stored: offset 0, byte count 0.
    pub sparse: bool,
    /// The byte count stored, if not the length of `data`: such a block is not to be read.
    pub claim: Option<u64>,
    /// Filled in by layout.
    pub offset: u64,
}
impl Block {
    pub fn count(&self) -> u64 {
        self.claim.unwrap_or(self.data.len() as u64)
    }
    pub fn new(data: impl Into<Bytes>) -> Block {
        Block { data: data.into(), alias: None, sparse: false, claim: None, offset: 0 }
    }
}

#[derive(Clone, Debug)]
pub struct Dir {
    /// All tags except the block tables, which layout fills in.
    pub tags: BTreeMap<u16, Val>,
    /// Order of entries in the directory (tag codes); ascending unless shuffled.
    pub shuffled: bool,
    pub tiled: bool,
    pub blocks: Vec<Block>,
    pub off_type: TableType,
    pub cnt_type: TableType,
    /// Leave the block tables out entirely.
    pub no_tables: bool,
    /// Entries missing at the end of the byte-count table.
    pub cut_counts: usize,
    // filled in by layout
    pub order: Vec<u16>,
    pub offset: u64,
    pub next: Option<u64>,
}
impl Dir {
    pub fn new(tiled: bool) -> Dir {
        Dir {
            tags: BTreeMap::new(),
            shuffled: false,
            tiled,
            blocks: vec![],
            off_type: TableType::Long,
            cnt_type: TableType::Long,
            no_tables: false,
            cut_counts: 0,
            order: vec![],
            offset: 0,
            next: None,
        }
    }
    pub fn set(&mut self, tag: u16, v: Val) {
        self.tags.insert(tag, v);
    }
    pub fn u(&self, tag: u16) -> Option<u64> {
        self.tags.get(&tag).map(|v| v.uints()[0])
    }
    pub fn grid(&self) -> (usize, usize) {
        let w = self.u(256).unwrap();
        let h = self.u(257).unwrap();
        let tw = self.u(322).unwrap();
        let th = self.u(323).unwrap();
        (w.div_ceil(tw) as usize, h.div_ceil(th) as usize)
    }
    pub fn spp(&self) -> usize {
        self.u(277).unwrap() as usize
    }
    pub fn planar(&self) -> bool {
        self.u(284) == Some(2)
    }
    /// Index of the stored block of band `b` at (x, y).
    pub fn block_index(&self, x: usize, y: usize, b: usize) -> usize {
        let (nx, ny) = self.grid();
        if self.planar() {
            b * nx * ny + y * nx + x
        } else {
            y * nx + x
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LayoutKind {
    /// Metadata, then image data.
    Cog,
    /// Image data, then metadata.
    DataFirst,
    Mixed,
}
#[derive(Clone, Debug)]
pub struct FileSpec {
    pub big: bool,
    pub be: bool,
    pub dirs: Vec<Dir>,
    pub kind: LayoutKind,
    /// Shuffle within the metadata and data regions.
    pub shuffle: bool,
    pub max_gap: u64,
    /// Align pieces to even offsets.
    pub align: bool,
    /// Insert one huge hole somewhere.
    pub jump: u64,
    pub trailing: u64,
    /// Values that occur in one another are stored once.
    pub share: bool,
}
/// The same file with other values in the same places.
pub fn draw_sibling(f: &FileSpec) -> FileSpec {
    let mut g = f.clone();
    let by = 1 + below(9) as u8;
    for d in &mut g.dirs {
        for v in d.tags.values_mut() {
            match v {
                Val::Ascii(t) | Val::AsciiPad(t, _) => {
                    *t = t.chars().map(|c| if c.is_ascii_digit() { char::from(b'0' + (c as u8 - b'0' + by) % 10) } else { c }).collect()
                }
                Val::Double(v) => v.iter_mut().for_each(|x| *x += by as f64),
                Val::Float(v) => v.iter_mut().for_each(|x| *x += by as f32),
                Val::Rat(v) => v.iter_mut().for_each(|x| x.0 = x.0.wrapping_add(by as u32)),
                Val::Undef(v) => v.iter_mut().for_each(|x| *x = x.wrapping_add(by)),
                _ => {}
            }
        }
    }
    g
}
pub struct Built {
    pub big: bool,
    pub be: bool,
    pub dirs: Vec<Dir>,
    pub content: Content,
    /// Start of the first data block.
    pub first_data: Option<u64>,
    /// Byte ranges that hold metadata (header, directories, out-of-line values).
    pub meta_ranges: Vec<(u64, u64)>,
}
impl Built {
    pub fn endianness(&self) -> Endianness {
        if self.be {
            Endianness::BigEndian
        } else {
            Endianness::LittleEndian
        }
    }
}

impl FileSpec {
    /// Draw container format and layout.
    pub fn draw(dirs: Vec<Dir>) -> FileSpec {
        let big = coin();
        let be = coin();
        let kind = match weighted(&[5, 2, 3]) {
            0 => LayoutKind::Cog,
            1 => LayoutKind::DataFirst,
            _ => LayoutKind::Mixed,
        };
        FileSpec {
            big,
            be,
            dirs,
            kind,
            shuffle: below(4) == 3,
            max_gap: pick(&[0, 0, 3, 40, 5000]),
            align: coin(),
            jump: 0,
            trailing: pick(&[0, 0, 1, 100, 70000]),
            share: below(5) == 4,
        }
    }
    pub fn build(mut self) -> Built {
        #[derive(Clone, Debug)]
        enum Piece {
            Ifd(usize),
            Out(usize, u16),
            Block(usize, usize),
        }
        let (big, be) = (self.big, self.be);
        let inline = if big { 8 } else { 4 };
        let entry = if big { 20 } else { 12 };
        let cnt = if big { 8u64 } else { 2 };
        if self.share {
            probe("probe.shared_values");
            for di in 0..self.dirs.len() {
                for (to, from) in [(283, 282), (282, 282), (305, 305), (316, 305), (270, 270), (269, 270), (33550, 33550), (42112, 42112)] {
                    if let Some(v) = self.dirs[0].tags.get(&from).filter(|_| coin()).cloned() {
                        // A later part of a text, or all of it.
                        let v = match v {
                            Val::Ascii(s) if s.is_ascii() && coin() => Val::Ascii(s[below(s.len() as u64 + 1) as usize..].to_string()),
                            v => v,
                        };
                        self.dirs[di].tags.insert(to, v);
                    }
                }
            }
        }
        // Choose table types that can hold what layout will produce.
        let total: u64 = self.dirs.iter().flat_map(|d| d.blocks.iter()).map(|b| b.data.len() as u64 + self.max_gap + 2).sum::<u64>()
            + self
                .dirs
                .iter()
                .map(|d| d.tags.values().map(|v| v.encode(be).len() as u64 + 20 + self.max_gap + 2).sum::<u64>() + d.blocks.len() as u64 * 16 + 200 + 4 * self.max_gap)
                .sum::<u64>()
            + self.jump
            + 64;
        for d in &mut self.dirs {
            if d.off_type == TableType::Short && total > 60_000 {
                d.off_type = TableType::Long;
            }
            if d.off_type == TableType::Long && total > 0xF000_0000 {
                d.off_type = TableType::Long8;
            }
            if d.cnt_type == TableType::Short && d.blocks.iter().any(|b| b.count() > 65535) {
                d.cnt_type = TableType::Long;
            }
        }
        let mut meta: Vec<Piece> = vec![];
        let mut data: Vec<Piece> = vec![];
        let mut all_tags: Vec<BTreeMap<u16, Val>> = vec![];
        for (di, d) in self.dirs.iter_mut().enumerate() {
            let mut tags = d.tags.clone();
            if !d.no_tables {
                let z = vec![0u64; d.blocks.len()];
                let zc = vec![0u64; d.blocks.len() - d.cut_counts];
                let (to, tc) = if d.tiled { (324, 325) } else { (273, 279) };
                tags.insert(to, table(d.off_type, &z));
                tags.insert(tc, table(d.cnt_type, &zc));
            }
            d.order = tags.keys().copied().collect();
            if d.shuffled {
                shuffle(&mut d.order);
            }
            meta.push(Piece::Ifd(di));
            for t in d.order.iter() {
                if tags[t].encode(be).len() > inline {
                    meta.push(Piece::Out(di, *t));
                }
            }
            for (bi, b) in d.blocks.iter().enumerate() {
                if b.alias.is_none() && !b.sparse {
                    data.push(Piece::Block(di, bi));
                }
            }
            all_tags.push(tags);
        }
        if self.shuffle {
            shuffle(&mut meta);
            shuffle(&mut data);
        }
        let mut pieces = match self.kind {
            LayoutKind::Cog => [meta, data].concat(),
            LayoutKind::DataFirst => [data, meta].concat(),
            LayoutKind::Mixed => {
                let mut p = [meta, data].concat();
                shuffle(&mut p);
                p
            }
        };
        let jump_at = if self.jump > 0 { below(pieces.len() as u64 + 1) as usize } else { usize::MAX };
        let mut pos: u64 = if big { 16 } else { 8 };
        let header_len = pos;
        let mut ifd_off = vec![0u64; self.dirs.len()];
        let mut out_off: BTreeMap<(usize, u16), u64> = BTreeMap::new();
        let mut meta_ranges = vec![(0, header_len)];
        let mut first_data: Option<u64> = None;
        let n_pieces = pieces.len();
        let mut stored: Vec<(u64, Vec<u8>)> = vec![];
        let mut reused: BTreeSet<(usize, u16)> = BTreeSet::new();
        // Places that differ from an earlier one of their kind only above the 32nd bit.
        let twins = big && (1 << 32..1 << 60).contains(&self.jump) && coin();
        let mut placed: [Vec<u64>; 3] = Default::default();
        for (i, p) in pieces.drain(..).enumerate() {
            if i == jump_at {
                pos += self.jump;
            }
            if let Piece::Out(d, t) = &p {
                if self.share && ![273, 279, 324, 325].contains(t) {
                    let e = all_tags[*d][t].encode(be);
                    if let Some((o, _)) = stored.iter().find(|(_, s)| s.starts_with(&e)) {
                        out_off.insert((*d, *t), *o);
                        reused.insert((*d, *t));
                        continue;
                    }
                    if let Some((o, s)) = stored.iter().find(|(_, s)| s.ends_with(&e)) {
                        out_off.insert((*d, *t), *o + (s.len() - e.len()) as u64);
                        reused.insert((*d, *t));
                        continue;
                    }
                }
            }
            if self.max_gap > 0 {
                pos += small(self.max_gap);
            }
            if self.align {
                pos += pos & 1;
            }
            let kind = match &p {
                Piece::Ifd(_) => 0,
                Piece::Out(..) => 1,
                Piece::Block(..) => 2,
            };
            if twins {
                if i >= jump_at && !placed[kind].is_empty() && below(3) != 2 {
                    let e = pick(&placed[kind]);
                    pos = e + ((pos - e).div_ceil(1 << 32) << 32);
                    probe("probe.twin_offsets");
                }
                placed[kind].push(pos);
            }
            let len = match &p {
                Piece::Ifd(d) => cnt + all_tags[*d].len() as u64 * entry + inline as u64,
                Piece::Out(d, t) => all_tags[*d][t].encode(be).len() as u64,
                Piece::Block(d, b) => self.dirs[*d].blocks[*b].data.len() as u64,
            };
            match p {
                Piece::Ifd(d) => ifd_off[d] = pos,
                Piece::Out(d, t) => {
                    if self.share && ![273, 279, 324, 325].contains(&t) {
                        stored.push((pos, all_tags[d][&t].encode(be)));
                    }
                    out_off.insert((d, t), pos);
                }
                Piece::Block(d, b) => {
                    self.dirs[d].blocks[b].offset = pos;
                    first_data = Some(first_data.map_or(pos, |x| x.min(pos)));
                }
            }
            if !matches!(p, Piece::Block(..)) {
                meta_ranges.push((pos, pos + len));
            }
            pos += len;
            let _ = n_pieces;
        }
        let len = pos + self.trailing;
        // Resolve aliases and fill in the tables.
        for (di, d) in self.dirs.iter_mut().enumerate() {
            for bi in 0..d.blocks.len() {
                if let Some(a) = d.blocks[bi].alias {
                    d.blocks[bi].offset = d.blocks[a].offset;
                    d.blocks[bi].data = d.blocks[a].data.clone();
                    d.blocks[bi].sparse = d.blocks[a].sparse;
                    d.blocks[bi].claim = d.blocks[a].claim;
                }
            }
            if !d.no_tables {
                let offs: Vec<u64> = d.blocks.iter().map(|b| if b.sparse { 0 } else { b.offset }).collect();
                let cnts: Vec<u64> = d.blocks.iter().map(|b| if b.sparse { 0 } else { b.count() }).collect();
                let (to, tc) = if d.tiled { (324, 325) } else { (273, 279) };
                all_tags[di].insert(to, table(d.off_type, &offs));
                all_tags[di].insert(tc, table(d.cnt_type, &cnts[..cnts.len() - d.cut_counts]));
            }
            d.tags = all_tags[di].clone();
        }
        let mut segs: Vec<(u64, Bytes)> = vec![];
        let mut h = vec![];
        h.extend_from_slice(if be { b"MM" } else { b"II" });
        if big {
            put(&mut h, 43u16.to_le_bytes(), be);
            put(&mut h, 8u16.to_le_bytes(), be);
            put(&mut h, 0u16.to_le_bytes(), be);
            put(&mut h, ifd_off[0].to_le_bytes(), be);
        } else {
            put(&mut h, 42u16.to_le_bytes(), be);
            put(&mut h, (ifd_off[0] as u32).to_le_bytes(), be);
        }
        segs.push((0, h.into()));
        let nd = self.dirs.len();
        for (di, d) in self.dirs.iter_mut().enumerate() {
            let mut o = vec![];
            if big {
                put(&mut o, (d.order.len() as u64).to_le_bytes(), be);
            } else {
                put(&mut o, (d.order.len() as u16).to_le_bytes(), be);
            }
            for t in &d.order {
                let v = &all_tags[di][t];
                put(&mut o, t.to_le_bytes(), be);
                put(&mut o, v.type_code().to_le_bytes(), be);
                if big {
                    put(&mut o, v.count().to_le_bytes(), be);
                } else {
                    put(&mut o, (v.count() as u32).to_le_bytes(), be);
                }
                let mut e = v.encode(be);
                if e.len() <= inline {
                    // Left-justified; the rest of the field is arbitrary.
                    while e.len() < inline {
                        e.push(0xA5);
                    }
                    o.extend_from_slice(&e);
                } else {
                    let off = out_off[&(di, *t)];
                    if big {
                        put(&mut o, off.to_le_bytes(), be);
                    } else {
                        put(&mut o, (off as u32).to_le_bytes(), be);
                    }
                    if !reused.contains(&(di, *t)) {
                        segs.push((off, e.into()));
                    }
                }
            }
            let next = if di + 1 < nd { ifd_off[di + 1] } else { 0 };
            if big {
                put(&mut o, next.to_le_bytes(), be);
            } else {
                put(&mut o, (next as u32).to_le_bytes(), be);
            }
            d.offset = ifd_off[di];
            d.next = if next == 0 { None } else { Some(next) };
            segs.push((ifd_off[di], o.into()));
            for b in &d.blocks {
                if b.alias.is_none() && !b.sparse {
                    segs.push((b.offset, b.data.clone()));
                }
            }
        }
        if segs.len() > 64 {
            // Keep reads cheap: one segment per contiguous stretch.
            segs.retain(|(_, b)| !b.is_empty());
            segs.sort_by_key(|(o, _)| *o);
            let mut merged: Vec<(u64, Vec<u8>)> = vec![];
            for (o, b) in segs {
                match merged.last_mut() {
                    Some((s, v)) if *s + v.len() as u64 == o => v.extend_from_slice(&b),
                    _ => merged.push((o, b.to_vec())),
                }
            }
            segs = merged.into_iter().map(|(o, v)| (o, v.into())).collect();
        }
        let salt = total ^ ((self.dirs.len() as u64) << 40);
        Built { big, be, dirs: self.dirs, content: Content { segs, len, salt }, first_data, meta_ranges }
    }
}

// ---------------------------------------------------------------- comparing

thread_local! {
    /// Fields that check_dir leaves out.
    pub static SKIP: std::cell::Cell<&'static [&'static str]> = const { std::cell::Cell::new(&[]) };
}
fn cmp<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want || SKIP.with(|s| s.get().contains(&what)) {
        Ok(())
    } else {
        let (mut g, mut w) = (format!("{got:?}"), format!("{want:?}"));
        g.truncate(300);
        w.truncate(300);
        Err(format!("{what}: got {g}, stored {w}"))
    }
}

/// Tags with a dedicated accessor.
const KNOWN: &[u16] = &[
    254, 256, 257, 258, 259, 262, 269, 270, 273, 274, 277, 278, 279, 280, 281, 282, 283, 284, 296, 305, 306, 315, 316,
    317, 320, 322, 323, 324, 325, 338, 339, 347, 33432, 34735, 33550, 33922, 34264, 34737, 34736, 42113, 42112, 0xC5F2,
];
pub fn is_known(t: u16) -> bool {
    KNOWN.contains(&t)
}

/// Names of codes, from the TIFF specification and its usual extensions.
fn tag_of(code: u16) -> Tag {
    match code {
        255 => Tag::SubfileType,
        263 => Tag::Threshholding,
        264 => Tag::CellWidth,
        265 => Tag::CellLength,
        266 => Tag::FillOrder,
        271 => Tag::Make,
        272 => Tag::Model,
        288 => Tag::FreeOffsets,
        289 => Tag::FreeByteCounts,
        290 => Tag::GrayResponseUnit,
        291 => Tag::GrayResponseCurve,
        340 => Tag::SMinSampleValue,
        341 => Tag::SMaxSampleValue,
        c => Tag::Unknown(c),
    }
}
fn compression_of(code: u16) -> Compression {
    match code {
        1 => Compression::None,
        2 => Compression::Huffman,
        3 => Compression::Fax3,
        4 => Compression::Fax4,
        5 => Compression::LZW,
        6 => Compression::JPEG,
        7 => Compression::ModernJPEG,
        8 => Compression::Deflate,
        32946 => Compression::OldDeflate,
        32773 => Compression::PackBits,
        34887 => Compression::LERC,
        34925 => Compression::LZMA,
        50001 => Compression::WebP,
        34712 => Compression::JPEG2k,
        50000 => Compression::ZSTD,
        c => Compression::Unknown(c),
    }
}
fn photometric_of(code: u16) -> PhotometricInterpretation {
    use PhotometricInterpretation::*;
    match code {
        0 => WhiteIsZero,
        1 => BlackIsZero,
        2 => RGB,
        3 => RGBPalette,
        4 => TransparencyMask,
        5 => CMYK,
        6 => YCbCr,
        8 => CIELab,
        c => panic!("harness: photometric {c}"),
    }
}

/// Numbers and texts taken out of a tag value: those of its own kind must come out, in any width
/// that holds them; whatever else comes out must be equal, too.
fn check_conversions(got: &TagValue, w: &Val) -> Result<(), String> {
    if w.count() > 2000 {
        return Ok(());
    }
    let u: Option<Vec<i128>> = match w {
        Val::Byte(_) | Val::Undef(_) | Val::Short(_) | Val::Long(_) | Val::Ifd(_) | Val::Long8(_) | Val::Ifd8(_) => Some(w.uints().iter().map(|x| *x as i128).collect()),
        _ => None,
    };
    let i: Option<Vec<i128>> = match w {
        Val::SByte(v) => Some(v.iter().map(|x| *x as i128).collect()),
        Val::SShort(v) => Some(v.iter().map(|x| *x as i128).collect()),
        Val::SLong(v) => Some(v.iter().map(|x| *x as i128).collect()),
        Val::SLong8(v) => Some(v.iter().map(|x| *x as i128).collect()),
        _ => None,
    };
    // Widths at which the value is certainly accepted.
    fn eq<T: Into<i128> + Copy, E>(what: &str, r: Result<Vec<T>, E>, want: &Option<Vec<i128>>, must: bool) -> Result<(), String> {
        match (r, want) {
            (Ok(g), Some(w)) => {
                let g: Vec<i128> = g.into_iter().map(Into::into).collect();
                if &g != w {
                    return Err(format!("{what} gives {:.100}, stored {:.100}", format!("{g:?}"), format!("{w:?}")));
                }
            }
            (Err(_), Some(_)) if must => return Err(format!("{what} fails")),
            _ => {}
        }
        Ok(())
    }
    let v = || got.clone();
    let (big, mid) = (matches!(w, Val::Long8(_) | Val::Ifd8(_) | Val::SLong8(_)), matches!(w, Val::Long(_) | Val::Ifd(_) | Val::SLong(_)));
    let tiny = matches!(w, Val::Byte(_) | Val::Undef(_));
    if u.is_some() {
        eq("into_u64_vec", v().into_u64_vec(), &u, true)?;
        eq("into_u32_vec", v().into_u32_vec(), &u, !big)?;
        eq("into_u16_vec", v().into_u16_vec(), &u, !big && !mid)?;
        eq("into_u8_vec", v().into_u8_vec(), &u, tiny)?;
        if w.count() == 1 {
            eq("into_u64", v().into_u64().map(|x| vec![x]), &u, true)?;
            eq("into_u32", v().into_u32().map(|x| vec![x]), &u, !big)?;
            eq("into_u16", v().into_u16().map(|x| vec![x]), &u, !big && !mid)?;
            eq("into_u8", v().into_u8().map(|x| vec![x]), &u, tiny)?;
        }
    }
    if i.is_some() {
        eq("into_i64_vec", v().into_i64_vec(), &i, true)?;
        eq("into_i32_vec", v().into_i32_vec(), &i, !big)?;
        if w.count() == 1 {
            eq("into_i64", v().into_i64().map(|x| vec![x]), &i, true)?;
            eq("into_i32", v().into_i32().map(|x| vec![x]), &i, !big)?;
            eq("into_i16", v().into_i16().map(|x| vec![x]), &i, matches!(w, Val::SByte(_) | Val::SShort(_)))?;
            eq("into_i8", v().into_i8().map(|x| vec![x]), &i, matches!(w, Val::SByte(_)))?;
        }
    }
    let ok = match w {
        Val::Double(x) => {
            let b = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
            v().into_f64_vec().is_ok_and(|g| b(&g) == b(x)) && (x.len() != 1 || v().into_f64().is_ok_and(|g| g.to_bits() == x[0].to_bits()))
        }
        Val::Float(x) => {
            let b = |v: &[f32]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
            v().into_f32_vec().is_ok_and(|g| b(&g) == b(x)) && (x.len() != 1 || v().into_f32().is_ok_and(|g| g.to_bits() == x[0].to_bits()))
        }
        Val::Ascii(s) | Val::AsciiPad(s, _) => v().into_string().is_ok_and(|g| &g == s),
        Val::SRat(x) => {
            let flat: Vec<i64> = x.iter().flat_map(|(a, b)| [*a as i64, *b as i64]).collect();
            v().into_i64_vec().is_ok_and(|g| g == flat) && v().into_i32_vec().is_ok_and(|g| g.iter().map(|x| *x as i64).collect::<Vec<_>>() == flat)
        }
        Val::Rat(x) if x.len() == 1 => v().into_u64_vec().is_ok_and(|g| g == [x[0].0 as u64, x[0].1 as u64]) && v().into_u32_vec().is_ok_and(|g| g == [x[0].0, x[0].1]),
        _ => true,
    };
    if !ok {
        return Err(format!("its conversion does not give the stored {:.100}", format!("{w:?}")));
    }
    Ok(())
}

/// Compare everything a directory reports with the model.
pub fn check_dir(got: &ImageFileDirectory, d: &Dir) -> Result<(), String> {
    let t = |tag: u16| d.tags.get(&tag);
    let u32o = |tag: u16| t(tag).map(|v| v.uints()[0] as u32);
    let u16o = |tag: u16| t(tag).map(|v| v.uints()[0] as u16);
    let u16v = |tag: u16| t(tag).map(|v| v.uints().iter().map(|x| *x as u16).collect::<Vec<u16>>());
    let u64v = |tag: u16| t(tag).map(|v| v.uints());
    let txt = |tag: u16| t(tag).map(|v| v.text());
    let dbl = |tag: u16| t(tag).map(|v| v.doubles());
    cmp("new_subfile_type", got.new_subfile_type(), u32o(254))?;
    cmp("image_width", Some(got.image_width()), u32o(256))?;
    cmp("image_height", Some(got.image_height()), u32o(257))?;
    cmp("bits_per_sample", Some(got.bits_per_sample().to_vec()), u16v(258))?;
    cmp("compression", got.compression(), compression_of(u16o(259).unwrap_or(1)))?;
    cmp("photometric_interpretation", Some(got.photometric_interpretation()), u16o(262).map(photometric_of))?;
    cmp("document_name", got.document_name(), txt(269))?;
    cmp("image_description", got.image_description(), txt(270))?;
    cmp("strip_offsets", got.strip_offsets().map(|v| v.to_vec()), u64v(273))?;
    cmp("orientation", got.orientation(), u16o(274))?;
    cmp("samples_per_pixel", Some(got.samples_per_pixel()), u16o(277))?;
    cmp("rows_per_strip", got.rows_per_strip(), u32o(278))?;
    cmp("strip_byte_counts", got.strip_byte_counts().map(|v| v.to_vec()), u64v(279))?;
    cmp("min_sample_value", got.min_sample_value().map(|v| v.to_vec()), u16v(280))?;
    cmp("max_sample_value", got.max_sample_value().map(|v| v.to_vec()), u16v(281))?;
    let rat = |tag: u16| {
        t(tag).map(|v| match v {
            Val::Rat(v) => (v[0].0 as f64 / v[0].1 as f64).to_bits(),
            _ => panic!("harness: rational"),
        })
    };
    cmp("x_resolution", got.x_resolution().map(f64::to_bits), rat(282))?;
    cmp("y_resolution", got.y_resolution().map(f64::to_bits), rat(283))?;
    cmp("planar_configuration", got.planar_configuration(), if u16o(284) == Some(2) { PlanarConfiguration::Planar } else { PlanarConfiguration::Chunky })?;
    cmp("resolution_unit", got.resolution_unit(), u16o(296).map(|c| [ResolutionUnit::None, ResolutionUnit::Inch, ResolutionUnit::Centimeter][c as usize - 1]))?;
    cmp("software", got.software(), txt(305))?;
    cmp("date_time", got.date_time(), txt(306))?;
    cmp("artist", got.artist(), txt(315))?;
    cmp("host_computer", got.host_computer(), txt(316))?;
    cmp("predictor", got.predictor(), u16o(317).map(|c| [Predictor::None, Predictor::Horizontal, Predictor::FloatingPoint][c as usize - 1]))?;
    cmp("colormap", got.colormap().map(|x| x.to_vec()), u16v(320))?;
    cmp("tile_width", got.tile_width(), u32o(322))?;
    cmp("tile_height", got.tile_height(), u32o(323))?;
    cmp("tile_offsets", got.tile_offsets().map(|v| v.to_vec()), u64v(324))?;
    cmp("tile_byte_counts", got.tile_byte_counts().map(|v| v.to_vec()), u64v(325))?;
    cmp("extra_samples", got.extra_samples().map(|v| v.to_vec()), u16v(338).map(|v| v.iter().map(|c| [ExtraSamples::Unspecified, ExtraSamples::AssociatedAlpha, ExtraSamples::UnassociatedAlpha][*c as usize]).collect()))?;
    let sf = u16v(339).unwrap_or_else(|| vec![1; d.spp()]);
    let format_of = |c: &u16| match c {
        1 => SampleFormat::Uint,
        2 => SampleFormat::Int,
        3 => SampleFormat::Float,
        4 => SampleFormat::Void,
        c => SampleFormat::Unknown(*c),
    };
    cmp("sample_format", got.sample_format().to_vec(), sf.iter().map(format_of).collect())?;
    cmp("jpeg_tables", got.jpeg_tables().map(|x| x.to_vec()), t(347).map(|v| v.uints().iter().map(|x| *x as u8).collect()))?;
    cmp("copyright", got.copyright(), txt(33432))?;
    cmp("model_pixel_scale", got.model_pixel_scale(), dbl(33550))?;
    cmp("model_tiepoint", got.model_tiepoint(), dbl(33922))?;
    cmp("model_transformation", got.model_transformation(), dbl(34264))?;
    cmp("gdal_nodata", got.gdal_nodata(), txt(42113))?;
    cmp("gdal_metadata", got.gdal_metadata(), txt(42112))?;
    cmp("lerc_parameters", got.lerc_parameters().map(|v| v.to_vec()), t(0xC5F2).map(|v| v.uints().iter().map(|x| *x as u32).collect::<Vec<_>>()))?;
    let mut want: Vec<(String, String)> = d.tags.iter().filter(|(k, _)| !is_known(**k)).map(|(k, v)| (format!("{:?}", tag_of(*k)), format!("{:?}", v.expected()))).collect();
    want.sort();
    let mut have: Vec<(String, String)> = got.other_tags().iter().map(|(k, v)| (format!("{k:?}"), format!("{v:?}"))).collect();
    have.sort();
    cmp("other_tags", have, want)?;
    for (k, v) in got.other_tags() {
        if let Some(w) = d.tags.get(&k.to_u16()) {
            check_conversions(v, w).map_err(|e| format!("tag {k:?}: {e}"))?;
        }
    }
    cmp("geo_key_directory present", got.geo_key_directory().is_some(), t(34735).is_some())?;
    if t(34735).is_some() {
        crate::geo::check_geo(got.geo_key_directory().unwrap(), d)?;
    }
    if d.tiled {
        cmp("tile_count", got.tile_count(), Some(d.grid()))?;
    } else if t(322).is_none() {
        cmp("tile_count", got.tile_count(), None)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- generating metadata

pub fn draw_text(max: usize) -> String {
    let n = small(max as u64) as usize;
    (0..n).map(|_| (b' ' + below(95) as u8) as char).collect()
}
/// Text that may hold characters outside ASCII (only where it is stored out of line).
fn draw_text_any(max: usize) -> String {
    let mut s = draw_text(max);
    if s.len() > 8 && below(4) == 3 {
        s.push_str("é漢🙂");
    }
    s
}
fn f64v(n: usize) -> Vec<f64> {
    (0..n).map(|_| draw_f64()).collect()
}
pub fn draw_f64() -> f64 {
    match below(4) {
        0 => below(1000) as f64,
        1 => -(below(1 << 40) as f64) / 1024.0,
        2 => {
            let f = f64::from_bits(raw64());
            if f.is_nan() {
                1.5
            } else {
                f
            }
        }
        _ => 0.1 * below(1 << 20) as f64,
    }
}
/// A text value: mostly ended by one NUL, sometimes padded with several.
fn text_val(s: String) -> Val {
    if below(8) == 7 && !s.is_empty() {
        Val::AsciiPad(s, 1 + small(9) as usize)
    } else {
        Val::Ascii(s)
    }
}
pub fn draw_val(n_max: usize) -> Val {
    // Rarely a value without elements.
    let n = if below(60) == 59 { 0 } else { 1 + small(n_max as u64 - 1) as usize };
    draw_val_n(n)
}
pub fn draw_val_n(n: usize) -> Val {
    fn v<T>(n: usize, f: impl Fn() -> T) -> Vec<T> {
        (0..n).map(|_| f()).collect()
    }
    let f32f = || {
        let f = f32::from_bits(raw64() as u32);
        if f.is_nan() {
            -2.5
        } else {
            f
        }
    };
    match below(16) {
        0 => Val::Short(v(n, || raw64() as u16)),
        1 => Val::Byte(v(n, || raw64() as u8)),
        2 => text_val(draw_text(n)),
        3 => Val::Long(v(n, || raw64() as u32)),
        4 => Val::Rat(v(n, || (raw64() as u32, raw64() as u32))),
        5 => Val::SByte(v(n, || raw64() as i8)),
        6 => Val::Undef(v(n, || raw64() as u8)),
        7 => Val::SShort(v(n, || raw64() as i16)),
        8 => Val::SLong(v(n, || raw64() as i32)),
        9 => Val::SRat(v(n, || (raw64() as i32, raw64() as i32))),
        10 => Val::Float(v(n, f32f)),
        11 => Val::Double(v(n, draw_f64)),
        12 => Val::Ifd(v(n, || raw64() as u32)),
        13 => Val::Long8(v(n, raw64)),
        14 => Val::SLong8(v(n, || raw64() as i64)),
        _ => Val::Ifd8(v(n, raw64)),
    }
}
pub fn uint_val(x: u64) -> Val {
    if x <= 65535 && coin() {
        Val::Short(vec![x as u16])
    } else if below(6) == 5 {
        Val::Long8(vec![x])
    } else {
        Val::Long(vec![x as u32])
    }
}
const OTHER_TAGS: &[u16] = &[255, 263, 264, 265, 266, 271, 272, 285, 288, 289, 290, 291, 297, 301, 318, 330, 340, 341, 700, 34665, 34853, 50839, 65000, 65535, 1];

#[derive(Clone, Copy)]
pub struct MetaOpts {
    pub max_vals: usize,
    pub rich: u64,
    pub geo: bool,
}
/// Add optional tags (each with probability `rich` per mille) to a directory.
pub fn add_meta(d: &mut Dir, o: MetaOpts) {
    let p = o.rich;
    let opt = |d: &mut Dir, tag: u16, f: &dyn Fn() -> Val| {
        if !d.tags.contains_key(&tag) && chance(p) {
            let v = f();
            d.set(tag, v);
        }
    };
    let spp = d.spp();
    opt(d, 254, &|| uint_val(if coin() { below(8) } else { raw64() & 0xFFFF_FFFF }));
    opt(d, 269, &|| text_val(draw_text_any(40)));
    opt(d, 270, &|| text_val(draw_text_any(300)));
    opt(d, 274, &|| Val::Short(vec![range(1, 8) as u16]));
    opt(d, 280, &|| Val::Short((0..spp).map(|_| raw64() as u16).collect()));
    opt(d, 281, &|| Val::Short((0..spp).map(|_| raw64() as u16).collect()));
    opt(d, 282, &|| Val::Rat(vec![(raw64() as u32, 1 + below(100000) as u32)]));
    opt(d, 283, &|| Val::Rat(vec![(raw64() as u32, 1 + below(100000) as u32)]));
    opt(d, 296, &|| Val::Short(vec![range(1, 3) as u16]));
    opt(d, 305, &|| text_val(draw_text(30)));
    opt(d, 306, &|| Val::Ascii("2024:02:29 23:59:59".into()));
    opt(d, 315, &|| text_val(draw_text(10)));
    opt(d, 316, &|| text_val(draw_text(7)));
    let mv = o.max_vals as u64;
    opt(d, 320, &|| Val::Short((0..3 * (1 + small(mv / 3))).map(|_| raw64() as u16).collect()));
    opt(d, 338, &|| Val::Short((0..1 + below(3)).map(|_| below(3) as u16).collect()));
    opt(d, 347, &|| {
        let v: Vec<u8> = (0..2 + small(mv)).map(|_| raw64() as u8).collect();
        if coin() {
            Val::Byte(v)
        } else {
            Val::Undef(v)
        }
    });
    opt(d, 33432, &|| text_val(draw_text(20)));
    opt(d, 33550, &|| Val::Double(f64v(3)));
    opt(d, 33922, &|| Val::Double(f64v(6 * (1 + below(3) as usize))));
    opt(d, 34264, &|| Val::Double(f64v(16)));
    opt(d, 42112, &|| Val::Ascii(format!("<GDALMetadata>{}</GDALMetadata>", draw_text(100))));
    opt(d, 42113, &|| Val::Ascii(pick(&["0", "-9999", "nan", "-3.4028234663852886e+38", "255"]).to_string()));
    opt(d, 0xC5F2, &|| Val::Long((0..1 + below(4)).map(|_| below(5) as u32).collect()));
    if o.geo && chance(p) {
        crate::geo::add_geo(d);
    }
    let n = small(6);
    for _ in 0..n {
        let tag = if below(4) == 3 { raw64() as u16 } else { pick(OTHER_TAGS) };
        if !is_known(tag) && chance(p.max(300)) {
            let v = draw_val(o.max_vals);
            d.set(tag, v);
        }
    }
}

/// Store numbers in other integer types than usual.
pub fn vary_types(d: &mut Dir) {
    if below(4) != 3 {
        return;
    }
    // One number of at most 16 bits; one of at most 32; lists of 16-bit ones.
    const ONE16: &[u16] = &[259, 262, 274, 277, 284, 296, 317];
    const ONE32: &[u16] = &[254, 256, 257, 278, 322, 323];
    const LIST16: &[u16] = &[258, 280, 281, 320, 338, 339];
    for (tag, v) in d.tags.iter_mut() {
        let kind = (ONE16.contains(tag), ONE32.contains(tag), LIST16.contains(tag));
        if kind == (false, false, false) || !chance(300) {
            continue;
        }
        let u = v.uints();
        let max = u.iter().copied().max().unwrap_or(0);
        let b = || Val::Byte(u.iter().map(|x| *x as u8).collect());
        let s = || Val::Short(u.iter().map(|x| *x as u16).collect());
        let l = || Val::Long(u.iter().map(|x| *x as u32).collect());
        *v = match below(5) {
            0 if max < 256 => b(),
            1 if max < 65536 => s(),
            2 if !kind.2 || u.len() > 1 => l(),
            3 if !kind.2 || u.len() > 1 => Val::Long8(u),
            4 if kind.1 => {
                if coin() {
                    Val::Ifd(u.iter().map(|x| *x as u32).collect())
                } else {
                    Val::Ifd8(u)
                }
            }
            _ => continue,
        };
        probe("probe.unusual_integer_type");
    }
}
/// A directory with opaque blocks and random metadata.
pub fn draw_opaque_dir(o: MetaOpts) -> Dir {
    let tiled = below(5) != 4;
    let mut d = Dir::new(tiled);
    let spp = if below(300) == 299 { 250 + below(20) } else { pick(&[1u64, 1, 3, 2, 4, 5, 1, 3, 9, 17]) };
    let planar = chance(300);
    d.set(277, Val::Short(vec![spp as u16]));
    let (w, h);
    if tiled {
        let (mut nx, mut ny) = (1 + small(6), 1 + small(6));
        match below(24) {
            22 => nx = 7 + small(60),
            23 => ny = 7 + small(60),
            _ => {}
        }
        let tw = draw_tile_side(nx);
        let th = draw_tile_side(ny);
        w = (nx - 1) * tw + draw_last(tw);
        h = (ny - 1) * th + draw_last(th);
        d.set(322, uint_val(tw));
        d.set(323, uint_val(th));
        let n = nx * ny * if planar { spp } else { 1 };
        d.blocks = draw_blocks(n as usize);
    } else {
        w = 1 + small(5000);
        h = 1 + small(5000);
        let n = 1 + small(12);
        d.blocks = draw_blocks(n as usize);
        if coin() {
            d.set(278, uint_val(h.div_ceil(n)));
        }
    }
    d.set(256, uint_val(w));
    d.set(257, uint_val(h));
    let bits = pick(&[8u16, 16, 32, 64, 1, 12]);
    if below(8) == 7 {
        d.set(258, Val::Short((0..spp).map(|_| pick(&[8u16, 16, 32, 64, 1, 12, 5])).collect()));
    } else {
        d.set(258, Val::Short(vec![bits; spp as usize]));
    }
    if below(6) != 5 {
        d.set(259, Val::Short(vec![pick(&[1u16, 5, 7, 8, 0x80B2, 0xC350, 34925, 34887, 50001, 34712, 2, 6, 0x8005, 60000])]));
    }
    d.set(262, Val::Short(vec![pick(&[1u16, 0, 2, 3, 4, 5, 6, 8])]));
    if planar {
        d.set(284, Val::Short(vec![2]));
    } else if coin() {
        d.set(284, Val::Short(vec![1]));
    }
    if coin() {
        d.set(339, Val::Short(vec![pick(&[1u16, 2, 3, 4, 6]); spp as usize]));
    }
    if coin() {
        d.set(317, Val::Short(vec![pick(&[1u16, 2, 3])]));
    }
    draw_table_types(&mut d);
    d.shuffled = below(5) == 4;
    add_meta(&mut d, o);
    vary_types(&mut d);
    d
}
/// `n` small blocks whose content follows from one drawn seed.
pub fn bulk_blocks(n: usize) -> Vec<Block> {
    let mut s = raw64();
    (0..n)
        .map(|_| {
            let x = splitmix(&mut s);
            Block::new(x.to_le_bytes()[..1 + (x >> 61) as usize % 3].to_vec())
        })
        .collect()
}
/// Values that follow from one drawn seed (drawing each would make traces of this size unusable).
pub fn bulk_val(n: usize) -> Val {
    let mut s = raw64();
    let mut g = move || splitmix(&mut s);
    match below(11) {
        0 => Val::Short((0..n).map(|_| g() as u16).collect()),
        1 => Val::Byte((0..n).map(|_| g() as u8).collect()),
        2 => Val::Long((0..n).map(|_| g() as u32).collect()),
        3 => Val::Double((0..n).map(|_| (g() >> 12) as f64).collect()),
        4 => Val::Ascii((0..n).map(|_| (b' ' + (g() % 95) as u8) as char).collect()),
        5 => Val::Undef((0..n).map(|_| g() as u8).collect()),
        6 => Val::Rat((0..n).map(|_| (g() as u32, g() as u32)).collect()),
        7 => Val::SShort((0..n).map(|_| g() as i16).collect()),
        8 => Val::Long8((0..n).map(|_| g()).collect()),
        9 => Val::SLong((0..n).map(|_| g() as i32).collect()),
        _ => Val::Float((0..n).map(|_| (g() >> 44) as f32).collect()),
    }
}
/// Sizes around the limits of 16-bit counters.
pub fn bulk_len() -> usize {
    match below(3) {
        0 => 65535 + below(4) as usize,
        1 => 65536 + below(9000) as usize,
        _ => pick(&[256usize, 255, 257, 1023, 1024, 1025, 32767, 32768, 4096]) + below(2) as usize,
    }
}
/// A file with something in it that is unusually large: a table, a text, a directory, the chain.
pub fn draw_large_file() -> FileSpec {
    let quiet = MetaOpts { max_vals: 4, rich: 50, geo: false };
    let mut dirs = vec![draw_opaque_dir(quiet)];
    match below(8) {
        0 => {
            let v = bulk_val(bulk_len());
            dirs[0].set(65000, v);
        }
        1 => {
            let mut s = raw64();
            let n = pick(&[3usize * 65536, 3 * 256, 3 * 4096, 3 * 32768]);
            dirs[0].set(320, Val::Short((0..n).map(|_| splitmix(&mut s) as u16).collect()));
        }
        2 => {
            let n = bulk_len();
            let d = &mut dirs[0];
            d.tiled = false;
            d.tags.remove(&322);
            d.tags.remove(&323);
            d.set(278, Val::Long(vec![1]));
            d.set(257, Val::Long(vec![n as u32]));
            d.blocks = bulk_blocks(n);
        }
        3 => dirs[0] = draw_many_tiles(),
        4 => {
            let mut s = raw64();
            let t: String = (0..bulk_len()).map(|_| (b' ' + (splitmix(&mut s) % 95) as u8) as char).collect();
            dirs[0].set(pick(&[270u16, 42112, 305, 33432]), Val::Ascii(t));
        }
        5 => {
            // Many entries in one directory.
            let n = pick(&[254u64, 300, 600, 1500]);
            let first = 40000;
            for t in 0..n as u16 {
                let v = if below(8) == 7 { draw_val(3) } else { Val::Short(vec![t]) };
                if !is_known(first + t) {
                    dirs[0].set(first + t, v);
                }
            }
        }
        6 => {
            let n = pick(&[30u64, 64, 130, 300]);
            for _ in 0..n {
                let mut d = draw_opaque_dir(MetaOpts { max_vals: 2, rich: 0, geo: false });
                let blocks = bulk_blocks(1);
                if d.tiled {
                    d.set(322, Val::Long(vec![d.u(256).unwrap() as u32]));
                    d.set(323, Val::Long(vec![d.u(257).unwrap() as u32]));
                    d.set(284, Val::Short(vec![1]));
                }
                d.blocks = blocks;
                dirs.push(d);
            }
        }
        _ => {
            let mut s = raw64();
            dirs[0].set(347, Val::Undef((0..bulk_len()).map(|_| splitmix(&mut s) as u8).collect()));
        }
    }
    let mut spec = FileSpec::draw(dirs);
    if spec.kind == LayoutKind::Mixed {
        spec.kind = LayoutKind::DataFirst;
    }
    spec.shuffle = false;
    spec.max_gap = 0;
    count("probe.large_file");
    spec
}
/// An image with more tiles than 16 bits can count.
pub fn draw_many_tiles() -> Dir {
    let mut d = draw_opaque_dir(MetaOpts { max_vals: 2, rich: 0, geo: false });
    let (nx, ny) = pick(&[(300u64, 219u64), (257, 256), (66000, 1), (2, 70000), (1, 65537), (256, 257), (129, 128)]);
    let side = 1 + small(300);
    let bands = pick(&[1u64, 1, 2]);
    d.tiled = true;
    for t in [278, 339] {
        d.tags.remove(&t);
    }
    d.set(256, Val::Long(vec![(nx * side - small(side - 1)) as u32]));
    d.set(257, Val::Long(vec![(ny * side - small(side - 1)) as u32]));
    d.set(322, Val::Long(vec![side as u32]));
    d.set(323, Val::Long(vec![side as u32]));
    d.set(277, Val::Short(vec![bands as u16]));
    d.set(258, Val::Short(vec![8; bands as usize]));
    d.set(284, Val::Short(vec![if bands > 1 { 2 } else { 1 }]));
    d.blocks = bulk_blocks((nx * ny * bands) as usize);
    d.shuffled = false;
    d
}
/// A tile side such that `n` tiles stay below 2^32 pixels; sometimes close to that.
fn draw_tile_side(n: u64) -> u64 {
    if below(8) != 7 {
        return 1 + small(600);
    }
    count("probe.huge_image");
    let max = (u32::MAX as u64) / n;
    let k = below(32);
    match below(3) {
        0 => (1u64 << k).clamp(1, max),
        1 => ((1u64 << k) + 1 + small(9)).clamp(1, max),
        _ => 1 + below(max),
    }
}
/// How much of the last tile is inside the image.
fn draw_last(side: u64) -> u64 {
    match below(4) {
        0 => 1 + below(side),
        1 => side,
        2 => 1,
        _ => (1 + small(4)).min(side),
    }
}
pub fn draw_table_types(d: &mut Dir) {
    d.off_type = pick(&[TableType::Long, TableType::Long8, TableType::Short, TableType::Long, TableType::Ifd8]);
    d.cnt_type = pick(&[TableType::Long, TableType::Long8, TableType::Short, TableType::Short]);
}
pub fn draw_blocks(n: usize) -> Vec<Block> {
    let max = pick(&[20u64, 100, 600, 4000]);
    let aliases = below(5) == 4;
    let mut out: Vec<Block> = vec![];
    for i in 0..n {
        if aliases && i > 0 && chance(200) {
            let mut a = below(i as u64) as usize;
            while let Some(p) = out[a].alias {
                a = p;
            }
            let mut b = Block::new(out[a].data.clone());
            b.alias = Some(a);
            out.push(b);
            continue;
        }
        let len = if below(30) == 29 { 0 } else { 1 + small(max) };
        let mut s = raw64();
        let data: Vec<u8> = (0..len).map(|_| splitmix(&mut s) as u8).collect();
        out.push(Block::new(data));
    }
    out
}
