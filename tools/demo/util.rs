// Small helpers for the demonstrations: a TIFF writer and in-memory readers.
#![allow(dead_code)]
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::metadata::TiffMetadataReader;
use async_tiff::reader::AsyncFileReader;
use async_tiff::TIFF;
use bytes::Bytes;
use std::ops::Range;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy)]
pub struct Fmt {
    pub big: bool,
    pub be: bool,
}
pub const LE: Fmt = Fmt { big: false, be: false };
pub const BE: Fmt = Fmt { big: false, be: true };
pub const BIG_LE: Fmt = Fmt { big: true, be: false };

impl Fmt {
    pub fn u16(&self, v: u16) -> Vec<u8> {
        if self.be { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() }
    }
    pub fn u32(&self, v: u32) -> Vec<u8> {
        if self.be { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() }
    }
    pub fn u64(&self, v: u64) -> Vec<u8> {
        if self.be { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() }
    }
    fn off(&self, v: u64) -> Vec<u8> {
        if self.big { self.u64(v) } else { self.u32(v as u32) }
    }
    pub fn shorts(&self, tag: u16, v: &[u16]) -> Entry {
        Entry { tag, typ: 3, count: v.len() as u64, data: v.iter().flat_map(|x| self.u16(*x)).collect() }
    }
    pub fn longs(&self, tag: u16, v: &[u32]) -> Entry {
        Entry { tag, typ: 4, count: v.len() as u64, data: v.iter().flat_map(|x| self.u32(*x)).collect() }
    }
    pub fn doubles(&self, tag: u16, v: &[f64]) -> Entry {
        Entry { tag, typ: 12, count: v.len() as u64, data: v.iter().flat_map(|x| self.u64(x.to_bits())).collect() }
    }
    pub fn ascii(&self, tag: u16, s: &str) -> Entry {
        let mut d = s.as_bytes().to_vec();
        d.push(0);
        Entry { tag, typ: 2, count: d.len() as u64, data: d }
    }
    pub fn undefined(&self, tag: u16, d: &[u8]) -> Entry {
        Entry { tag, typ: 7, count: d.len() as u64, data: d.to_vec() }
    }
}

#[derive(Clone)]
pub struct Entry {
    pub tag: u16,
    pub typ: u16,
    pub count: u64,
    pub data: Vec<u8>,
}

/// The usual tags of a tiled image.
pub struct Img {
    pub w: u32,
    pub h: u32,
    pub tw: u32,
    pub th: u32,
    pub bits: u16,
    pub format: u16,
    pub samples: u16,
    pub compression: u16,
    pub photometric: u16,
    pub planar: u16,
    pub predictor: u16,
}
impl Default for Img {
    fn default() -> Self {
        Img { w: 32, h: 32, tw: 16, th: 16, bits: 8, format: 1, samples: 1, compression: 1, photometric: 1, planar: 1, predictor: 1 }
    }
}
impl Img {
    /// Tags of the image; `blocks` are (offset, length) of the tiles in file order.
    pub fn entries(&self, f: Fmt, blocks: &[(u32, u32)]) -> Vec<Entry> {
        let n = self.samples as usize;
        vec![
            f.longs(256, &[self.w]),
            f.longs(257, &[self.h]),
            f.shorts(258, &vec![self.bits; n]),
            f.shorts(259, &[self.compression]),
            f.shorts(262, &[self.photometric]),
            f.shorts(277, &[self.samples]),
            f.shorts(284, &[self.planar]),
            f.shorts(317, &[self.predictor]),
            f.longs(322, &[self.tw]),
            f.longs(323, &[self.th]),
            f.longs(324, &blocks.iter().map(|b| b.0).collect::<Vec<_>>()),
            f.longs(325, &blocks.iter().map(|b| b.1).collect::<Vec<_>>()),
            f.shorts(339, &vec![self.format; n]),
        ]
    }
}

/// Lay out blocks one after the other from `at`.
pub fn place(at: u32, blocks: &[Vec<u8>]) -> Vec<(u32, u32)> {
    let mut o = at;
    blocks.iter().map(|b| { let r = (o, b.len() as u32); o += b.len() as u32; r }).collect()
}

/// Header, directories (each followed by its values), padding to `data_at`, image data.
pub fn build(f: Fmt, ifds: &[Vec<Entry>], data_at: usize, data: &[Vec<u8>]) -> Vec<u8> {
    let mut out = if f.be { b"MM".to_vec() } else { b"II".to_vec() };
    if f.big {
        out.extend(f.u16(43));
        out.extend(f.u16(8));
        out.extend(f.u16(0));
    } else {
        out.extend(f.u16(42));
    }
    let inline = if f.big { 8 } else { 4 };
    let mut link = out.len();
    out.extend(f.off(0));
    for ifd in ifds {
        let at = f.off(out.len() as u64);
        out[link..link + at.len()].copy_from_slice(&at);
        let mut es = ifd.clone();
        es.sort_by_key(|e| e.tag);
        let entry = if f.big { 20 } else { 12 };
        let mut values = out.len() + if f.big { 8 } else { 2 } + es.len() * entry + inline;
        let mut tail = vec![];
        out.extend(if f.big { f.u64(es.len() as u64) } else { f.u16(es.len() as u16) });
        for e in &es {
            out.extend(f.u16(e.tag));
            out.extend(f.u16(e.typ));
            out.extend(f.off(e.count));
            if e.data.len() <= inline {
                let mut d = e.data.clone();
                d.resize(inline, 0);
                out.extend(d);
            } else {
                out.extend(f.off(values as u64));
                values += e.data.len();
                tail.extend_from_slice(&e.data);
            }
        }
        link = out.len();
        out.extend(f.off(0));
        out.extend(tail);
    }
    assert!(out.len() <= data_at || data.is_empty(), "metadata needs {} bytes", out.len());
    if !data.is_empty() {
        out.resize(data_at, 0xEE);
    }
    for d in data {
        out.extend_from_slice(d);
    }
    out
}

/// A reader over memory; every range it serves is logged.
#[derive(Debug, Clone)]
pub struct Mem {
    pub data: Arc<Vec<u8>>,
    pub log: Arc<Mutex<Vec<Range<u64>>>>,
}
impl Mem {
    pub fn new(data: Vec<u8>) -> Self {
        Mem { data: Arc::new(data), log: Default::default() }
    }
}
#[async_trait::async_trait]
impl AsyncFileReader for Mem {
    async fn get_bytes(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.log.lock().unwrap().push(r.clone());
        let n = self.data.len() as u64;
        if r.start > n {
            return Err(AsyncTiffError::General("past the end".into()));
        }
        Ok(Bytes::copy_from_slice(&self.data[r.start as usize..r.end.min(n) as usize]))
    }
}

pub async fn open(data: Vec<u8>) -> AsyncTiffResult<(Mem, TIFF)> {
    let m = Mem::new(data);
    let mut r = TiffMetadataReader::try_open(&m).await?;
    let t = r.read(&m).await?;
    Ok((m, t))
}

pub fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("DEMO FAILED: {what}");
        std::process::exit(1);
    }
}
