//! Independent tile encoders and the model of decoded pixels.
use std::io::Write;

use async_tiff::{Array, DataType, TypedArray};
use bytes::Bytes;

use crate::core::*;
use crate::tiff::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Codec {
    Raw,
    Deflate,
    OldDeflate,
    Lzw,
    Zstd,
    Lzma,
    Jpeg,
    WebP,
    Lerc,
    Jpeg2k,
}
impl Codec {
    pub fn tag(self) -> u16 {
        match self {
            Codec::Raw => 1,
            Codec::Lzw => 5,
            Codec::Jpeg => 7,
            Codec::Deflate => 8,
            Codec::OldDeflate => 0x80B2,
            Codec::Lerc => 34887,
            Codec::Jpeg2k => 34712,
            Codec::Lzma => 34925,
            Codec::Zstd => 50000,
            Codec::WebP => 50001,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Codec::Raw => "codec.none",
            Codec::Lzw => "codec.lzw",
            Codec::Jpeg => "codec.jpeg",
            Codec::Deflate => "codec.deflate",
            Codec::OldDeflate => "codec.old_deflate",
            Codec::Lerc => "codec.lerc",
            Codec::Jpeg2k => "codec.jpeg2000",
            Codec::Lzma => "codec.lzma",
            Codec::Zstd => "codec.zstd",
            Codec::WebP => "codec.webp",
        }
    }
}
pub const BYTE_CODECS: &[Codec] = &[Codec::Raw, Codec::Deflate, Codec::OldDeflate, Codec::Lzw, Codec::Zstd, Codec::Lzma];
pub const ALL_CODECS: &[Codec] = &[
    Codec::Raw,
    Codec::Deflate,
    Codec::OldDeflate,
    Codec::Lzw,
    Codec::Zstd,
    Codec::Lzma,
    Codec::Jpeg,
    Codec::WebP,
    Codec::Lerc,
    Codec::Jpeg2k,
];

/// What decoding a tile must give.
#[derive(Clone, Debug)]
pub struct Expect {
    pub shape: [usize; 3],
    pub dtype: DataType,
    /// The library has no type for these samples and says so; `dtype` is how they are stored.
    pub untyped: bool,
    /// Native-endian elements, in array order (one byte per element for Bool).
    pub bytes: Vec<u8>,
    /// Allowed difference per element (JPEG with colour conversion).
    pub tol: u8,
}

impl Expect {
    pub fn declared(&self) -> Option<DataType> {
        (!self.untyped).then_some(self.dtype)
    }
}

pub fn type_name(t: &TypedArray) -> DataType {
    match t {
        TypedArray::Bool(_) => DataType::Bool,
        TypedArray::UInt8(_) => DataType::UInt8,
        TypedArray::UInt16(_) => DataType::UInt16,
        TypedArray::UInt32(_) => DataType::UInt32,
        TypedArray::UInt64(_) => DataType::UInt64,
        TypedArray::Int8(_) => DataType::Int8,
        TypedArray::Int16(_) => DataType::Int16,
        TypedArray::Int32(_) => DataType::Int32,
        TypedArray::Int64(_) => DataType::Int64,
        TypedArray::Float32(_) => DataType::Float32,
        TypedArray::Float64(_) => DataType::Float64,
    }
}
/// The elements as native bytes, not using the library's own byte view.
pub fn elements(t: &TypedArray) -> Vec<u8> {
    macro_rules! ne {
        ($v:expr) => {
            $v.iter().flat_map(|x| x.to_ne_bytes()).collect()
        };
    }
    match t {
        TypedArray::Bool(v) => v.iter().map(|b| *b as u8).collect(),
        TypedArray::UInt8(v) => v.clone(),
        TypedArray::UInt16(v) => ne!(v),
        TypedArray::UInt32(v) => ne!(v),
        TypedArray::UInt64(v) => ne!(v),
        TypedArray::Int8(v) => v.iter().map(|b| *b as u8).collect(),
        TypedArray::Int16(v) => ne!(v),
        TypedArray::Int32(v) => ne!(v),
        TypedArray::Int64(v) => ne!(v),
        TypedArray::Float32(v) => ne!(v),
        TypedArray::Float64(v) => ne!(v),
    }
}
pub fn check_array(a: &Array, e: &Expect) -> Result<(), String> {
    if a.shape() != e.shape {
        return Err(format!("shape {:?}, expected {:?}", a.shape(), e.shape));
    }
    if a.data_type() != e.declared() || type_name(a.data()) != e.dtype {
        return Err(format!("element type {:?}/{:?}, expected {:?}", a.data_type(), type_name(a.data()), e.dtype));
    }
    let got = elements(a.data());
    if a.data().len() * e.dtype.size() != got.len() || a.data().as_ref() != &got[..] || a.data().is_empty() != got.is_empty() {
        return Err("the array's length or byte view disagrees with its elements".into());
    }
    cmp_bytes(&got, e)
}
fn cmp_bytes(got: &[u8], e: &Expect) -> Result<(), String> {
    if got.len() != e.bytes.len() {
        return Err(format!("{} bytes of elements, expected {}", got.len(), e.bytes.len()));
    }
    for (i, (g, w)) in got.iter().zip(&e.bytes).enumerate() {
        if g.abs_diff(*w) > e.tol {
            let k = i / e.dtype.size();
            return Err(format!("element {k} differs (byte {i}: {g:#x}, expected {w:#x})"));
        }
    }
    Ok(())
}
/// The ndarray view of the same tile.
pub fn check_ndarray(a: Array, e: &Expect) -> Result<(), String> {
    use async_tiff::ndarray::NdArray;
    if below(6) == 5 {
        // Taken apart instead.
        let (data, shape, dt) = a.into_inner();
        if shape != e.shape || dt != e.declared() || type_name(&data) != e.dtype {
            return Err(format!("taken apart: {shape:?} {dt:?}, expected {:?} {:?}", e.shape, e.dtype));
        }
        return cmp_bytes(&elements(&data), e);
    }
    let nd = match NdArray::try_from(a) {
        Ok(nd) => nd,
        // There is no ndarray of elements without a type.
        Err(_) if e.untyped => return Ok(()),
        Err(e) => return Err(format!("ndarray conversion failed: {e}")),
    };
    macro_rules! get {
        ($x:expr, $t:expr, $f:expr) => {{
            let s = $x.shape();
            let f = $f;
            ([s[0], s[1], s[2]], $t, $x.iter().flat_map(f).collect::<Vec<u8>>())
        }};
    }
    let (shape, dt, bytes) = match &nd {
        NdArray::Bool(x) => get!(x, DataType::Bool, |b: &bool| [*b as u8]),
        NdArray::Uint8(x) => get!(x, DataType::UInt8, |b: &u8| [*b]),
        NdArray::Uint16(x) => get!(x, DataType::UInt16, |b: &u16| b.to_ne_bytes()),
        NdArray::Uint32(x) => get!(x, DataType::UInt32, |b: &u32| b.to_ne_bytes()),
        NdArray::Uint64(x) => get!(x, DataType::UInt64, |b: &u64| b.to_ne_bytes()),
        NdArray::Int8(x) => get!(x, DataType::Int8, |b: &i8| b.to_ne_bytes()),
        NdArray::Int16(x) => get!(x, DataType::Int16, |b: &i16| b.to_ne_bytes()),
        NdArray::Int32(x) => get!(x, DataType::Int32, |b: &i32| b.to_ne_bytes()),
        NdArray::Int64(x) => get!(x, DataType::Int64, |b: &i64| b.to_ne_bytes()),
        NdArray::Float32(x) => get!(x, DataType::Float32, |b: &f32| b.to_ne_bytes()),
        NdArray::Float64(x) => get!(x, DataType::Float64, |b: &f64| b.to_ne_bytes()),
    };
    if shape != e.shape || dt != e.dtype {
        return Err(format!("ndarray {shape:?} {dt:?}, expected {:?} {:?}", e.shape, e.dtype));
    }
    cmp_bytes(&bytes, e).map_err(|m| format!("ndarray: {m}"))
}

// ---------------------------------------------------------------- byte codecs

fn xz(data: &[u8], v: u64) -> Vec<u8> {
    let mut o = lzma_rust2::XzOptions::with_preset((v % 3) as u32);
    o.lzma_options.dict_size = 1 << 16;
    o.set_check_sum_type([lzma_rust2::CheckType::Crc64, lzma_rust2::CheckType::Crc32, lzma_rust2::CheckType::Sha256][(v / 16 % 3) as usize]);
    if v / 64 % 4 == 3 {
        o.set_block_size(std::num::NonZeroU64::new(o.lzma_options.dict_size as u64));
    }
    let mut w = lzma_rust2::XzWriter::new(Vec::new(), o).expect("xz");
    w.write_all(data).expect("xz");
    w.finish().expect("xz")
}
/// A zstd frame of raw blocks.
fn zstd_stored(data: &[u8]) -> Vec<u8> {
    let mut o = vec![0x28, 0xB5, 0x2F, 0xFD, 0xA0];
    o.extend((data.len() as u32).to_le_bytes());
    let n = data.chunks(1 << 17).count().max(1);
    for (i, c) in data.chunks(1 << 17).enumerate() {
        let h = (c.len() as u32) << 3 | (i + 1 == n) as u32;
        o.extend(&h.to_le_bytes()[..3]);
        o.extend(c);
    }
    o
}
/// Compress bytes with a lossless byte codec; `v` picks among equivalent encodings.
pub fn compress(c: Codec, data: &[u8], v: u64) -> Vec<u8> {
    match c {
        Codec::Raw => data.to_vec(),
        Codec::Deflate | Codec::OldDeflate => {
            let level = flate2::Compression::new([6, 1, 9, 0][(v % 4) as usize]);
            let mut e = flate2::write::ZlibEncoder::new(Vec::new(), level);
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        Codec::Lzw => weezl::encode::Encoder::with_tiff_size_switch(weezl::BitOrder::Msb, 8).encode(data).expect("lzw"),
        // Several frames, and frames to skip between them, are one stream.
        Codec::Zstd if v / 16 % 4 == 3 && data.len() > 1 => {
            let k = 1 + (v / 64) as usize % (data.len() - 1);
            let mut o = compress(c, &data[..k], v % 16);
            if v / 64 % 2 == 1 {
                o.extend([0x53, 0x2A, 0x4D, 0x18, 3, 0, 0, 0, 1, 2, 3]);
            }
            o.extend(compress(c, &data[k..], v % 16));
            o
        }
        Codec::Zstd => {
            let mut e = zstd::Encoder::new(Vec::new(), [3, 1, 9, 0][(v % 4) as usize]).unwrap();
            e.include_checksum(v / 4 % 2 == 1).unwrap();
            if v / 8 % 2 == 1 {
                e.set_pledged_src_size(Some(data.len() as u64)).unwrap();
            }
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        Codec::Lzma => xz(data, v),
        _ => panic!("harness: not a byte codec"),
    }
}

// ---------------------------------------------------------------- predictors (encoding side)

fn to_file_order(native: &[u8], size: usize, be: bool) -> Vec<u8> {
    let mut o = native.to_vec();
    if be != cfg!(target_endian = "big") {
        o.chunks_exact_mut(size).for_each(|c| c.reverse());
    }
    o
}
/// Encode native samples of `rows` rows with a predictor; returns the bytes handed to the codec.
pub fn predict(native: &[u8], size: usize, per_row: usize, stride: usize, predictor: u16, be: bool) -> Vec<u8> {
    match predictor {
        2 => {
            let mut out = Vec::with_capacity(native.len());
            for row in native.chunks_exact(per_row * size) {
                for i in 0..per_row {
                    let get = |k: usize| -> u64 {
                        let mut b = [0u8; 8];
                        b[..size].copy_from_slice(&row[k * size..(k + 1) * size]);
                        u64::from_le_bytes(b)
                    };
                    let v = if i < stride { get(i) } else { get(i).wrapping_sub(get(i - stride)) };
                    out.extend_from_slice(&v.to_le_bytes()[..size]);
                }
            }
            to_file_order(&out, size, be)
        }
        3 => {
            let mut out = Vec::with_capacity(native.len());
            for row in native.chunks_exact(per_row * size) {
                let mut r = vec![0u8; row.len()];
                for i in 0..per_row {
                    for b in 0..size {
                        // byte plane b holds the b-th most significant byte
                        r[b * per_row + i] = row[i * size + (size - 1 - b)];
                    }
                }
                for j in (stride..r.len()).rev() {
                    r[j] = r[j].wrapping_sub(r[j - stride]);
                }
                out.extend_from_slice(&r);
            }
            out
        }
        _ => to_file_order(native, size, be),
    }
}

// ---------------------------------------------------------------- JPEG (DC-only baseline)

struct Bits {
    out: Vec<u8>,
    acc: u32,
    n: u32,
}
impl Bits {
    fn put(&mut self, v: u32, n: u32) {
        for i in (0..n).rev() {
            self.acc = (self.acc << 1) | ((v >> i) & 1);
            self.n += 1;
            if self.n == 8 {
                self.out.push(self.acc as u8);
                if self.acc as u8 == 0xFF {
                    self.out.push(0);
                }
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    fn flush(&mut self) {
        while self.n != 0 {
            self.put(1, 1);
        }
    }
}
const DC_BITS: [u8; 16] = [0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0];
fn dc_code(cat: u32) -> (u32, u32) {
    // canonical codes of DC_BITS with values 0..=11
    [(0b00, 2), (0b010, 3), (0b011, 3), (0b100, 3), (0b101, 3), (0b110, 3), (0b1110, 4), (0b11110, 5), (0b111110, 6), (0b1111110, 7), (0b11111110, 8), (0b111111110, 9)]
        [cat as usize]
}
fn jpeg_dqt_dht(q: u8) -> Vec<u8> {
    let mut o = vec![0xFF, 0xDB, 0, 67, 0];
    o.extend([8 * q; 64]);
    o.extend([0xFF, 0xC4]);
    o.extend(((2 + 17 + 12) as u16).to_be_bytes());
    o.push(0x00);
    o.extend(DC_BITS);
    o.extend(0..12u8);
    o.extend([0xFF, 0xC4]);
    o.extend(((2 + 17 + 1) as u16).to_be_bytes());
    o.push(0x10);
    o.extend([1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    o.push(0x00);
    o
}
pub fn jpeg_tables(q: u8) -> Vec<u8> {
    let mut o = vec![0xFF, 0xD8];
    o.extend(jpeg_dqt_dht(q));
    o.extend([0xFF, 0xD9]);
    o
}
/// The value nearest to `v` that quantisation step `q` can represent.
fn jpeg_level(v: u8, q: u8) -> u8 {
    (128 + (v as i32 - 128) / q as i32 * q as i32) as u8
}
/// `blocks[c]`: component values per 8x8 block, row-major, all multiples of `q` around 128.
pub fn jpeg_encode(w: usize, h: usize, blocks: &[Vec<u8>], q: u8, with_tables: bool, v: u64) -> Vec<u8> {
    let mut o = vec![0xFF, 0xD8];
    // A JFIF header, a comment, an application's own segment.
    if v & 1 == 1 {
        let thumb = (v >> 8 & 3) as usize;
        o.extend([0xFF, 0xE0]);
        o.extend(((16 + 3 * thumb) as u16).to_be_bytes());
        o.extend(b"JFIF\0\x01\x01\0\0\x01\0\x01");
        o.extend([thumb as u8, (thumb > 0) as u8]);
        o.extend((0..3 * thumb).map(|i| [0xFFu8, 0xD9, 0][i % 3]));
    }
    if v & 2 == 2 {
        let n = (v >> 10 & 63) as usize;
        o.extend([0xFF, if v & 4 == 4 { 0xFE } else { 0xE7 }]);
        o.extend(((2 + n) as u16).to_be_bytes());
        o.extend(vec![b'x'; n]);
    }
    if with_tables {
        o.extend(jpeg_dqt_dht(q));
    }
    let n = blocks.len();
    o.extend([0xFF, 0xC0]);
    o.extend(((8 + 3 * n) as u16).to_be_bytes());
    o.push(8);
    o.extend((h as u16).to_be_bytes());
    o.extend((w as u16).to_be_bytes());
    o.push(n as u8);
    for c in 0..n {
        o.extend([c as u8 + 1, 0x11, 0]);
    }
    o.extend([0xFF, 0xDA]);
    o.extend(((6 + 2 * n) as u16).to_be_bytes());
    o.push(n as u8);
    for c in 0..n {
        o.extend([c as u8 + 1, 0x00]);
    }
    o.extend([0, 63, 0]);
    let mut b = Bits { out: vec![], acc: 0, n: 0 };
    let mut pred = vec![0i32; n];
    for k in 0..blocks[0].len() {
        for c in 0..n {
            let dc = (blocks[c][k] as i32 - 128) / q as i32;
            let diff = dc - pred[c];
            pred[c] = dc;
            let cat = 32 - diff.unsigned_abs().leading_zeros();
            let (code, len) = dc_code(cat);
            b.put(code, len);
            if cat > 0 {
                let v = if diff > 0 { diff as u32 } else { (diff - 1) as u32 & ((1 << cat) - 1) };
                b.put(v, cat);
            }
            b.put(0, 1); // end of block
        }
    }
    b.flush();
    o.extend(b.out);
    o.extend([0xFF, 0xD9]);
    o
}

// ---------------------------------------------------------------- JPEG 2000 (lossless, via OpenJPEG)

mod j2k {
    use openjpeg_sys as opj;
    use std::os::raw::c_void;
    pub struct Sink {
        pub buf: Vec<u8>,
        pub pos: usize,
    }
    unsafe extern "C" fn write(p: *mut c_void, n: usize, u: *mut c_void) -> usize {
        let s = &mut *(u as *mut Sink);
        let src = std::slice::from_raw_parts(p as *const u8, n);
        if s.buf.len() < s.pos + n {
            s.buf.resize(s.pos + n, 0);
        }
        s.buf[s.pos..s.pos + n].copy_from_slice(src);
        s.pos += n;
        n
    }
    unsafe extern "C" fn skip(n: i64, u: *mut c_void) -> i64 {
        let s = &mut *(u as *mut Sink);
        s.pos = (s.pos as i64 + n) as usize;
        n
    }
    unsafe extern "C" fn seek(n: i64, u: *mut c_void) -> i32 {
        let s = &mut *(u as *mut Sink);
        s.pos = n as usize;
        1
    }
    /// `comps`: one plane of samples per component.
    pub fn encode(w: usize, h: usize, comps: &[Vec<i32>], prec: u32, jp2: bool) -> Vec<u8> {
        unsafe {
            let mut params: opj::opj_cparameters_t = std::mem::zeroed();
            opj::opj_set_default_encoder_parameters(&mut params);
            params.tcp_numlayers = 1;
            params.cp_disto_alloc = 1;
            params.tcp_rates[0] = 0.0;
            params.irreversible = 0;
            let mut res = 1;
            while res < 5 && (1usize << res) <= w.min(h) {
                res += 1;
            }
            params.numresolution = res;
            params.tcp_mct = if comps.len() == 3 { 1 } else { 0 };
            let mut cp: Vec<opj::opj_image_cmptparm_t> = comps
                .iter()
                .map(|_| {
                    let mut c: opj::opj_image_cmptparm_t = std::mem::zeroed();
                    c.dx = 1;
                    c.dy = 1;
                    c.w = w as u32;
                    c.h = h as u32;
                    c.prec = prec;
                    c.sgnd = 0;
                    c
                })
                .collect();
            let space = if comps.len() == 3 { opj::OPJ_COLOR_SPACE::OPJ_CLRSPC_SRGB } else { opj::OPJ_COLOR_SPACE::OPJ_CLRSPC_GRAY };
            let img = opj::opj_image_create(comps.len() as u32, cp.as_mut_ptr(), space);
            assert!(!img.is_null());
            (*img).x0 = 0;
            (*img).y0 = 0;
            (*img).x1 = w as u32;
            (*img).y1 = h as u32;
            for (i, c) in comps.iter().enumerate() {
                let d = (*(*img).comps.add(i)).data;
                std::ptr::copy_nonoverlapping(c.as_ptr(), d, c.len());
            }
            let codec = opj::opj_create_compress(if jp2 { opj::OPJ_CODEC_FORMAT::OPJ_CODEC_JP2 } else { opj::OPJ_CODEC_FORMAT::OPJ_CODEC_J2K });
            assert!(opj::opj_setup_encoder(codec, &mut params, img) != 0, "j2k setup");
            let mut sink = Sink { buf: vec![], pos: 0 };
            let st = opj::opj_stream_create(1 << 16, 0);
            opj::opj_stream_set_write_function(st, Some(write));
            opj::opj_stream_set_skip_function(st, Some(skip));
            opj::opj_stream_set_seek_function(st, Some(seek));
            opj::opj_stream_set_user_data(st, &mut sink as *mut Sink as *mut c_void, None);
            assert!(opj::opj_start_compress(codec, img, st) != 0, "j2k start");
            assert!(opj::opj_encode(codec, st) != 0, "j2k encode");
            assert!(opj::opj_end_compress(codec, st) != 0, "j2k end");
            opj::opj_stream_destroy(st);
            opj::opj_destroy_codec(codec);
            opj::opj_image_destroy(img);
            sink.buf
        }
    }
}

// ---------------------------------------------------------------- images

#[derive(Clone, Debug)]
pub struct Image {
    pub dir: Dir,
    pub codec: Codec,
    pub predictor: u16,
    /// Row-major over the tile grid.
    pub tiles: Vec<Expect>,
}
#[derive(Clone, Copy, Debug)]
pub struct ImgOpts {
    pub codecs: &'static [Codec],
    /// Bound on tile width and height.
    pub max_tile: u64,
    pub max_grid: u64,
    pub meta: u64,
}
const DTYPES: &[(DataType, u16, u16)] = &[
    (DataType::UInt8, 8, 1),
    (DataType::UInt16, 16, 1),
    (DataType::Float32, 32, 3),
    (DataType::Bool, 1, 1),
    (DataType::UInt32, 32, 1),
    (DataType::UInt64, 64, 1),
    (DataType::Int8, 8, 2),
    (DataType::Int16, 16, 2),
    (DataType::Int32, 32, 2),
    (DataType::Int64, 64, 2),
    (DataType::Float64, 64, 3),
];
/// Pixel data of `n` samples of `size` bytes.
fn draw_pixels(n: usize, size: usize) -> Vec<u8> {
    let mode = below(4);
    let mut s = raw64();
    let mut out = Vec::with_capacity(n * size);
    let mut v: u64 = splitmix(&mut s);
    for _ in 0..n {
        match mode {
            0 => v = v.wrapping_add(splitmix(&mut s) % 7),
            1 => v = splitmix(&mut s),
            2 => {}
            _ => {
                if splitmix(&mut s) % 9 == 0 {
                    v = splitmix(&mut s) >> (splitmix(&mut s) % 60)
                }
            }
        }
        out.extend_from_slice(&v.to_le_bytes()[..size]);
    }
    out
}
fn draw_finite_f(n: usize, size: usize) -> Vec<u8> {
    let mut s = raw64();
    let flat = below(3) == 2;
    let mut out = vec![];
    for _ in 0..n {
        let r = splitmix(&mut s);
        let f = if flat { 1.25 } else { (r % 100_000) as f64 / 7.0 - 1000.0 };
        if size == 4 {
            out.extend_from_slice(&(f as f32).to_ne_bytes());
        } else {
            out.extend_from_slice(&f.to_ne_bytes());
        }
    }
    out
}

/// Draw an image: geometry, sample type, codec, predictor, pixels; encode all tiles.
pub fn draw_image(be: bool, o: ImgOpts) -> Image {
    let codec = pick(o.codecs);
    count(codec.name());
    let mut d = Dir::new(true);
    let (dt, bits, sf);
    let mut spp = pick(&[1usize, 3, 2, 4, 5]);
    let mut planar = below(3) == 2;
    let mut predictor = 1u16;
    let mut photometric = 1u16;
    let mut tw = 1 + below(o.max_tile) as usize;
    let mut th = 1 + below(o.max_tile) as usize;
    if below(4) == 3 {
        // What the format asks for, and what most writers use.
        tw = 16 * (1 + below(o.max_tile.div_ceil(16)) as usize);
        th = 16 * (1 + below(o.max_tile.div_ceil(16)) as usize);
    }
    match codec {
        Codec::WebP => {
            (dt, bits, sf) = DTYPES[0];
            spp = pick(&[3usize, 4]);
            planar = false;
            photometric = 2;
        }
        Codec::Jpeg => {
            (dt, bits, sf) = DTYPES[0];
            if planar {
                photometric = pick(&[1, 0]);
            } else {
                photometric = pick(&[1, 2, 6, 0, 4, 5]);
                spp = match photometric {
                    2 | 6 => 3,
                    5 => 4,
                    _ => 1,
                };
            }
        }
        Codec::Jpeg2k => {
            (dt, bits, sf) = if be || coin() { DTYPES[0] } else { DTYPES[1] };
            if !planar {
                spp = pick(&[1usize, 3]);
            }
        }
        Codec::Lerc => {
            let t: Vec<(DataType, u16, u16)> = DTYPES
                .iter()
                .copied()
                .filter(|(t, b, _)| !matches!(t, DataType::Bool | DataType::UInt64 | DataType::Int64) && (!be || *b == 8))
                .collect();
            (dt, bits, sf) = pick(&t);
        }
        _ => {
            (dt, bits, sf) = pick(DTYPES);
            if dt == DataType::Bool {
                tw = 16 * (1 + below(o.max_tile / 16 + 1) as usize);
            } else {
                predictor = if sf == 3 { pick(&[1, 3, 2]) } else { pick(&[1, 2]) };
            }
        }
    }
    let size = dt.size();
    let (mut nx, mut ny) = (1 + below(o.max_grid), 1 + below(o.max_grid));
    if below(500) == 499 && matches!(codec, Codec::Raw | Codec::Deflate | Codec::Lzw | Codec::Zstd | Codec::Lerc) {
        // Sides that do not fit 16 bits.
        (nx, ny) = (1, 1);
        spp = 1 + below(2) as usize;
        let (long, short) = (65536 + below(5) as usize * 8, 1 + below(2) as usize);
        (tw, th) = if coin() || dt == DataType::Bool { (long, short) } else { (short, long) };
        probe("probe.long_side");
    }
    if below(400) == 399 && matches!(codec, Codec::Raw | Codec::Deflate | Codec::Lzw | Codec::Zstd | Codec::Lzma) {
        // More bands than fit 8 bits.
        (nx, ny) = (1, 1);
        spp = 250 + below(20) as usize;
        (tw, th) = if dt == DataType::Bool { (16, 1) } else { (1 + below(3) as usize, 1 + below(3) as usize) };
        probe("probe.many_bands");
    }
    let w = (nx - 1) * tw as u64 + 1 + below(tw as u64);
    let h = (ny - 1) * th as u64 + 1 + below(th as u64);
    let (nx, ny) = (nx as usize, ny as usize);
    d.set(256, uint_val(w));
    d.set(257, uint_val(h));
    d.set(258, Val::Short(vec![bits; spp]));
    d.set(259, Val::Short(vec![codec.tag()]));
    if spp == 3 && photometric == 1 && !planar && codec != Codec::Jpeg {
        photometric = 2;
    }
    d.set(262, Val::Short(vec![photometric]));
    d.set(277, Val::Short(vec![spp as u16]));
    if planar || coin() {
        d.set(284, Val::Short(vec![if planar { 2 } else { 1 }]));
    }
    d.set(322, uint_val(tw as u64));
    d.set(323, uint_val(th as u64));
    let mut untyped = false;
    if dt == DataType::UInt8 && below(10) == 9 {
        // Void, complex or disagreeing sample formats: bytes without a type.
        let mut f = vec![pick(&[4u16, 5, 6, 77]); spp];
        if spp > 1 && coin() {
            f = (0..spp).map(|i| if i == 0 { 2 } else { 1 }).collect();
        }
        d.set(339, Val::Short(f));
        untyped = true;
        probe("probe.untyped_samples");
    } else if sf != 1 || coin() {
        d.set(339, Val::Short(vec![sf; spp]));
    }
    if predictor != 1 || below(4) == 3 {
        d.set(317, Val::Short(vec![predictor]));
    }
    let jq = if codec == Codec::Jpeg { pick(&[1u8, 2, 3, 5]) } else { 1 };
    let central_tables = codec == Codec::Jpeg && coin();
    // A tile may bring tables of its own all the same.
    let own_tables = !central_tables || below(4) == 3;
    if central_tables {
        let t = jpeg_tables(if own_tables { pick(&[1u8, 2, 3, 5]) } else { jq });
        d.set(347, if coin() { Val::Undef(t) } else { Val::Byte(t) });
    }
    let lerc_outer = if codec == Codec::Lerc { below(3) as u32 } else { 0 };
    if codec == Codec::Lerc && (lerc_outer > 0 || coin()) {
        let mut p = vec![4, lerc_outer];
        p.extend((0..small(3)).map(|i| i as u32));
        d.set(0xC5F2, Val::Long(p));
    }
    let bands = if planar { spp } else { 1 };
    let per_px = if planar { 1 } else { spp };
    let mut grid: Vec<Vec<(Vec<u8>, Vec<u8>)>> = vec![]; // [tile][band] = (expected, stored)
    let mut tol = 0;
    let v = below(16) + 16 * below(1 << 16);
    for _ in 0..nx * ny {
        let mut tile = vec![];
        for _ in 0..bands {
            let n = tw * th * per_px;
            let (exp, stored) = match codec {
                Codec::WebP => {
                    let mut px = draw_pixels(n, 1);
                    if spp == 4 && coin() {
                        px.chunks_exact_mut(4).for_each(|c| c[3] = 255);
                    }
                    let layout = if spp == 3 { webp::PixelLayout::Rgb } else { webp::PixelLayout::Rgba };
                    let mut cfg = webp::WebPConfig::new().unwrap();
                    cfg.lossless = 1;
                    cfg.exact = 1;
                    cfg.method = 1;
                    let m = webp::Encoder::new(&px, layout, tw as u32, th as u32).encode_advanced(&cfg).expect("webp");
                    (px, m.to_vec())
                }
                Codec::Jpeg => {
                    let (bw, bh) = (tw.div_ceil(8), th.div_ceil(8));
                    let comps: Vec<Vec<u8>> = (0..per_px).map(|_| draw_pixels(bw * bh, 1).into_iter().map(|v| jpeg_level(v, jq)).collect()).collect();
                    let mut px = Vec::with_capacity(n);
                    for y in 0..th {
                        for x in 0..tw {
                            let k = (y / 8) * bw + x / 8;
                            if photometric == 6 {
                                let (yy, cb, cr) = (comps[0][k] as f64, comps[1][k] as f64 - 128.0, comps[2][k] as f64 - 128.0);
                                for f in [yy + 1.402 * cr, yy - 0.344136 * cb - 0.714136 * cr, yy + 1.772 * cb] {
                                    px.push(f.round().clamp(0.0, 255.0) as u8);
                                }
                                tol = 2;
                            } else if photometric == 5 {
                                // The decoder library gives CMYK with its usual inversion.
                                comps.iter().for_each(|c| px.push(255 - c[k]));
                            } else {
                                comps.iter().for_each(|c| px.push(c[k]));
                            }
                        }
                    }
                    (px, jpeg_encode(tw, th, &comps, jq, own_tables, if below(4) == 3 { v } else { 0 }))
                }
                Codec::Jpeg2k => {
                    let px = draw_pixels(n, size);
                    let mut planes = vec![Vec::with_capacity(tw * th); per_px];
                    for (i, c) in px.chunks_exact(size).enumerate() {
                        let v = if size == 1 { c[0] as i32 } else { u16::from_ne_bytes([c[0], c[1]]) as i32 };
                        planes[i % per_px].push(v);
                    }
                    let data = j2k::encode(tw, th, &planes, bits as u32, v % 2 == 1);
                    (px, data)
                }
                Codec::Lerc => {
                    let px = if sf == 3 { draw_finite_f(n, size) } else { draw_pixels(n, size) };
                    macro_rules! enc {
                        ($t:ty) => {{
                            let s: Vec<$t> = px.chunks_exact(size).map(|c| <$t>::from_ne_bytes(c.try_into().unwrap())).collect();
                            lerc::encode::<$t>(&s, None, tw, th, per_px, 1, 0, 0.0).expect("lerc")
                        }};
                    }
                    let blob = match dt {
                        DataType::UInt8 => enc!(u8),
                        DataType::Int8 => enc!(i8),
                        DataType::UInt16 => enc!(u16),
                        DataType::Int16 => enc!(i16),
                        DataType::UInt32 => enc!(u32),
                        DataType::Int32 => enc!(i32),
                        DataType::Float32 => enc!(f32),
                        _ => enc!(f64),
                    };
                    let stored = match lerc_outer {
                        // The LERC encoder leaves uninitialised bytes in float blobs; store them in
                        // a form whose length does not depend on them, so that runs stay repeatable.
                        1 if sf == 3 => compress(Codec::Deflate, &blob, 3),
                        2 if sf == 3 => zstd_stored(&blob),
                        1 => compress(Codec::Deflate, &blob, v),
                        2 => compress(Codec::Zstd, &blob, v),
                        _ => blob,
                    };
                    (px, stored)
                }
                _ if dt == DataType::Bool => {
                    let px: Vec<u8> = draw_pixels(n, 1).iter().map(|x| (x ^ (x >> 3)) & 1).collect();
                    let mut packed = vec![0u8; n.div_ceil(8)];
                    for (i, b) in px.iter().enumerate() {
                        packed[i / 8] |= b << (7 - i % 8);
                    }
                    let s = compress(codec, &packed, v);
                    (px, s)
                }
                _ => {
                    let px = draw_pixels(n, size);
                    let raw = predict(&px, size, tw * per_px, per_px, predictor, be);
                    let s = compress(codec, &raw, v);
                    (px, s)
                }
            };
            tile.push((exp, stored));
        }
        grid.push(tile);
    }
    d.blocks = vec![];
    for b in 0..bands {
        for t in &grid {
            d.blocks.push(Block::new(Bytes::from(t[b].1.clone())));
        }
    }
    let tiles = grid
        .into_iter()
        .map(|t| Expect {
            shape: if planar { [spp, th, tw] } else { [th, tw, spp] },
            dtype: dt,
            untyped,
            bytes: t.into_iter().flat_map(|(e, _)| e).collect(),
            tol,
        })
        .collect();
    draw_table_types(&mut d);
    d.shuffled = below(6) == 5;
    if o.meta > 0 {
        let keep_jpeg = d.tags.get(&347).cloned();
        let keep_lerc = d.tags.get(&0xC5F2).cloned();
        add_meta(&mut d, MetaOpts { max_vals: 12, rich: o.meta, geo: true });
        // These two change how tiles decode; keep what the encoder used.
        d.tags.remove(&347);
        d.tags.remove(&0xC5F2);
        if let Some(v) = keep_jpeg {
            d.set(347, v);
        }
        if let Some(v) = keep_lerc {
            d.set(0xC5F2, v);
        }
    }
    vary_types(&mut d);
    Image { dir: d, codec, predictor, tiles }
}
