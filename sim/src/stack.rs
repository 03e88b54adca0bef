//! Reader stacks: every way a user can put async-tiff's readers, wrappers and cache together.
use std::ops::Range;
use std::sync::{Arc, Mutex};

use async_tiff::error::AsyncTiffResult;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::MetadataFetch;
use async_tiff::reader::{AsyncFileReader, ObjectReader, TokioReader};
use async_trait::async_trait;
use bytes::Bytes;
use object_store::path::Path;

use crate::core::*;
use crate::io::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Base {
    Sim,
    Par,
    Boxed,
    Arced,
    Object,
    Tokio,
    /// Made elsewhere, over a simulated server.
    Http,
}
pub const BASES: &[Base] = &[Base::Sim, Base::Par, Base::Object, Base::Tokio, Base::Boxed, Base::Arced];

/// Records the calls arriving at a reader.
#[derive(Debug, Clone, PartialEq)]
pub enum Call {
    One(Range<u64>),
    Many(Vec<Range<u64>>),
}
pub type CallLog = Arc<Mutex<Vec<(usize, Call)>>>;
#[derive(Debug)]
pub struct RecReader {
    pub inner: Arc<dyn AsyncFileReader>,
    pub log: CallLog,
}
#[async_trait]
impl AsyncFileReader for RecReader {
    async fn get_bytes(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.log.lock().unwrap().push((cur_task(), Call::One(range.clone())));
        self.inner.get_bytes(range).await
    }
    async fn get_byte_ranges(&self, ranges: Vec<Range<u64>>) -> AsyncTiffResult<Vec<Bytes>> {
        self.log.lock().unwrap().push((cur_task(), Call::Many(ranges.clone())));
        self.inner.get_byte_ranges(ranges).await
    }
}

#[derive(Debug, Clone)]
pub enum Meta {
    Plain(Arc<dyn AsyncFileReader>),
    Cached(Arc<ReadaheadMetadataCache<Arc<dyn AsyncFileReader>>>),
}
#[async_trait]
impl MetadataFetch for Meta {
    async fn fetch(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        match self {
            Meta::Plain(r) => MetadataFetch::fetch(r, range).await,
            Meta::Cached(c) => c.fetch(range).await,
        }
    }
}

#[derive(Debug, Clone)]
pub struct Stack {
    pub base: Base,
    pub reader: Arc<dyn AsyncFileReader>,
    pub log: CallLog,
    pub meta: Meta,
}

pub fn make_base(src: &Arc<SimSource>, base: Base) -> Arc<dyn AsyncFileReader> {
    count(match base {
        Base::Sim => "reader.custom",
        Base::Par => "reader.custom_parallel",
        Base::Boxed => "reader.boxed",
        Base::Arced => "reader.arced",
        Base::Object => "reader.object_store",
        Base::Tokio => "reader.seekable_stream",
        Base::Http => "reader.http",
    });
    match base {
        Base::Sim => Arc::new(SimReader(src.clone())),
        Base::Par => Arc::new(ParReader(src.clone())),
        Base::Boxed => {
            let b: Box<dyn AsyncFileReader> = if coin() { Box::new(ParReader(src.clone())) } else { Box::new(SimReader(src.clone())) };
            Arc::new(b)
        }
        Base::Arced => {
            let a: Arc<dyn AsyncFileReader> = Arc::new(ParReader(src.clone()));
            let b: Box<dyn AsyncFileReader> = Box::new(a);
            Arc::new(b)
        }
        Base::Object => {
            let path = Path::from("data/image.tif");
            // A decoy object with other bytes next to the real one.
            let decoy = SimSource::new(Content::filler(src.content.len.min(1 << 20), 0xDEC0), Knobs::immediate());
            let store = SimObjectStore {
                objects: vec![(Path::from("data/image.tiff"), decoy.clone()), (path.clone(), src.clone()), (Path::from("image.tif"), decoy)],
                chunk: pick(&[0, 0, 7, 300, 5000]),
                body_fail: 100,
            };
            Arc::new(ObjectReader::new(Arc::new(store), path))
        }
        Base::Tokio => Arc::new(TokioReader::new(SimFile::new(src.clone(), pick(&[0, 0, 3, 100, 4000])))),
        Base::Http => panic!("harness: no server here"),
    }
}
pub fn draw_cache(r: Arc<dyn AsyncFileReader>) -> Arc<ReadaheadMetadataCache<Arc<dyn AsyncFileReader>>> {
    let mut c = ReadaheadMetadataCache::new(r);
    if below(4) != 3 {
        c = c.with_initial_size(pick(&[32768u64, 1, 2, 8, 16, 57, 300, 1024, 4096, 1 << 20]));
        c = c.with_multiplier(pick(&[2.0, 1.0, 1.1, 1.5, 3.0, 0.5, 8.0]));
    }
    count("reader.readahead_cache");
    Arc::new(c)
}
impl Stack {
    pub fn over(src: &Arc<SimSource>, base: Base, cached: bool) -> Stack {
        let inner = make_base(src, base);
        let log: CallLog = Default::default();
        let reader: Arc<dyn AsyncFileReader> = Arc::new(RecReader { inner, log: log.clone() });
        let meta = if cached { Meta::Cached(draw_cache(reader.clone())) } else { Meta::Plain(reader.clone()) };
        Stack { base, reader, log, meta }
    }
    /// `cache`: whether a read-ahead cache may be used (not over the seekable stream reader, which
    /// refuses to read past the end; see known_findings).
    pub fn draw(src: &Arc<SimSource>, cache: bool) -> Stack {
        let base = pick(BASES);
        let cached = coin() && cache && base != Base::Tokio;
        Stack::over(src, base, cached)
    }
}
