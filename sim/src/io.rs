//! Simulated storage behind async-tiff's own seams.

use std::fmt;
use std::io::{self, SeekFrom};
use std::ops::Range;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::reader::AsyncFileReader;
use async_trait::async_trait;
use bytes::Bytes;
use futures::stream::BoxStream;
use futures::StreamExt;
use object_store::path::Path;
use object_store::{
    CopyOptions, GetOptions, GetResult, GetResultPayload, ListResult, MultipartUpload, ObjectMeta, ObjectStore,
    PutMultipartOptions, PutOptions, PutPayload, PutResult,
};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};

use crate::core::*;

/// Sparse file content: written segments over pseudo-random filler, so that a read from the wrong
/// place never looks right, and multi-gigabyte offsets cost nothing.
#[derive(Clone)]
pub struct Content {
    pub segs: Vec<(u64, Bytes)>,
    pub len: u64,
    pub salt: u64,
}
impl Content {
    pub fn filler(len: u64, salt: u64) -> Content {
        Content { segs: vec![], len, salt }
    }
    fn fill_word(&self, w: u64) -> [u8; 8] {
        let mut s = w ^ self.salt.rotate_left(17) ^ 0x5DEECE66D;
        splitmix(&mut s).to_le_bytes()
    }
    /// Bytes of `r`, cut at the end of the content.
    pub fn read(&self, r: Range<u64>) -> Vec<u8> {
        let end = r.end.min(self.len);
        if r.start >= end {
            return vec![];
        }
        let n = end - r.start;
        if n > 1 << 30 {
            violate("oversized-read", format!("{n} bytes asked for at once: {r:?}"));
            return vec![];
        }
        let mut out = Vec::with_capacity(n as usize);
        let mut o = r.start;
        while o < end {
            let w = self.fill_word(o / 8);
            let k = (o % 8) as usize;
            let take = (8 - k).min((end - o) as usize);
            out.extend_from_slice(&w[k..k + take]);
            o += take as u64;
        }
        // Long segment lists are sorted and do not overlap (see FileSpec::build).
        let from = if self.segs.len() > 64 { self.segs.partition_point(|(s, b)| s + b.len() as u64 <= r.start) } else { 0 };
        for (s, b) in &self.segs[from..] {
            if self.segs.len() > 64 && *s >= end {
                break;
            }
            let a = r.start.max(*s);
            let e = end.min(s + b.len() as u64);
            if a < e {
                out[(a - r.start) as usize..(e - r.start) as usize]
                    .copy_from_slice(&b[(a - s) as usize..(e - s) as usize]);
            }
        }
        out
    }
}
impl fmt::Debug for Content {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Content(len={})", self.len)
    }
}

/// An injected storage error, recognisable wherever it surfaces.
#[derive(Debug, Clone)]
pub struct SimErr(pub u64);
impl fmt::Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "simfault#{};", self.0)
    }
}
impl std::error::Error for SimErr {}
/// The injected error ids mentioned anywhere in an error and its sources.
pub fn fault_ids(e: &(dyn std::error::Error + 'static)) -> Vec<u64> {
    let mut text = format!("{e} {e:?}");
    let mut cur = e.source();
    while let Some(s) = cur {
        text.push_str(&format!(" {s} {s:?}"));
        cur = s.source();
    }
    let mut out = vec![];
    for part in text.split("simfault#").skip(1) {
        let d: String = part.chars().take_while(|c| c.is_ascii_digit()).collect();
        if let Ok(x) = d.parse() {
            out.push(x);
        }
    }
    for part in text.split("SimErr(").skip(1) {
        let d: String = part.chars().take_while(|c| c.is_ascii_digit()).collect();
        if let Ok(x) = d.parse() {
            out.push(x);
        }
    }
    out.sort();
    out.dedup();
    out
}

/// Knobs, drawn per run (swarm).
#[derive(Debug, Clone)]
pub struct Knobs {
    /// Max latency of one I/O in virtual microseconds.
    pub latency: u64,
    /// Per mille of I/Os that complete without suspending.
    pub sync: u64,
    /// Per mille of I/Os that fail.
    pub fail: u64,
    /// Per mille of I/Os that answer with fewer bytes than they could.
    pub short: u64,
    /// Per mille of very slow I/Os.
    pub stall: u64,
}
impl Knobs {
    /// Every request answered on the spot.
    pub fn immediate() -> Knobs {
        Knobs { latency: 0, sync: 1000, fail: 0, short: 0, stall: 0 }
    }
    pub fn quiet() -> Knobs {
        Knobs { latency: pick(&[3, 0, 50, 5000]), sync: pick(&[0, 300, 900, 1000]), fail: 0, short: 0, stall: pick(&[0, 50]) }
    }
    pub fn faulty() -> Knobs {
        let mut k = Knobs::quiet();
        k.fail = pick(&[20, 5, 60, 200]);
        k
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    Pending,
    Ok(u64),
    Short(u64),
    Failed(u64),
    Dropped,
}
#[derive(Debug, Clone)]
pub struct Req {
    pub id: u64,
    pub task: usize,
    pub range: Range<u64>,
    pub end: u64,
    pub out: Outcome,
}
#[derive(Debug)]
pub struct SrcState {
    pub knobs: Knobs,
    pub reqs: Vec<Req>,
    pub inflight: u64,
    pub max_inflight: u64,
    /// Injected errors in the order in which they were delivered.
    pub faults: Vec<u64>,
}
/// More requests than any legitimate run needs.
pub const MAX_REQS: usize = 2_000_000;

/// One simulated stored object with its fault model and request log.
#[derive(Debug)]
pub struct SimSource {
    pub content: Content,
    pub st: Mutex<SrcState>,
}
impl SimSource {
    pub fn new(content: Content, knobs: Knobs) -> Arc<SimSource> {
        Arc::new(SimSource {
            content,
            st: Mutex::new(SrcState { knobs, reqs: vec![], inflight: 0, max_inflight: 0, faults: vec![] }),
        })
    }
    /// End of the fault phase: storage works from now on.
    pub fn heal(&self) {
        let mut s = self.st.lock().unwrap();
        s.knobs.fail = 0;
        s.knobs.short = 0;
        s.knobs.stall = 0;
        ev!("storage healed");
    }
    pub fn reqs(&self) -> Vec<Req> {
        self.st.lock().unwrap().reqs.clone()
    }
    pub fn nreqs(&self) -> usize {
        self.st.lock().unwrap().reqs.len()
    }
    pub fn fault_count(&self) -> usize {
        self.st.lock().unwrap().faults.len()
    }
    fn begin(&self, range: &Range<u64>) -> u64 {
        let mut s = self.st.lock().unwrap();
        let id = s.reqs.len() as u64;
        s.reqs.push(Req { id, task: cur_task(), range: range.clone(), end: u64::MAX, out: Outcome::Pending });
        s.inflight += 1;
        s.max_inflight = s.max_inflight.max(s.inflight);
        ev!("req {} {:?} task {}", id, range, cur_task());
        count("io.requests");
        id
    }
    fn end(&self, id: u64, out: Outcome) {
        let mut s = self.st.lock().unwrap();
        let st = step();
        progress();
        let r = &mut s.reqs[id as usize];
        if r.out == Outcome::Pending {
            ev!("req {} -> {:?}", id, out);
            r.out = out;
            r.end = st;
            s.inflight -= 1;
        }
    }
    fn draw_delay(&self) -> Option<u64> {
        let (lat, sync, stall) = {
            let s = self.st.lock().unwrap();
            (s.knobs.latency, s.knobs.sync, s.knobs.stall)
        };
        if chance(sync) {
            return None;
        }
        if stall > 0 && chance(stall) {
            count("fault.stall");
            return Some(range(100_000, 60_000_000));
        }
        Some(below(lat + 1))
    }
    pub fn draw_fail(&self) -> Option<SimErr> {
        let f = self.st.lock().unwrap().knobs.fail;
        if f > 0 && chance(f) {
            Some(SimErr(next_fault_id()))
        } else {
            None
        }
    }
    /// The error reaches the caller now.
    fn deliver(&self, e: &SimErr) {
        self.st.lock().unwrap().faults.push(e.0);
    }
    fn draw_short(&self, n: u64) -> Option<u64> {
        let f = self.st.lock().unwrap().knobs.short;
        if f > 0 && n > 0 && chance(f) {
            count("fault.short_response");
            Some(if coin() { small(n - 1) } else { below(n) })
        } else {
            None
        }
    }
    /// One read of the stored object: suspends, may fail, may be dropped at any suspension.
    pub async fn io(self: &Arc<Self>, range: Range<u64>) -> Result<Bytes, SimErr> {
        if self.nreqs() >= MAX_REQS {
            violate("unbounded-requests", format!("more than {MAX_REQS} storage requests"));
            return Err(SimErr(0));
        }
        let id = self.begin(&range);
        let guard = DropGuard { s: self.clone(), id };
        let fail = self.draw_fail();
        if let Some(d) = self.draw_delay() {
            sleep(d).await;
        }
        let r = match fail {
            Some(e) => {
                count("fault.read_error");
                self.deliver(&e);
                self.end(id, Outcome::Failed(e.0));
                Err(e)
            }
            None => {
                let mut v = self.content.read(range.clone());
                let n = v.len() as u64;
                if let Some(k) = self.draw_short(n) {
                    v.truncate(k as usize);
                    self.end(id, Outcome::Short(k));
                } else {
                    self.end(id, Outcome::Ok(n));
                }
                Ok(Bytes::from(v))
            }
        };
        drop(guard);
        r
    }
}
struct DropGuard {
    s: Arc<SimSource>,
    id: u64,
}
impl Drop for DropGuard {
    fn drop(&mut self) {
        let pending = self.s.st.lock().unwrap().reqs[self.id as usize].out == Outcome::Pending;
        if pending {
            self.s.end(self.id, Outcome::Dropped);
        }
    }
}

/// Wrap an injected error the way real readers do.
pub fn to_tiff_err(e: SimErr) -> AsyncTiffError {
    match e.0 % 8 {
        0 | 4 => AsyncTiffError::External(Box::new(e)),
        1 => AsyncTiffError::IOError(io::Error::other(e)),
        2 => AsyncTiffError::General(format!("source {e}")),
        3 => AsyncTiffError::IOError(io::Error::new(io::ErrorKind::ConnectionReset, e)),
        5 => AsyncTiffError::IOError(io::Error::new(io::ErrorKind::UnexpectedEof, e)),
        6 => AsyncTiffError::IOError(io::Error::new(io::ErrorKind::TimedOut, e)),
        _ => AsyncTiffError::IOError(io::Error::new(io::ErrorKind::NotFound, e)),
    }
}

/// A user-written reader that only implements `get_bytes`.
#[derive(Debug, Clone)]
pub struct SimReader(pub Arc<SimSource>);
#[async_trait]
impl AsyncFileReader for SimReader {
    async fn get_bytes(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.0.io(range).await.map_err(to_tiff_err)
    }
}

/// A user-written reader with a concurrent multi-range implementation (out-of-order completion).
#[derive(Debug, Clone)]
pub struct ParReader(pub Arc<SimSource>);
#[async_trait]
impl AsyncFileReader for ParReader {
    async fn get_bytes(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.0.io(range).await.map_err(to_tiff_err)
    }
    async fn get_byte_ranges(&self, ranges: Vec<Range<u64>>) -> AsyncTiffResult<Vec<Bytes>> {
        let futs: Vec<_> = ranges.into_iter().map(|r| self.0.io(r)).collect();
        futures::future::try_join_all(futs).await.map_err(to_tiff_err)
    }
}

// ---------------------------------------------------------------- seekable stream

#[derive(Debug)]
enum FileOp {
    Idle,
    Seek { to: u64 },
    Read { from: u64, n: usize },
}
/// A seekable asynchronous stream. Like tokio's own file type, a started operation goes on after
/// the future waiting for it is dropped: an abandoned read leaves its bytes buffered (a later read
/// without a seek would see them), and starting a seek while an operation is outstanding fails.
pub struct SimFile {
    src: Arc<SimSource>,
    pos: u64,
    op: FileOp,
    timer: Option<Timer>,
    buffered: Option<(u64, Vec<u8>)>,
    pub chunk: u64,
    /// Bytes read since the last seek: pieces grow, so that long reads stay affordable.
    run: u64,
}
impl fmt::Debug for SimFile {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SimFile")
    }
}
impl SimFile {
    pub fn new(src: Arc<SimSource>, chunk: u64) -> SimFile {
        let pos = if coin() { below(src.content.len + 1) } else { 0 };
        SimFile { src, pos, op: FileOp::Idle, timer: None, buffered: None, chunk, run: 0 }
    }
    fn poll_timer(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        if let Some(t) = &self.timer {
            match t.poll_done(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(()) => self.timer = None,
            }
        }
        Poll::Ready(())
    }
    /// Complete the outstanding operation.
    fn poll_op(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.poll_timer(cx).is_pending() {
            return Poll::Pending;
        }
        let op = std::mem::replace(&mut self.op, FileOp::Idle);
        match op {
            FileOp::Idle => Poll::Ready(Ok(())),
            FileOp::Seek { to } => {
                if let Some(e) = self.src.draw_fail() {
                    count("fault.seek_error");
                    self.src.deliver(&e);
                    ev!("file seek {} fails #{}", to, e.0);
                    return Poll::Ready(Err(io::Error::other(e)));
                }
                self.pos = to;
                self.run = 0;
                ev!("file at {}", to);
                Poll::Ready(Ok(()))
            }
            FileOp::Read { from, n } => {
                if let Some(e) = self.src.draw_fail() {
                    count("fault.stream_read_error");
                    self.src.deliver(&e);
                    ev!("file read at {} fails #{}", from, e.0);
                    return Poll::Ready(Err(io::Error::other(e)));
                }
                let data = self.src.content.read(from..from.saturating_add(n as u64));
                if (data.len() as u64) < n as u64 && !data.is_empty() {
                    probe("probe.read_to_eof");
                }
                self.pos = from + data.len() as u64;
                self.run += data.len() as u64;
                progress();
                self.buffered = Some((from, data));
                Poll::Ready(Ok(()))
            }
        }
    }
}
impl AsyncRead for SimFile {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        loop {
            if buf.remaining() == 0 {
                return Poll::Ready(Ok(()));
            }
            if let Some((at, mut d)) = self.buffered.take() {
                // An earlier read completed: hand out (at most) what the caller has room for.
                let n = d.len().min(buf.remaining());
                buf.put_slice(&d[..n]);
                ev!("file read {}+{}", at, n);
                if n < d.len() {
                    let rest = d.split_off(n);
                    self.buffered = Some((at + n as u64, rest));
                }
                count("io.stream_reads");
                return Poll::Ready(Ok(()));
            }
            match self.op {
                FileOp::Idle => {
                    let want = buf.remaining() as u64;
                    let n = if self.chunk == 0 { want } else { want.min(1 + below(self.chunk.max(self.run / 16))) };
                    if n < want {
                        count("fault.short_stream_read");
                    }
                    let from = self.pos;
                    self.op = FileOp::Read { from, n: n.min(1 << 26) as usize };
                    self.timer = self.src.draw_delay().map(Timer::after);
                }
                _ => {}
            }
            match self.poll_op(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(())) => {
                    if self.buffered.as_ref().is_some_and(|b| b.1.is_empty()) {
                        self.buffered = None;
                        return Poll::Ready(Ok(())); // end of stream
                    }
                }
            }
        }
    }
}
impl AsyncSeek for SimFile {
    fn start_seek(mut self: Pin<&mut Self>, position: SeekFrom) -> io::Result<()> {
        if !matches!(self.op, FileOp::Idle) {
            return Err(io::Error::other("other file operation is pending, call poll_complete before start_seek"));
        }
        let logical = match &self.buffered {
            Some((at, _)) => *at,
            None => self.pos,
        };
        self.buffered = None;
        let to = match position {
            SeekFrom::Start(p) => p,
            SeekFrom::Current(d) => (logical as i128 + d as i128) as u64,
            SeekFrom::End(d) => (self.src.content.len as i128 + d as i128) as u64,
        };
        self.op = FileOp::Seek { to };
        self.timer = self.src.draw_delay().map(Timer::after);
        Ok(())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        match self.poll_op(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(())) => {
                let p = match &self.buffered {
                    Some((at, _)) => *at,
                    None => self.pos,
                };
                Poll::Ready(Ok(p))
            }
        }
    }
}

// ---------------------------------------------------------------- object store

/// A simulated object store with one or more objects.
#[derive(Debug)]
pub struct SimObjectStore {
    pub objects: Vec<(Path, Arc<SimSource>)>,
    /// Body chunk size bound (0: whole body in one chunk).
    pub chunk: u64,
    /// Per mille of bodies that fail midway.
    pub body_fail: u64,
}
impl fmt::Display for SimObjectStore {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SimObjectStore")
    }
}
fn os_err(e: SimErr) -> object_store::Error {
    match e.0 % 3 {
        0 => object_store::Error::NotFound { path: "gone".into(), source: Box::new(e) },
        1 => object_store::Error::PermissionDenied { path: "denied".into(), source: Box::new(e) },
        _ => object_store::Error::Generic { store: "sim", source: Box::new(e) },
    }
}
fn unsupported<T>() -> object_store::Result<T> {
    Err(object_store::Error::NotSupported { source: "read-only simulated store".into() })
}
#[async_trait]
impl ObjectStore for SimObjectStore {
    async fn put_opts(&self, _l: &Path, _p: PutPayload, _o: PutOptions) -> object_store::Result<PutResult> {
        unsupported()
    }
    async fn put_multipart_opts(&self, _l: &Path, _o: PutMultipartOptions) -> object_store::Result<Box<dyn MultipartUpload>> {
        unsupported()
    }
    async fn get_opts(&self, location: &Path, options: GetOptions) -> object_store::Result<GetResult> {
        let src = match self.objects.iter().find(|(p, _)| p == location) {
            Some((_, s)) => s.clone(),
            None => {
                return Err(object_store::Error::NotFound { path: location.to_string(), source: "no such object".into() })
            }
        };
        let len = src.content.len;
        let range = match &options.range {
            None => 0..len,
            Some(r) => match r.as_range(len) {
                Ok(r) => r,
                Err(e) => {
                    ev!("store: invalid range {:?} (len {})", r, len);
                    return Err(object_store::Error::Generic { store: "sim", source: Box::new(e) });
                }
            },
        };
        let meta = ObjectMeta {
            location: location.clone(),
            last_modified: Default::default(),
            size: len,
            e_tag: None,
            version: None,
        };
        let data = if options.head { Bytes::new() } else { src.io(range.clone()).await.map_err(os_err)? };
        // The body arrives in chunks, suspending in between, and may break off.
        let fail_at = if self.body_fail > 0 && src.st.lock().unwrap().knobs.fail > 0 && chance(self.body_fail) {
            Some(below(data.len() as u64 + 1) as usize)
        } else {
            None
        };
        let chunk = self.chunk;
        let s2 = src.clone();
        let stream = futures::stream::unfold((data, 0usize, false), move |(data, off, failed)| {
            let src = s2.clone();
            async move {
                if failed || (off >= data.len() && fail_at.is_none()) {
                    return None;
                }
                if let Some(d) = src.draw_delay() {
                    sleep(d.min(1000)).await;
                }
                if let Some(f) = fail_at {
                    if off >= f {
                        let e = SimErr(next_fault_id());
                        src.deliver(&e);
                        count("fault.body_error");
                        ev!("body fails after {} bytes #{}", off, e.0);
                        return Some((Err(os_err(e)), (data, off, true)));
                    }
                }
                let mut n = data.len() - off;
                if chunk > 0 {
                    // At most some hundred chunks per body.
                    n = n.min(1 + below(chunk.max(data.len() as u64 / 100)) as usize);
                }
                if let Some(f) = fail_at {
                    n = n.min(f - off);
                }
                let c = data.slice(off..off + n);
                count("io.body_chunks");
                Some((Ok(c), (data, off + n, false)))
            }
        })
        .fuse()
        .boxed();
        Ok(GetResult {
            payload: GetResultPayload::Stream(stream),
            meta,
            range,
            attributes: Default::default(),
            extensions: Default::default(),
        })
    }
    fn delete_stream(
        &self,
        _locations: BoxStream<'static, object_store::Result<Path>>,
    ) -> BoxStream<'static, object_store::Result<Path>> {
        futures::stream::once(async { unsupported() }).boxed()
    }
    fn list(&self, _prefix: Option<&Path>) -> BoxStream<'static, object_store::Result<ObjectMeta>> {
        futures::stream::empty().boxed()
    }
    async fn list_with_delimiter(&self, _prefix: Option<&Path>) -> object_store::Result<ListResult> {
        unsupported()
    }
    async fn copy_opts(&self, _f: &Path, _t: &Path, _o: CopyOptions) -> object_store::Result<()> {
        unsupported()
    }
}
