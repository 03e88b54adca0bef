//! ReqwestReader against a simulated HTTP server (C13, and parts of C05 and C18).
//!
//! Client, hyper, reqwest and server all run on the simulation thread, on a tokio current-thread
//! runtime with a paused (virtual) clock, over an in-kernel unix socket. What the server does with
//! each request is drawn from the choice stream; so is the order in which client tasks run.
use std::io;
use std::ops::Range;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use async_tiff::decoder::DecoderRegistry;
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::reader::{AsyncFileReader, ReqwestReader};
use bytes::Bytes;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{UnixListener, UnixStream};

use crate::c_meta::read_metadata;
use crate::c_mix::{mixed_op, Mix};
use crate::c_tile::*;
use crate::checks::*;
use crate::codec::*;
use crate::core::*;
use crate::io::*;
use crate::stack::*;
use crate::tiff::*;

#[derive(Clone, Debug)]
struct Net {
    /// Per mille of requests treated badly.
    fail: u64,
    delay: u64,
    segment: u64,
    close: u64,
    /// Which of the bad treatments.
    kinds: &'static [u64],
    /// The answer of a server that has only one kind of failure.
    status: Option<&'static str>,
}
const STATUSES: &[&str] = &["503 Service Unavailable", "404 Not Found", "500 Internal Server Error", "403 Forbidden", "429 Too Many Requests", "416 Range Not Satisfiable", "408 Request Timeout", "502 Bad Gateway", "504 Gateway Timeout", "425 Too Early", "410 Gone"];
const ALL_KINDS: &[u64] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
/// Those of which the HTTP client itself notices that something is wrong.
const OWN_KINDS: &[u64] = &[0, 2, 3, 4, 5, 6, 7];
struct Server {
    content: Content,
    path: &'static str,
    net: Mutex<Net>,
    faults: AtomicU64,
    /// Error statuses sent.
    statuses: Mutex<Vec<u16>>,
    conns: AtomicU64,
    /// Range headers received.
    seen: Mutex<Vec<String>>,
}
impl Server {
    fn net(&self) -> Net {
        self.net.lock().unwrap().clone()
    }
    fn fault(&self, k: &'static str) {
        // Each caller gives up sooner or later.
        if self.faults.fetch_add(1, Ordering::SeqCst) == 20_000 {
            violate("no-end", "20000 requests were treated badly, and still no caller gives up".into());
            self.net.lock().unwrap().fail = 0;
        }
        count(k);
        ev!("server: {}", k);
    }
}
async fn pause(max: u64) {
    if max > 0 && coin() {
        tokio::time::sleep(Duration::from_micros(below(max + 1))).await;
    }
}
/// Write in segments with pauses in between.
async fn write_seg(s: &mut UnixStream, data: &[u8], net: &Net) -> io::Result<()> {
    if net.segment == 0 {
        return s.write_all(data).await;
    }
    let mut at = 0;
    while at < data.len() {
        let n = (1 + below(net.segment) as usize).min(data.len() - at);
        s.write_all(&data[at..at + n]).await?;
        at += n;
        count("net.segments");
        pause(net.delay).await;
    }
    Ok(())
}
fn parse_range(h: &str) -> Option<(u64, u64)> {
    let r = h.strip_prefix("bytes=")?;
    let (a, b) = r.split_once('-')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}
/// One request on a connection. Ok(false): the connection ends.
async fn serve_one(srv: &Server, s: &mut UnixStream) -> io::Result<bool> {
    let mut head = vec![];
    while !head.ends_with(b"\r\n\r\n") {
        let mut b = [0u8; 1];
        if s.read(&mut b).await? == 0 {
            return Ok(false);
        }
        head.push(b[0]);
        if head.len() > 1 << 16 {
            return Ok(false);
        }
    }
    let head = String::from_utf8_lossy(&head).to_string();
    let mut lines = head.split("\r\n");
    let first = lines.next().unwrap_or("").to_string();
    let ranges: Vec<String> = lines.filter_map(|l| l.split_once(':').filter(|(k, _)| k.eq_ignore_ascii_case("range")).map(|(_, v)| v.trim().to_string())).collect();
    ev!("server: {} {:?}", first, ranges);
    count("net.requests");
    let mut w = first.split(' ');
    let (method, path) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
    let net = srv.net();
    pause(net.delay).await;
    if method != "GET" || path != srv.path {
        violate("wrong-request", format!("the server was asked for {first:?}"));
        return Ok(false);
    }
    for r in &ranges {
        srv.seen.lock().unwrap().push(r.clone());
    }
    let len = srv.content.len;
    let range = match ranges.as_slice() {
        [r] => parse_range(r),
        _ => {
            violate("wrong-request", format!("range headers {ranges:?}"));
            return Ok(false);
        }
    };
    let Some((a, b)) = range else {
        violate("wrong-request", format!("range header {ranges:?}"));
        return Ok(false);
    };
    let close = chance(net.close);
    let conn = if close { "Connection: close\r\n" } else { "" };
    if chance(net.fail) {
        match pick(net.kinds) {
            8 => {
                // Neither an error nor the part that was asked for.
                srv.fault("fault.http_odd_status");
                let st = pick(&["204 No Content", "304 Not Modified", "200 OK", "201 Created", "202 Accepted", "203 Non-Authoritative Information", "226 IM Used", "300 Multiple Choices", "299 Miscellaneous"]);
                let body: Vec<u8> = match below(3) {
                    _ if st.starts_with("204") || st.starts_with("304") => vec![],
                    0 => vec![],
                    1 => srv.content.read(0..len.min(4 << 20)),
                    _ => b"<html>try again later</html>".to_vec(),
                };
                let cl = if st.starts_with("204") || st.starts_with("304") { String::new() } else { format!("Content-Length: {}\r\n", body.len()) };
                write_seg(s, format!("HTTP/1.1 {st}\r\n{cl}{conn}\r\n").as_bytes(), &net).await?;
                write_seg(s, &body, &net).await?;
                return Ok(!close);
            }
            9 => {
                // A part, but another or a smaller one.
                srv.fault("fault.http_other_part");
                let (mut a2, mut b2) = (a.min(len.saturating_sub(1)), b.min(len.saturating_sub(1)));
                match below(4) {
                    0 => b2 -= small(b2.saturating_sub(a2)),
                    1 => a2 += small(b2.saturating_sub(a2)),
                    2 => a2 -= small(a2.min(3000)),
                    _ => {
                        // As long as the one asked for.
                        let by = small(a2.min(3000));
                        (a2, b2) = (a2 - by, b2.max(a2) - by);
                    }
                }
                respond(srv, s, (a2, b2), false, conn, &net, None).await?;
                return Ok(!close);
            }
            0 => {
                srv.fault("fault.http_error_status");
                let st = net.status.unwrap_or_else(|| pick(STATUSES));
                srv.statuses.lock().unwrap().push(st[..3].parse().unwrap_or(0));
                let body: Vec<u8> = srv.content.read(a..b.saturating_add(1).min(a.saturating_add(small(3000))));
                write_seg(s, format!("HTTP/1.1 {st}\r\nContent-Length: {}\r\n{conn}\r\n", body.len()).as_bytes(), &net).await?;
                write_seg(s, &body, &net).await?;
                return Ok(!close);
            }
            1 => {
                srv.fault("fault.http_range_ignored");
                let body = srv.content.read(0..len.min(4 << 20));
                write_seg(s, format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n{conn}\r\n", body.len()).as_bytes(), &net).await?;
                write_seg(s, &body, &net).await?;
                return Ok(!close);
            }
            2 => {
                srv.fault("fault.http_close_before_response");
                return Ok(false);
            }
            3 => {
                srv.fault("fault.http_garbage");
                write_seg(s, b"\x00\x01garbage that is not HTTP\r\n\r\n", &net).await?;
                return Ok(false);
            }
            4 => {
                srv.fault("fault.http_partial_header");
                let h = format!("HTTP/1.1 206 Partial Content\r\nContent-Length: {}\r\nContent-Range: bytes {a}-", b.saturating_sub(a) + 1);
                let n = 1 + below(h.len() as u64) as usize;
                write_seg(s, &h.as_bytes()[..n], &net).await?;
                return Ok(false);
            }
            5 => {
                srv.fault("fault.http_close_after_response");
                respond(srv, s, (a, b), true, "", &net, None).await?;
                return Ok(false);
            }
            _ => {
                srv.fault("fault.http_truncated_body");
                let n = srv.content.read(a..b.saturating_add(1).min(len)).len() as u64;
                if n == 0 {
                    return Ok(false);
                }
                let cut = if coin() { n - 1 - small(n - 1) } else { below(n) };
                respond(srv, s, (a, b), true, conn, &net, Some(cut)).await?;
                return Ok(false);
            }
        }
    }
    respond(srv, s, (a, b), true, conn, &net, None).await?;
    Ok(!close)
}
async fn respond(srv: &Server, s: &mut UnixStream, (a, b): (u64, u64), asked: bool, conn: &str, net: &Net, cut: Option<u64>) -> io::Result<()> {
    let len = srv.content.len;
    if a >= len || b < a {
        write_seg(s, format!("HTTP/1.1 416 Range Not Satisfiable\r\nContent-Range: bytes */{len}\r\nContent-Length: 0\r\n{conn}\r\n").as_bytes(), net).await?;
        return Ok(());
    }
    let body = srv.content.read(a..b.saturating_add(1));
    let end = a + body.len() as u64 - 1;
    let send = &body[..cut.map_or(body.len(), |c| c as usize)];
    // The whole length need not be told for the part that was asked for.
    let total = if end == b && asked && below(4) == 3 { "*".to_string() } else { len.to_string() };
    let range = format!("Content-Range: bytes {a}-{end}/{total}\r\n");
    if below(3) == 2 {
        write_seg(s, format!("HTTP/1.1 206 Partial Content\r\n{range}Transfer-Encoding: chunked\r\n{conn}\r\n").as_bytes(), net).await?;
        count("net.chunked");
        let mut at = 0;
        while at < send.len() {
            let n = (1 + small(send.len() as u64) as usize).min(send.len() - at);
            let mut c = format!("{n:x}\r\n").into_bytes();
            c.extend_from_slice(&send[at..at + n]);
            c.extend_from_slice(b"\r\n");
            write_seg(s, &c, net).await?;
            at += n;
        }
        if cut.is_none() {
            write_seg(s, b"0\r\n\r\n", net).await?;
        }
    } else {
        write_seg(s, format!("HTTP/1.1 206 Partial Content\r\n{range}Content-Length: {}\r\n{conn}\r\n", body.len()).as_bytes(), net).await?;
        write_seg(s, send, net).await?;
    }
    Ok(())
}

fn draw_range(len: u64) -> Range<u64> {
    if len > 1 << 31 {
        return match below(8) {
            0 => len + small(5)..len + 10 + small(50),
            1 => len - small(20)..len + small(1000),
            _ => crate::c_io::draw_far(len),
        };
    }
    let a = match below(6) {
        0 => 0,
        1 => len.saturating_sub(small(20)),
        2 => len + small(5),
        _ => below(len + 1),
    };
    let n = match below(8) {
        0 => 0,
        1 => 1,
        2 => len,
        3 => len + 100,
        _ => small(2000),
    };
    a..a + n
}
async fn one_read(r: &ReqwestReader, srv: &Server, range: Range<u64>, faulty: bool) {
    count("op.range");
    let res = r.get_bytes(range.clone()).await;
    judge(srv, &range, res.map(|b| vec![b]), std::slice::from_ref(&range), faulty);
}
fn judge(srv: &Server, what: &Range<u64>, res: Result<Vec<Bytes>, async_tiff::error::AsyncTiffError>, ranges: &[Range<u64>], faulty: bool) {
    let beyond = ranges.iter().any(|r| !r.is_empty() && r.start >= srv.content.len);
    match res {
        Ok(v) => {
            check!(v.len() == ranges.len(), "wrong-length", "{} buffers for {} ranges", v.len(), ranges.len());
            for (g, r) in v.iter().zip(ranges) {
                let want = srv.content.read(r.clone());
                check!(g[..] == want[..], "wrong-bytes", "range {r:?}: {} bytes that differ from the {} stored", g.len(), want.len());
            }
        }
        Err(e) => {
            if beyond || (faulty && srv.faults.load(Ordering::SeqCst) > 0) {
                count("op.failed_by_fault");
            } else {
                violate("unexpected-error", format!("range {what:?} (resource of {} bytes): {}", srv.content.len, text(&e)));
            }
        }
    }
}

/// One use of a whole file over HTTP: read the metadata, then tiles.
async fn use_file(meta: &Meta, reader: &Arc<dyn AsyncFileReader>, b: &Built, ops: u64) -> AsyncTiffResult<()> {
    let mut ifds = vec![];
    for k in 0..ops {
        if violated() {
            return Ok(());
        }
        if k == 0 || below(4) == 3 {
            let mode = below(5);
            count("op.http_metadata");
            if mode < 4 && k > 0 {
                read_metadata(mode, meta, b).await?;
            } else {
                ifds = open_all(meta).await?.ifds;
                check_dirs("metadata over HTTP", &ifds, &b.dirs);
            }
            continue;
        }
        let i = below(b.dirs.len() as u64) as usize;
        let (d, ifd) = (&b.dirs[i], &ifds[i]);
        if coin() {
            let (x, y) = draw_xy(d, 100);
            count("op.http_tile");
            match (ifd.fetch_tile(x, y, reader.as_ref()).await, model_tile(d, x, y)) {
                (Ok(t), _) => check_tile(&format!("fetch_tile({x},{y}) of directory {i} over HTTP"), &t, d, x, y),
                (Err(_), None) => {}
                (Err(e), Some(_)) => return Err(e),
            }
        } else {
            let mut list = draw_list(d, 0);
            // A reader may use a connection per block, and all of them at once.
            list.truncate(256 / d.spp().clamp(1, 256));
            if !d.tiled || list.iter().any(|(x, y)| model_tile(d, *x, *y).is_none()) {
                continue;
            }
            count("op.http_batch");
            check_batch("fetch_tiles over HTTP", &ifd.fetch_tiles(&list, reader.as_ref()).await?, d, &list);
        }
    }
    Ok(())
}
fn stack_over(r: ReqwestReader) -> (Arc<dyn AsyncFileReader>, Meta) {
    let r: Arc<dyn AsyncFileReader> = match below(3) {
        0 => Arc::new(r),
        1 => {
            let b: Box<dyn AsyncFileReader> = Box::new(r);
            Arc::new(b)
        }
        _ => {
            let a: Arc<dyn AsyncFileReader> = Arc::new(r);
            Arc::new(a)
        }
    };
    let m = if coin() { Meta::Cached(draw_cache(r.clone())) } else { Meta::Plain(r.clone()) };
    (r, m)
}

static NAME: AtomicU64 = AtomicU64::new(0);

/// As many open files as are allowed.
pub fn raise_file_limit() {
    let mut r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe {
        if libc::getrlimit(libc::RLIMIT_NOFILE, &mut r) == 0 {
            r.rlim_cur = r.rlim_max;
            libc::setrlimit(libc::RLIMIT_NOFILE, &r);
        }
    }
}

/// Where clients find the server.
struct Site {
    socket: String,
    path: &'static str,
}
impl Site {
    fn reader(&self) -> ReqwestReader {
        let mut b = reqwest::Client::builder().unix_socket(self.socket.as_str());
        if below(4) == 3 {
            b = b.pool_max_idle_per_host(0);
        }
        let c = b.build().expect("harness: client");
        count("reader.http");
        ReqwestReader::new(c, format!("http://sim.invalid{}", self.path).parse().expect("harness: url"))
    }
}
/// Run a workload against a server that holds `content`.
fn host<F: std::future::Future>(content: Content, kinds: &'static [u64], fail: &[u64], work: impl FnOnce(Arc<Server>, Site) -> F) {
    let len = content.len;
    let net = Net { fail: pick(fail), delay: pick(&[0, 50, 5000, 2_000_000]), segment: pick(&[0, 0, 1, 100, 4000]), close: pick(&[0, 100, 1000]), kinds, status: (kinds.len() == 1).then(|| pick(STATUSES)) };
    let net = Net { segment: if net.segment > 0 { net.segment.max(len.min(4 << 20) / 200) } else { 0 }, ..net };
    let path = pick(&["/data/image.tif", "/image.tif?version=3&x=%20", "/"]);
    let srv = Arc::new(Server { content, path, net: Mutex::new(net), faults: AtomicU64::new(0), statuses: Default::default(), conns: AtomicU64::new(0), seen: Default::default() });
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("harness: runtime");
    rt.block_on(async move {
        let t0 = tokio::time::Instant::now();
        // The name may be taken by a process of another sandbox.
        let (socket, listener) = loop {
            let socket = format!("\0atsim-{}-{}", std::process::id(), NAME.fetch_add(1, Ordering::SeqCst));
            match UnixListener::bind(&socket) {
                Ok(l) => break (socket, l),
                Err(e) if e.kind() == io::ErrorKind::AddrInUse => continue,
                Err(e) => panic!("harness: bind: {e}"),
            }
        };
        // Clients may open hundreds of connections before the server is scheduled again.
        unsafe { libc::listen(std::os::fd::AsRawFd::as_raw_fd(&listener), 4096) };
        let s3 = srv.clone();
        tokio::spawn(async move {
            loop {
                let Ok((mut s, _)) = listener.accept().await else { return };
                s3.conns.fetch_add(1, Ordering::SeqCst);
                count("net.connections");
                let srv = s3.clone();
                tokio::spawn(async move {
                    while let Ok(true) = serve_one(&srv, &mut s).await {}
                });
            }
        });
        work(srv, Site { socket, path }).await;
        with(|w| w.now += t0.elapsed().as_micros() as u64);
    });
}
/// The server behaves again (and connections it closed are noticed).
async fn heal(srv: &Server) {
    {
        let mut n = srv.net.lock().unwrap();
        n.fail = 0;
        n.delay = n.delay.min(5000);
    }
    ev!("server healed");
    tokio::time::sleep(Duration::from_secs(10)).await;
}
fn draw_whole_file() -> (Rc<Built>, Content) {
    let dirs = (0..1 + small(2)).map(|_| draw_tile_dir()).collect();
    let mut b = FileSpec::draw(dirs).build();
    let content = std::mem::replace(&mut b.content, Content::filler(0, 0));
    probe("probe.whole_file");
    (Rc::new(b), content)
}

/// The HTTP client's own error in an error, if it is there.
fn http_error(e: &AsyncTiffError) -> Option<&reqwest::Error> {
    if let AsyncTiffError::ReqwestError(r) = e {
        return Some(r);
    }
    let mut at: Option<&(dyn std::error::Error + 'static)> = match e {
        AsyncTiffError::External(b) => Some(b.as_ref()),
        _ => std::error::Error::source(e),
    };
    while let Some(x) = at {
        if let Some(r) = x.downcast_ref() {
            return Some(r);
        }
        at = x.source();
    }
    None
}
/// The part of C05 that happens over HTTP.
pub fn c05_http() {
    let (b, content) = draw_whole_file();
    let kinds = pick(&[OWN_KINDS, &[0], ALL_KINDS]);
    host(content, kinds, &[50, 20, 200, 500, 1000], |srv, site| async move {
        let stacks: Vec<_> = (0..1 + below(2)).map(|_| stack_over(site.reader())).collect();
        let cancel = pick(&[0, 0, 200]);
        let mut ex = Exec::new();
        for _ in 0..1 + small(3) {
            let (b, srv, stacks) = (b.clone(), srv.clone(), stacks.clone());
            ex.spawn(async move {
                for _ in 0..1 + small(3) {
                    let ((r, m), can) = (pick(&stacks), draw_cancel(cancel, 60));
                    if let Some(Err(e)) = cancellable(can, use_file(&m, &r, &b, 1 + small(5))).await {
                        let own = http_error(&e);
                        let sent = srv.statuses.lock().unwrap().clone();
                        if srv.faults.load(Ordering::SeqCst) == 0 {
                            violate("unexpected-error", format!("reading a well-formed file over HTTP: {}", text(&e)));
                        } else if kinds != ALL_KINDS && own.is_none() {
                            violate("error-lost", format!("the HTTP exchange failed, but the error does not carry the client's error: {}", text(&e)));
                        } else if kinds == [0] && !own.and_then(|o| o.status()).is_some_and(|s| sent.contains(&s.as_u16())) {
                            violate("error-lost", format!("the server answered {sent:?}, which is not what the error carries: {}", text(&e)));
                        } else {
                            count("op.failed_by_fault");
                        }
                    }
                    if violated() {
                        return;
                    }
                }
            });
        }
        ex.run_nested().await;
        if violated() {
            return;
        }
        heal(&srv).await;
        let mut ex = Exec::new();
        for (r, m) in stacks {
            let b = b.clone();
            ex.spawn(async move {
                if let Err(e) = use_file(&m, &r, &b, 3).await {
                    violate("not-recovered", format!("reading a well-formed file after the server recovered: {}", text(&e)));
                }
            });
        }
        ex.run_nested().await;
    });
}
/// The part of C18 that happens over HTTP.
pub fn c18_http() {
    let o = ImgOpts { codecs: BYTE_CODECS, max_tile: pick(&[8, 20, 33]), max_grid: 3, meta: pick(&[0, 150]) };
    let f = draw_image_file(1 + small(2), o, Knobs::immediate());
    let Some(ifds) = open_quiet(&f.src, false) else { return };
    let m = Mix { b: f.b.clone(), imgs: f.imgs.clone(), ifds, reg: Arc::new(DecoderRegistry::default()) };
    probe("probe.over_http");
    host(f.src.content.clone(), ALL_KINDS, &[0], |_, site| async move {
        let stacks: Vec<Stack> = (0..1 + small(2))
            .map(|_| {
                let (reader, meta) = stack_over(site.reader());
                Stack { base: Base::Http, reader, log: Default::default(), meta }
            })
            .collect();
        let cancel = pick(&[300, 0, 100, 700]);
        let mut ex = Exec::new();
        for _ in 0..2 + below(4) {
            let (m, st) = (m.clone(), pick(&stacks));
            ex.spawn(async move {
                for _ in 0..1 + small(3) {
                    cancellable(draw_cancel(cancel, 30), mixed_op(&m, &st)).await;
                    if violated() {
                        return;
                    }
                }
            });
        }
        ex.run_nested().await;
        if violated() {
            return;
        }
        let mut ex = Exec::new();
        for st in stacks {
            let m = m.clone();
            ex.spawn(async move {
                for _ in 0..2 {
                    mixed_op(&m, &st).await;
                }
            });
        }
        ex.run_nested().await;
    });
}

pub fn c13() {
    let file = (below(5) == 4).then(draw_whole_file);
    let (file, content) = match file {
        Some((b, c)) => (Some(b), c),
        None => {
            let n = if below(12) == 11 { crate::c_io::far_len() } else if below(100) == 99 { 300_000 + below(2_000_000) } else { pick(&[3000, 1, 17, 500, 20000, 60000]) };
            (None, Content::filler(n, 77))
        }
    };
    let len = content.len;
    // One kind of failure for as long as the outage lasts, or any mixture.
    let kinds: &[u64] = pick(&[ALL_KINDS, ALL_KINDS, ALL_KINDS, &[0], &[1], &[2], &[3], &[6], &[8], &[9]]);
    host(content, kinds, &[0, 0, 100, 300, 600, 1000], |srv2, site| async move {
        let readers: Vec<ReqwestReader> = (0..1 + below(2)).map(|_| site.reader()).collect();
        let cancel = pick(&[0, 0, 200]);
        let mut asked: Vec<Range<u64>> = vec![];
        let mut ex = Exec::new();
        let stacks: Vec<_> = if file.is_some() { readers.iter().map(|r| stack_over(r.clone())).collect() } else { vec![] };
        for _ in 0..1 + small(4) {
            if let Some(b) = &file {
                let (b, srv, (r, m), can) = (b.clone(), srv2.clone(), pick(&stacks), draw_cancel(cancel, 60));
                ex.spawn(async move {
                    for _ in 0..1 + below(2) {
                        if let Some(Err(e)) = cancellable(can, use_file(&m, &r, &b, 1 + small(5))).await {
                            if srv.faults.load(Ordering::SeqCst) > 0 {
                                count("op.failed_by_fault");
                            } else {
                                violate("unexpected-error", format!("reading a well-formed file over HTTP: {e:?}"));
                            }
                        }
                        if violated() {
                            return;
                        }
                    }
                });
                continue;
            }
            let r = pick(&readers).clone();
            let plan: Vec<Vec<Range<u64>>> = (0..1 + small(4))
                .map(|_| {
                    let n = if below(4) == 3 { small(4) } else { 1 };
                    (0..n).map(|_| draw_range(len)).collect()
                })
                .collect();
            asked.extend(plan.iter().flatten().cloned());
            let srv = srv2.clone();
            ex.spawn(async move {
                for v in plan {
                    let can = draw_cancel(cancel, 6);
                    if v.len() == 1 {
                        cancellable(can, one_read(&r, &srv, v[0].clone(), true)).await;
                    } else {
                        count("op.ranges");
                        if let Some(res) = cancellable(can, r.get_byte_ranges(v.clone())).await {
                            judge(&srv, &(0..0), res, &v, true);
                        }
                    }
                    if violated() {
                        return;
                    }
                    if coin() {
                        tokio::time::sleep(Duration::from_micros(below(3000))).await;
                    }
                }
            });
        }
        ex.run_nested().await;
        if violated() {
            return;
        }
        // Exactly the requested ranges were asked for.
        let want: Vec<String> = asked.iter().filter(|r| !r.is_empty()).map(|r| format!("bytes={}-{}", r.start, r.end - 1)).collect();
        for s in srv2.seen.lock().unwrap().iter().filter(|_| file.is_none()) {
            check!(want.contains(s), "wrong-request", "the server was asked for {s:?}, which no caller requested");
        }
        heal(&srv2).await;
        let mut ex = Exec::new();
        for (r, m) in stacks {
            let b = file.clone().unwrap();
            ex.spawn(async move {
                if let Err(e) = use_file(&m, &r, &b, 3).await {
                    violate("unexpected-error", format!("reading a well-formed file after the server recovered: {}", text(&e)));
                }
            });
        }
        for r in readers {
            let srv = srv2.clone();
            ex.spawn(async move {
                for _ in 0..2 {
                    let a = below(len);
                    one_read(&r, &srv, a..a + 1 + small((len - a).min(4 << 20)), false).await;
                }
            });
        }
        ex.run_nested().await;
    });
}
