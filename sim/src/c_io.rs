//! Readers: C11 (seekable streams), C12 (object store), C15 (wrappers).
use std::ops::Range;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use async_tiff::error::AsyncTiffResult;
use async_tiff::metadata::MetadataFetch;
use async_tiff::reader::{AsyncFileReader, ObjectReader, TokioReader};
use async_trait::async_trait;
use bytes::Bytes;
use object_store::path::Path;

use crate::checks::*;
use crate::core::*;
use crate::io::*;
use crate::stack::*;

fn draw_in(len: u64) -> Range<u64> {
    let start = match below(4) {
        0 => below(len + 1),
        1 => small(len),
        2 => len - small(len),
        _ => 0,
    };
    let n = match below(4) {
        0 => small(len - start),
        1 => len - start,
        2 => 0,
        _ => below(len - start + 1),
    };
    start..start + n
}

/// Short pieces of something longer than 4 GiB.
pub fn draw_far(len: u64) -> Range<u64> {
    let start = match below(4) {
        0 => small(3000),
        1 => (1u64 << pick(&[31u64, 32, 32, 33])).min(len) - small(2000) + small(1500),
        2 => len - small(3000),
        _ => below(len),
    };
    let start = start.min(len);
    start..start + small(2000).min(len - start)
}
/// Longer than 4 GiB.
pub fn far_len() -> u64 {
    probe("probe.beyond_4gib");
    pick(&[(1u64 << 32) + 5000, (1 << 33) + 77, (1 << 40) + 12345, (1 << 32) + 1])
}

pub fn c11() {
    let big = below(60) == 59;
    let far = !big && below(12) == 11;
    let long = !big && below(300) == 299;
    let draw_in = move |len: u64| if far { draw_far(len) } else { draw_in(len) };
    let len = if far { far_len() } else if big { pick(&[20_000u64, 70_000, 300_000, 5 << 20]) + small(300) } else { pick(&[100u64, 1000, 10, 1, 0, 5000]) + small(300) };
    let mut k = Knobs::quiet();
    k.fail = pick(&[0, 0, 30, 200]);
    let cancel = pick(&[0, 150, 500]);
    let src = SimSource::new(Content::filler(len, raw64()), k);
    let file = SimFile::new(src.clone(), if big { pick(&[0, 4000, 20_000, 300_000]).max(len / 200) } else { pick(&[0, 1, 5, 40, 300]) });
    let rd: Rc<dyn AsyncFileReader> = Rc::new(TokioReader::new(file));
    for phase in 0..2 {
        if phase == 1 {
            src.heal();
        }
        let mut ex = Exec::new();
        for _ in 0..1 + small(4) {
            let (rd, src) = (rd.clone(), src.clone());
            ex.spawn(async move {
                for _ in 0..1 + if long { 10 + small(60) } else { small(5) } {
                    let f0 = src.fault_count();
                    let c = if phase == 0 { draw_cancel(cancel, 5) } else { Cancel::Never };
                    let past = chance(120);
                    let draw = || {
                        let mut r = draw_in(len);
                        if past {
                            r.end = len + 1 + small(1000);
                            if coin() || far {
                                r.start = len + small(20);
                                r.end = r.end.max(r.start + 1);
                            }
                        }
                        r
                    };
                    if below(4) != 3 {
                        let r = draw();
                        count("op.get_bytes");
                        match cancellable(c, rd.get_bytes(r.clone())).await {
                            None => {}
                            Some(Ok(b)) => {
                                check!(!past, "past-end", "get_bytes {r:?} of a stream of {len} bytes returned {} bytes", b.len());
                                check!(b[..] == src.content.read(r.clone())[..], "wrong-bytes", "get_bytes {r:?} returned {} bytes that are not the stream's", b.len());
                            }
                            Some(Err(e)) => {
                                if past {
                                    probe("probe.past_end_error");
                                } else {
                                    err_ok(&format!("get_bytes {r:?} of {len}"), &e, &src, f0);
                                }
                            }
                        }
                    } else {
                        let n = if !big && below(200) == 199 { 30 + below(200) } else { small(5) };
                        let rs: Vec<Range<u64>> = (0..n).map(|_| draw_in(len)).collect();
                        count("op.get_byte_ranges");
                        match cancellable(c, rd.get_byte_ranges(rs.clone())).await {
                            None => {}
                            Some(Ok(v)) => {
                                check!(v.len() == rs.len(), "wrong-bytes", "{} buffers for {} ranges", v.len(), rs.len());
                                for (b, r) in v.iter().zip(&rs) {
                                    check!(b[..] == src.content.read(r.clone())[..], "wrong-bytes", "range {r:?} of {rs:?}");
                                }
                            }
                            Some(Err(e)) => err_ok("get_byte_ranges", &e, &src, f0),
                        }
                    }
                    if violated() {
                        return;
                    }
                }
            });
        }
        ex.run();
        if violated() {
            return;
        }
    }
}

pub fn c12() {
    let far = below(4) == 3;
    let vast = !far && below(12) == 11;
    let long = !far && below(150) == 149;
    let draw_in = move |len: u64| if vast { draw_far(len) } else { draw_in(len) };
    let len = if vast { far_len() } else if far { (8 << 20) + below(8 << 20) } else { pick(&[100u64, 3000, 10, 1, 40_000]) + small(500) };
    let mut k = Knobs::quiet();
    k.fail = pick(&[0, 0, 30, 150]);
    let cancel = if long { 500 } else { pick(&[0, 100]) };
    let src = SimSource::new(Content::filler(len, raw64()), k);
    let quiet = Knobs { latency: 2, sync: 500, fail: 0, short: 0, stall: 0 };
    let name = pick(&["a/b.tif", "x.tif", "dir with space/ü.tif", "a/b/c/d.tiff", "%41.tif"]);
    let path = Path::from(name);
    let decoy = SimSource::new(Content::filler(len.min(1 << 16), 99), quiet);
    let store = SimObjectStore {
        objects: vec![(Path::from("b.tif"), decoy.clone()), (path.clone(), src.clone()), (Path::from("a/b.tif.ovr"), decoy)],
        chunk: pick(&[0, 1000, 17, 3, 20_000]),
        body_fail: pick(&[0, 100]),
    };
    let store = Arc::new(store);
    let rd: Rc<dyn AsyncFileReader> = Rc::new(ObjectReader::new(store.clone(), path));
    let missing: Rc<dyn AsyncFileReader> = Rc::new(ObjectReader::new(store, Path::from("a/missing.tif")));
    let draw = move || {
        if far {
            // Small pieces of a large object: some coalesce, some do not.
            let s = match below(3) {
                0 => small(len - 600),
                1 => below(len - 600),
                _ => (below(8) << 20).min(len - 600) + small(100),
            };
            let n = if below(40) == 39 { small(4 << 20).min(len - s) } else { small(500) };
            s..s + n
        } else {
            draw_in(len)
        }
    };
    for phase in 0..2 {
        if phase == 1 {
            src.heal();
        }
        let mut ex = Exec::new();
        for _ in 0..1 + small(3) {
            let (rd, src, missing) = (rd.clone(), src.clone(), missing.clone());
            ex.spawn(async move {
                for _ in 0..1 + if long { 10 + small(60) } else { small(4) } {
                    let f0 = src.fault_count();
                    let c = if phase == 0 { draw_cancel(cancel, 5) } else { Cancel::Never };
                    match below(5) {
                        0 | 1 => {
                            let mut r = draw();
                            let past = chance(60);
                            if past {
                                r.end = len + 1 + small(100);
                                if vast {
                                    r.start = r.start.max(len - 500);
                                }
                            }
                            count("op.get_bytes");
                            match cancellable(c, rd.get_bytes(r.clone())).await {
                                None => {}
                                Some(Ok(b)) => check!(b[..] == src.content.read(r.clone())[..], "wrong-bytes", "get_bytes {r:?} of {len}: {} bytes", b.len()),
                                Some(Err(e)) if past && r.start >= len => {
                                    let _ = e;
                                }
                                Some(Err(e)) => err_ok(&format!("get_bytes {r:?} of {len}"), &e, &src, f0),
                            }
                        }
                        2 | 3 => {
                            let mut rs: Vec<Range<u64>> = vec![];
                            for _ in 0..if !far && below(1500) == 1499 { 500 + below(3000) } else if below(150) == 149 { 20 + below(300) } else { small(10) } {
                                let r = match rs.last() {
                                    Some(l) if below(3) == 2 => {
                                        // adjacent, repeated or overlapping
                                        let s = pick(&[l.end, l.start, (l.start + l.end) / 2]);
                                        s..(s + small(200)).min(len).max(s)
                                    }
                                    _ => draw(),
                                };
                                rs.push(r);
                            }
                            if coin() {
                                shuffle(&mut rs);
                            }
                            count("op.get_byte_ranges");
                            match cancellable(c, rd.get_byte_ranges(rs.clone())).await {
                                None => {}
                                Some(Ok(v)) => {
                                    check!(v.len() == rs.len(), "wrong-bytes", "{} buffers for {} ranges", v.len(), rs.len());
                                    for (i, (b, r)) in v.iter().zip(&rs).enumerate() {
                                        if b[..] != src.content.read(r.clone())[..] {
                                            violate("wrong-bytes", format!("buffer {i}, range {r:?} of {rs:?}: {} bytes that are not the object's", b.len()));
                                            break;
                                        }
                                    }
                                }
                                Some(Err(e)) => err_ok(&format!("get_byte_ranges {rs:?}"), &e, &src, f0),
                            }
                        }
                        _ => {
                            let s = below(len);
                            let r = s..s + 1 + small((len - s - 1).min(1 << 24));
                            count("op.get_missing");
                            let res = if coin() { missing.get_bytes(r).await.map(|_| ()) } else { missing.get_byte_ranges(vec![r]).await.map(|_| ()) };
                            match res {
                                Ok(()) => violate("wrong-bytes", "a missing object gave data".into()),
                                Err(e) => check!(format!("{e:?}").contains("no such object"), "error-lost", "missing object: {}", text(&e)),
                            }
                        }
                    }
                    if violated() {
                        return;
                    }
                }
            });
        }
        ex.run();
        if violated() {
            return;
        }
    }
}

// ---------------------------------------------------------------- wrappers

/// Implements both calls itself, with recognisably different results.
#[derive(Debug)]
struct Both {
    src: Arc<SimSource>,
    log: CallLog,
}
#[async_trait]
impl AsyncFileReader for Both {
    async fn get_bytes(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.log.lock().unwrap().push((cur_task(), Call::One(range.clone())));
        self.src.io(range).await.map_err(to_tiff_err)
    }
    async fn get_byte_ranges(&self, ranges: Vec<Range<u64>>) -> AsyncTiffResult<Vec<Bytes>> {
        self.log.lock().unwrap().push((cur_task(), Call::Many(ranges.clone())));
        let whole = ranges.iter().map(|r| r.start).min().unwrap_or(0)..ranges.iter().map(|r| r.end).max().unwrap_or(0);
        let b = self.src.io(whole.clone()).await.map_err(to_tiff_err)?;
        Ok(ranges.into_iter().map(|r| b.slice((r.start - whole.start) as usize..(r.end - whole.start) as usize)).collect())
    }
}
/// Implements only the single-range call.
#[derive(Debug)]
struct Single {
    src: Arc<SimSource>,
    log: CallLog,
}
#[async_trait]
impl AsyncFileReader for Single {
    async fn get_bytes(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.log.lock().unwrap().push((cur_task(), Call::One(range.clone())));
        self.src.io(range).await.map_err(to_tiff_err)
    }
}
fn wrap(mut r: Arc<dyn AsyncFileReader>) -> Arc<dyn AsyncFileReader> {
    for _ in 0..below(4) {
        r = if coin() {
            let b: Box<dyn AsyncFileReader> = Box::new(r);
            Arc::new(b)
        } else {
            Arc::new(r)
        };
        probe("probe.wrapped");
    }
    r
}
/// The error is the one the wrapped reader gave, not a rewrapped one.
fn unchanged(e: &async_tiff::error::AsyncTiffError) {
    if let Some(id) = fault_ids(e).first() {
        let want = format!("{:?}", to_tiff_err(SimErr(*id)));
        check!(format!("{e:?}") == want, "error-changed", "{e:?}, the reader gave {want}");
    }
}
pub fn c15() {
    let len = 2000;
    let mut k = Knobs::quiet();
    k.fail = pick(&[0, 50, 250]);
    let src = SimSource::new(Content::filler(len, raw64()), k);
    let log: CallLog = Default::default();
    let single = coin();
    let base: Arc<dyn AsyncFileReader> =
        if single { Arc::new(Single { src: src.clone(), log: log.clone() }) } else { Arc::new(Both { src: src.clone(), log: log.clone() }) };
    let rd = wrap(base);
    let results: Arc<Mutex<u64>> = Default::default();
    let mut ex = Exec::new();
    for _ in 0..1 + small(3) {
        let (rd, src, log, results) = (rd.clone(), src.clone(), log.clone(), results.clone());
        ex.spawn(async move {
            for _ in 0..1 + small(4) {
                let me = cur_task();
                let l0 = log.lock().unwrap().len();
                let q0 = src.nreqs();
                let f0 = src.fault_count();
                let kind = below(4);
                *results.lock().unwrap() += 1;
                let calls = || -> Vec<Call> { log.lock().unwrap()[l0..].iter().filter(|(t, _)| *t == me).map(|(_, c)| c.clone()).collect() };
                if kind < 2 {
                    let r = draw_in(len);
                    count("op.get_bytes");
                    let res = if kind == 0 { rd.get_bytes(r.clone()).await } else { MetadataFetch::fetch(&rd, r.clone()).await };
                    check!(calls() == vec![Call::One(r.clone())], "not-forwarded", "get_bytes {r:?} reached the reader as {:?}", calls());
                    match res {
                        Ok(b) => check!(b[..] == src.content.read(r.clone())[..], "wrong-bytes", "get_bytes {r:?}"),
                        Err(e) => {
                            err_ok("get_bytes", &e, &src, f0);
                            unchanged(&e)
                        }
                    }
                } else {
                    let n = if below(300) == 299 { 20 + below(300) } else { small(8) };
                    let rs: Vec<Range<u64>> = (0..n).map(|_| draw_in(len)).collect();
                    count("op.get_byte_ranges");
                    let c = draw_cancel(60, 3);
                    let res = match cancellable(c, rd.get_byte_ranges(rs.clone())).await {
                        Some(r) => r,
                        None => continue,
                    };
                    let got = calls();
                    let failed = src.reqs()[q0..].iter().filter(|q| q.task == me).position(|q| matches!(q.out, Outcome::Failed(_)));
                    match &res {
                        Ok(v) => {
                            check!(v.len() == rs.len(), "wrong-bytes", "{} buffers for {} ranges", v.len(), rs.len());
                            for (b, r) in v.iter().zip(&rs) {
                                check!(b[..] == src.content.read(r.clone())[..], "wrong-bytes", "range {r:?} of {rs:?}");
                            }
                            check!(failed.is_none(), "error-lost", "a read failed, but the call succeeded");
                        }
                        Err(e) => {
                            err_ok("get_byte_ranges", e, &src, f0);
                            unchanged(e)
                        }
                    }
                    if single {
                        // Every range once, in order, up to the first failure.
                        let n = failed.map(|i| i + 1).unwrap_or(rs.len());
                        let want: Vec<Call> = rs[..n].iter().cloned().map(Call::One).collect();
                        check!(got == want, "default-multi-range", "ranges {rs:?} (failure at {failed:?}) were read as {got:?}");
                    } else {
                        check!(got == vec![Call::Many(rs.clone())], "not-forwarded", "get_byte_ranges {rs:?} reached the reader as {got:?}");
                    }
                }
                if violated() {
                    return;
                }
            }
        });
    }
    ex.run();
}
