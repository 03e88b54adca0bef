//! Metadata properties: C01, C02, C03, C04, C16, C17.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::Range;
use std::rc::Rc;
use std::sync::Arc;

use async_tiff::error::AsyncTiffResult;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::{ImageFileDirectoryReader, MetadataFetch, TiffMetadataReader};
use async_tiff::reader::{AsyncFileReader, TokioReader};
use async_tiff::TIFF;

use crate::checks::*;
use crate::core::*;
use crate::io::*;
use crate::stack::*;
use crate::tiff::*;

fn draw_opts() -> MetaOpts {
    MetaOpts { max_vals: pick(&[8, 3, 30, 150, 400]), rich: pick(&[300, 80, 700, 0]), geo: true }
}
pub fn draw_file(max_dirs: u64) -> FileSpec {
    let n = 1 + small(max_dirs - 1);
    let o = draw_opts();
    let dirs = (0..n).map(|_| draw_opaque_dir(o)).collect();
    FileSpec::draw(dirs)
}

/// One complete reading of the file's metadata through `m`, in one of the ways users do it.
pub async fn read_metadata(mode: u64, m: &Meta, b: &Built) -> AsyncTiffResult<()> {
    let mut r = TiffMetadataReader::try_open(m).await?;
    check!(r.endianness() == b.endianness(), "wrong-header", "byte order {:?}", r.endianness());
    check!(r.bigtiff() == b.big, "wrong-header", "bigtiff {}", r.bigtiff());
    check!(r.has_next_ifd() && r.next_ifd_offset() == Some(b.dirs[0].offset), "wrong-header", "first directory at {:?}, stored {}", r.next_ifd_offset(), b.dirs[0].offset);
    match mode {
        0 => {
            let t: TIFF = r.read(m).await?;
            check!(t.endianness() == b.endianness(), "wrong-header", "TIFF byte order {:?}", t.endianness());
            check_dirs("read", t.ifds(), &b.dirs);
        }
        1 => {
            let v = r.read_all_ifds(m).await?;
            check_dirs("read_all_ifds", &v, &b.dirs);
        }
        2 => {
            let mut v = vec![];
            while let Some(i) = r.read_next_ifd(m).await? {
                v.push(i);
                if v.len() > b.dirs.len() {
                    break;
                }
            }
            check_dirs("read_next_ifd", &v, &b.dirs);
            check!(!r.has_next_ifd() && r.next_ifd_offset().is_none(), "wrong-directories", "next directory reported after the last");
        }
        _ => {
            for (i, d) in b.dirs.iter().enumerate() {
                let dr = ImageFileDirectoryReader::open(m, d.offset, b.big, b.endianness()).await?;
                for _ in 0..below(4) {
                    let k = below(d.order.len() as u64) as usize;
                    let (t, v) = dr.read_tag(m, k as u64).await?;
                    let want = &d.tags[&d.order[k]];
                    check!(t.to_u16() == d.order[k], "wrong-metadata", "directory {i} entry {k}: tag {t:?}, stored {}", d.order[k]);
                    let (g, w) = (format!("{v:?}"), format!("{:?}", want.expected()));
                    check!(g == w, "wrong-metadata", "directory {i} entry {k}: {g:.200}, stored {w:.200}");
                }
                let ifd = if below(4) == 3 {
                    // The same by hand.
                    let mut tags = std::collections::HashMap::new();
                    for k in 0..d.order.len() as u64 {
                        let (t, v) = dr.read_tag(m, k).await?;
                        tags.insert(t, v);
                    }
                    async_tiff::ImageFileDirectory::from_tags(tags, b.endianness())?
                } else {
                    dr.read(m).await?
                };
                if let Err(e) = check_dir(&ifd, d) {
                    violate("wrong-metadata", format!("directory {i}: {e}"));
                }
                let next = dr.finish(m).await?;
                check!(next == d.next, "wrong-directories", "directory {i}: next at {next:?}, stored {:?}", d.next);
                if violated() {
                    break;
                }
            }
        }
    }
    Ok(())
}

pub fn c01() {
    let large = below(1500) == 1499;
    let mut spec = if large { draw_large_file() } else { draw_file(4) };
    let jump = !large && below(6) == 5;
    if jump {
        draw_jump(&mut spec);
    }
    // One field holds something it cannot: reading fails, or gives the other fields as stored.
    let misfit = (!large && below(12) == 11).then(|| (below(spec.dirs.len() as u64) as usize, draw_misfit()));
    if let Some((i, (tag, v, _))) = &misfit {
        spec.dirs[*i].set(*tag, v.clone());
        probe("probe.misfit_field");
    }
    // Several files at a time: nothing of one may show up in what is read of another.
    let more = if large || misfit.is_some() { 0 } else { [0, 0, 0, 1 + small(2)][below(4) as usize] };
    let mut specs = vec![spec];
    for _ in 0..more {
        // The same layout with other values, or something unrelated.
        let other = if coin() { draw_sibling(&specs[0]) } else { draw_file(3) };
        specs.push(other);
        probe("probe.several_files");
    }
    SKIP.with(|s| s.set(&[]));
    let mut open: Vec<(Rc<Built>, Vec<Stack>)> = vec![];
    for spec in specs {
        let near = spec.jump == 0;
        let mut b = spec.build();
        if let Some((i, (tag, _, names))) = &misfit {
            b.dirs[*i].tags.remove(tag);
            SKIP.with(|s| s.set(names));
        }
        let content = std::mem::replace(&mut b.content, Content::filler(0, 0));
        ev!("file {} bytes, big={} be={} dirs={}", content.len, b.big, b.be, b.dirs.len());
        let src = SimSource::new(content, if large { Knobs::immediate() } else { Knobs::quiet() });
        let stacks: Vec<Stack> = if large {
            // Entries are read one by one: without a cache that is one request each.
            let base = pick(&[Base::Sim, Base::Object, Base::Par]);
            let c = ReadaheadMetadataCache::new(make_base(&src, base)).with_initial_size(pick(&[32768, 1000, 300_000]));
            let mut st = Stack::over(&src, base, false);
            if below(4) != 3 {
                st.meta = Meta::Cached(Arc::new(c));
            }
            vec![st]
        } else {
            (0..1 + below(if more > 0 { 2 } else { 3 })).map(|_| Stack::draw(&src, near)).collect()
        };
        open.push((Rc::new(b), stacks));
    }
    let mut ex = Exec::new();
    for n in 0..1 + if large { 0 } else { small(3).max(more) } {
        let (b, stacks) = if (n as usize) < open.len() { open[n as usize].clone() } else { pick(&open) };
        let st = pick(&stacks);
        let mode = below(if misfit.is_some() { 3 } else { 4 });
        let again = more > 0 && coin();
        count(["op.read", "op.read_all", "op.next_loop", "op.directory_reader"][mode as usize]);
        let may_fail = misfit.is_some();
        ex.spawn(async move {
            for _ in 0..1 + again as u64 {
                match read_metadata(mode, &st.meta, &b).await {
                    Err(_) if may_fail => count("op.misfit_refused"),
                    Err(e) => violate("unexpected-error", format!("mode {mode} over {:?}: {}", st.base, text(&e))),
                    Ok(_) => {}
                }
            }
        });
    }
    ex.run();
    SKIP.with(|s| s.set(&[]));
}

/// A value of a type its field cannot have: (tag, value, what to leave out of the comparison).
fn draw_misfit() -> (u16, Val, &'static [&'static str]) {
    let txt = || Val::Ascii(pick(&["x", "text", "12"]).to_string());
    match below(10) {
        8 => (282, if coin() { txt() } else { Val::Double(vec![72.0]) }, &["x_resolution", "other_tags"]),
        9 => (283, if coin() { txt() } else { Val::Short(vec![72]) }, &["y_resolution", "other_tags"]),
        0 => (274, txt(), &["orientation", "other_tags"]),
        1 => (278, Val::Double(vec![1.5]), &["rows_per_strip", "other_tags"]),
        2 => (270, Val::Double(vec![2.5, 3.5]), &["image_description", "other_tags"]),
        3 => (305, Val::Short(vec![1, 2, 3]), &["software", "other_tags"]),
        4 => (33550, txt(), &["model_pixel_scale", "other_tags"]),
        5 => (42113, Val::Long(vec![7]), &["gdal_nodata", "other_tags"]),
        6 => (254, txt(), &["new_subfile_type", "other_tags"]),
        _ => (281, txt(), &["max_sample_value", "other_tags"]),
    }
}

/// Known finding: the cache reads ahead past the end of the stream, which TokioReader refuses.
pub fn known_readahead_over_stream() -> bool {
    std::thread::spawn(|| {
        install(Source::Replay(vec![], 0), false);
        let mut d = Dir::new(true);
        for (t, v) in [(256, 8u16), (257, 8), (258, 8), (259, 1), (262, 1), (277, 1), (322, 8), (323, 8)] {
            d.set(t, Val::Short(vec![v]));
        }
        d.blocks = vec![Block::new(vec![0u8; 64])];
        let b = FileSpec::draw(vec![d]).build();
        let src = SimSource::new(b.content, Knobs::immediate());
        let r = block_on(async move {
            let rd: Arc<dyn AsyncFileReader> = Arc::new(TokioReader::new(SimFile::new(src, 0)));
            let m = Meta::Cached(Arc::new(ReadaheadMetadataCache::new(rd)));
            open_all(&m).await.is_err()
        });
        drop_events();
        take_world();
        r == Some(true)
    })
    .join()
    .unwrap_or(false)
}

// ---------------------------------------------------------------- read-ahead cache

#[derive(Clone, Copy, Debug)]
struct CacheCfg {
    initial: u64,
    mult: f64,
    configured: bool,
}
type Cache = ReadaheadMetadataCache<Arc<dyn AsyncFileReader>>;
fn draw_cfg() -> CacheCfg {
    if below(5) == 4 {
        return CacheCfg { initial: 32768, mult: 2.0, configured: false };
    }
    CacheCfg {
        initial: pick(&[16u64, 1, 2, 7, 100, 1000, 4096, 32768, 70000, 0, (1 << 32) + 3, u64::MAX]),
        mult: pick(&[2.0, 1.0, 1.5, 1.1, 3.0, 0.5, 7.3, 0.0, 100.0, 0.01, 1e6, 1e18]),
        configured: true,
    }
}
fn make_cache(src: &Arc<SimSource>, c: CacheCfg) -> Rc<Cache> {
    let r: Arc<dyn AsyncFileReader> = match below(3) {
        0 => Arc::new(SimReader(src.clone())),
        1 => Arc::new(ParReader(src.clone())),
        _ => {
            let b: Box<dyn AsyncFileReader> = Box::new(SimReader(src.clone()));
            Arc::new(b)
        }
    };
    let mut k = ReadaheadMetadataCache::new(r);
    if c.configured {
        if coin() {
            k = k.with_initial_size(c.initial).with_multiplier(c.mult);
        } else {
            k = k.with_multiplier(c.mult).with_initial_size(c.initial);
        }
    }
    Rc::new(k)
}
fn draw_len() -> u64 {
    match below(4) {
        0 => small(300),
        1 => below(5000),
        2 => below(100_000),
        _ => pick(&[0, 1, 16, 4096, 32768, 65536]),
    }
}
fn draw_range(len: u64, last_end: u64, steady: bool) -> Range<u64> {
    if steady && below(4) != 3 {
        // On and on in small steps: many blocks.
        let s = last_end.saturating_sub(small(20)).min(len);
        return s..last_end.min(len) + small(12);
    }
    let start = match below(6) {
        0 => 0,
        1 => last_end,
        2 => below(len + 1),
        3 => len.saturating_sub(small(len)),
        4 => small(len),
        _ => len + small(50),
    };
    let n = match below(5) {
        0 => pick(&[2u64, 8, 4, 1]),
        1 => small(200),
        2 => 0,
        3 => small(len + 10),
        _ => 12,
    };
    start..start + n
}

fn cache_call_check(src: &SimSource, range: &Range<u64>, s0: u64, f0: usize, r: AsyncTiffResult<bytes::Bytes>) {
    match r {
        Ok(got) => {
            let want = src.content.read(range.clone());
            if got[..] == want[..] {
                return;
            }
            // A truncated answer is excusable only if the source truncated one during the call.
            let short = src.reqs().iter().any(|q| matches!(q.out, Outcome::Short(_)) && q.end >= s0);
            let prefix = want.starts_with(&got);
            check!(short, "cache-wrong-bytes", "fetch {range:?}: {} bytes returned, source holds {} (prefix: {prefix}) and truncated nothing", got.len(), want.len());
            check!(prefix, "cache-wrong-bytes", "fetch {range:?}: returned bytes are not what the source holds there");
            probe("probe.short_answer_passed_on");
        }
        Err(e) => {
            // A truncating source may also be reported as an error.
            let short = src.reqs().iter().any(|q| matches!(q.out, Outcome::Short(_)) && q.end >= s0);
            if !short {
                err_ok(&format!("fetch {range:?}"), &e, src, f0);
            }
        }
    }
}

pub fn c02() {
    let len = draw_len();
    let mut k = Knobs::quiet();
    k.fail = pick(&[0, 30, 150, 400]);
    k.short = pick(&[0, 50, 200, 500]);
    let cancel = pick(&[0, 100, 400]);
    let src = SimSource::new(Content::filler(len, raw64()), k);
    let steady = below(40) == 39;
    let mut cfg = draw_cfg();
    if steady {
        cfg = CacheCfg { initial: 1 + small(20), mult: pick(&[0.0, 0.01, 0.1, 0.3]), configured: true };
        probe("probe.many_blocks");
    }
    ev!("len {len} {cfg:?}");
    let cache = make_cache(&src, cfg);
    let long = below(400) == 399 || steady && coin();
    for phase in 0..2 {
        if phase == 1 {
            src.heal();
        }
        let mut ex = Exec::new();
        for _ in 0..1 + small(4) {
            let (cache, src) = (cache.clone(), src.clone());
            ex.spawn(async move {
                let mut last = 0;
                for _ in 0..1 + if steady { 10 + small(80) } else if long { small(300) } else { small(6) } {
                    let range = draw_range(len, last, steady);
                    let (s0, f0) = (step(), src.fault_count());
                    let c = if phase == 0 { draw_cancel(cancel, 4) } else { Cancel::Never };
                    count("op.cache_fetch");
                    if let Some(r) = cancellable(c, cache.fetch(range.clone())).await {
                        ev!("fetch {:?} -> {:?}", range, r.as_ref().map(|b| b.len()).map_err(text));
                        if r.is_ok() {
                            last = range.end;
                        }
                        cache_call_check(&src, &range, s0, f0, r);
                    }
                    if violated() {
                        return;
                    }
                }
            });
        }
        ex.run();
        if violated() {
            return;
        }
    }
}

pub fn c03() {
    let len = draw_len();
    let mut k = Knobs::quiet();
    k.fail = pick(&[0, 0, 50, 300]);
    k.short = pick(&[0, 0, 100]);
    let cancel = pick(&[0, 0, 200]);
    let src = SimSource::new(Content::filler(len, raw64()), k);
    let steady = below(40) == 39;
    let mut cfg = draw_cfg();
    if steady {
        cfg = CacheCfg { initial: 1 + small(20), mult: pick(&[0.0, 0.01, 0.1, 0.3]), configured: true };
        probe("probe.many_blocks");
    }
    ev!("len {len} {cfg:?}");
    let cache = make_cache(&src, cfg);
    let long = below(400) == 399 || steady && coin();
    // What each task is asking for, at every request.
    let current: Shared<BTreeMap<usize, Vec<(usize, usize, Range<u64>)>>> = Default::default();
    let held = |src: &SimSource| -> u64 {
        src.reqs()
            .iter()
            .map(|q| match q.out {
                Outcome::Ok(n) | Outcome::Short(n) => n,
                _ => 0,
            })
            .sum()
    };
    let mut ex = Exec::new();
    for _ in 0..1 + small(4) {
        let (cache, src, current) = (cache.clone(), src.clone(), current.clone());
        ex.spawn(async move {
            let mut last = 0;
            for _ in 0..1 + if steady { 10 + small(80) } else if long { small(300) } else { small(7) } {
                let range = draw_range(len, last, steady);
                let h0 = held(&src);
                let n0 = src.nreqs();
                let me = cur_task();
                current.borrow_mut().entry(me).or_default().push((n0, usize::MAX, range.clone()));
                let c = draw_cancel(cancel, 4);
                count("op.cache_fetch");
                let f0 = src.fault_count();
                let r = cancellable(c, cache.fetch(range.clone())).await;
                current.borrow_mut().get_mut(&me).unwrap().last_mut().unwrap().1 = src.nreqs();
                if let Some(r) = r {
                    ev!("fetch {:?} -> {:?}", range, r.as_ref().map(|b| b.len()).map_err(text));
                    match r {
                        Ok(_) => last = range.end,
                        Err(e) => err_ok("fetch", &e, &src, f0),
                    }
                }
                if range.end <= h0 && range.start <= range.end {
                    probe("probe.cache_hit");
                    let mine = src.reqs()[n0..].iter().filter(|q| q.task == me).count();
                    check!(mine == 0, "cache-rereads", "fetch {range:?}: {h0} bytes are held, but {mine} requests were made");
                }
                if violated() {
                    return;
                }
            }
        });
    }
    ex.run();
    if violated() {
        return;
    }
    // The request log against the policy.
    check!(src.st.lock().unwrap().max_inflight <= 1, "cache-parallel", "two requests in flight at once");
    let mut have = 0u64;
    for q in src.reqs() {
        check!(
            q.range.start == have,
            "cache-not-sequential",
            "request {:?} although {have} bytes are held: {}",
            q.range,
            if q.range.start < have { "held bytes are requested again" } else { "a gap is left" }
        );
        let size = q.range.end - q.range.start;
        let room = (u64::MAX - have) as f64;
        let policy = if have == 0 { cfg.initial as f64 } else { have as f64 * cfg.mult }.min(room);
        let cur = current.borrow();
        let needed = cur
            .get(&q.task)
            .and_then(|v| v.iter().find(|(a, b, _)| *a <= q.id as usize && (q.id as usize) < *b))
            .map(|(_, _, r)| r.end.saturating_sub(have))
            .unwrap_or(0);
        let wanted = cur.values().flatten().any(|(a, b, r)| *a <= q.id as usize && (q.id as usize) < *b && r.end > have);
        check!(wanted, "cache-needless", "request {:?}, but the {have} bytes held are all that any caller asks for", q.range);
        // A request can only be made by a caller, which is then the task that is running.
        let want = policy.max(needed as f64);
        check!(
            (size as f64 - want).abs() <= 1.0 + want * 1e-12,
            "cache-policy",
            "request {:?} of {size} bytes with {have} held; initial size {}, multiplier {}, caller needs {needed}",
            q.range,
            cfg.initial,
            cfg.mult
        );
        if have > 0 {
            probe("probe.cache_grew");
        }
        match q.out {
            Outcome::Ok(n) | Outcome::Short(n) => have += n,
            _ => {}
        }
        if violated() {
            return;
        }
    }
}

// ---------------------------------------------------------------- directory iteration

pub fn c04() {
    let many = below(300) == 299;
    let mut spec = if many {
        let o = MetaOpts { max_vals: 3, rich: 0, geo: false };
        let n = if below(4) == 3 { 64 + below(250) } else { 6 + below(40) };
        FileSpec::draw((0..n).map(|_| draw_opaque_dir(o)).collect())
    } else {
        draw_file(5)
    };
    let jump = !many && below(8) == 7;
    if jump {
        draw_jump(&mut spec);
    }
    let mut b = spec.build();
    let content = std::mem::replace(&mut b.content, Content::filler(0, 0));
    let mut k = Knobs::faulty();
    k.fail = pick(&[0, 3, 15, 60]);
    k.short = pick(&[0, 0, 5, 30]);
    let cancel = pick(&[0, 200, 500]);
    let short = k.short > 0;
    let src = SimSource::new(content, k);
    let b = Rc::new(b);
    let nd = b.dirs.len();
    let st = Stack::draw(&src, !jump);
    let ntasks = 1 + small(2);
    ev!("dirs {nd} stack {:?}", st.base);
    // Reader state survives from the faulty phase into the drain.
    let readers: Shared<Vec<(TiffMetadataReader, usize)>> = Default::default();
    let mut ex = Exec::new();
    for _ in 0..ntasks {
        let (st, src, b, readers) = (st.clone(), src.clone(), b.clone(), readers.clone());
        ex.spawn(async move {
            let mut tries = 0;
            let mut r = loop {
                let f0 = src.fault_count();
                match TiffMetadataReader::try_open(&st.meta).await {
                    Ok(r) => break r,
                    Err(e) if !short => err_ok("try_open", &e, &src, f0),
                    Err(_) => {}
                }
                tries += 1;
                if violated() || tries > 30 {
                    return;
                }
            };
            let mut pos = 0usize;
            for _ in 0..range(1, 8) {
                check!(r.has_next_ifd() == (pos < nd), "iteration", "has_next_ifd {} after {pos} of {nd} directories", r.has_next_ifd());
                check!(r.next_ifd_offset() == b.dirs.get(pos).map(|d| d.offset), "iteration", "next_ifd_offset {:?} after {pos} of {nd}", r.next_ifd_offset());
                if violated() {
                    return;
                }
                let f0 = src.fault_count();
                // Long operations need late cancellation points too.
                let c = draw_cancel(cancel, pick(&[3, 40, 400]));
                if below(4) != 3 {
                    count("op.next");
                    match cancellable(c, r.read_next_ifd(&st.meta)).await {
                        None => probe("probe.next_cancelled"),
                        Some(Ok(Some(i))) => {
                            if pos >= nd {
                                violate("iteration", format!("a directory was returned after the last of {nd}"));
                                return;
                            }
                            if let Err(m) = check_dir(&i, &b.dirs[pos]) {
                                let other = (0..nd).find(|j| *j != pos && check_dir(&i, &b.dirs[*j]).is_ok());
                                violate("iteration", format!("directory {pos} expected (the returned one is {other:?}): {m}"));
                                return;
                            }
                            pos += 1;
                        }
                        Some(Ok(None)) => check!(pos == nd, "iteration", "'no more' after {pos} of {nd} directories"),
                        Some(Err(e)) => {
                            probe("probe.next_failed");
                            if !short {
                                err_ok("read_next_ifd", &e, &src, f0)
                            }
                        }
                    }
                } else {
                    count("op.all");
                    let res = if coin() {
                        cancellable(c, r.read_all_ifds(&st.meta)).await
                    } else {
                        cancellable(c, async { r.read(&st.meta).await.map(|t| t.ifds().to_vec()) }).await
                    };
                    match res {
                        None => probe("probe.all_cancelled"),
                        Some(Ok(v)) => {
                            check_dirs(&format!("read_all_ifds after {pos}"), &v, &b.dirs[pos..]);
                            pos = nd;
                        }
                        Some(Err(e)) => {
                            probe("probe.all_failed");
                            if !short {
                                err_ok("read_all_ifds", &e, &src, f0)
                            }
                        }
                    }
                }
                ev!("pos {pos}");
                if violated() {
                    return;
                }
            }
            readers.borrow_mut().push((r, pos));
        });
    }
    ex.run();
    if violated() {
        return;
    }
    src.heal();
    let mut ex = Exec::new();
    let rs: Vec<_> = readers.borrow_mut().drain(..).collect();
    for (mut r, pos) in rs {
        let (st, b) = (st.clone(), b.clone());
        let all = coin();
        ex.spawn(async move {
            let mut got = vec![];
            check!(r.has_next_ifd() == (pos < nd) && r.next_ifd_offset() == b.dirs.get(pos).map(|d| d.offset), "iteration", "position lost: at {:?} after {pos} of {nd}", r.next_ifd_offset());
            if all {
                match r.read_all_ifds(&st.meta).await {
                    Ok(v) => got = v,
                    Err(e) => violate("not-recovered", format!("read_all_ifds after the faults ended: {}", text(&e))),
                }
            } else {
                loop {
                    match r.read_next_ifd(&st.meta).await {
                        Ok(Some(i)) => got.push(i),
                        Ok(None) => break,
                        Err(e) => {
                            violate("not-recovered", format!("read_next_ifd after the faults ended: {}", text(&e)));
                            break;
                        }
                    }
                    if got.len() > nd {
                        break;
                    }
                }
            }
            if violated() {
                return;
            }
            check_dirs(&format!("drain from {pos}"), &got, &b.dirs[pos..]);
            for _ in 0..2 {
                match r.read_next_ifd(&st.meta).await {
                    Ok(None) => {}
                    o => violate("iteration", format!("after the last directory: {:?}", o.map(|x| x.is_some()).map_err(|e| text(&e)))),
                }
            }
            check!(!r.has_next_ifd() && r.next_ifd_offset().is_none(), "iteration", "next directory reported after the last");
            match r.read_all_ifds(&st.meta).await {
                Ok(v) => check!(v.is_empty(), "iteration", "read_all_ifds after the last directory returned {}", v.len()),
                Err(e) => violate("iteration", format!("read_all_ifds after the last directory: {}", text(&e))),
            }
        });
    }
    ex.run();
}

// ---------------------------------------------------------------- header size

pub fn c16() {
    let mut spec = draw_file(4);
    if below(20) == 19 {
        // Which directory's data comes first is anybody's guess.
        let o = MetaOpts { max_vals: 3, rich: 0, geo: false };
        for _ in 0..pick(&[6, 20, 40, 70]) {
            spec.dirs.push(draw_opaque_dir(o));
        }
        spec.shuffle = true;
        probe("probe.many_directories");
    }
    let cog = below(5) != 4;
    if cog {
        spec.kind = LayoutKind::Cog;
    }
    spec.shuffle = spec.shuffle || below(3) == 2;
    // Unwritten blocks.
    if coin() {
        for d in &mut spec.dirs {
            let all = below(6) == 5;
            for bl in &mut d.blocks {
                if all || chance(250) {
                    bl.sparse = true;
                    bl.alias = None;
                    probe("probe.sparse_block");
                }
            }
        }
        for d in &mut spec.dirs {
            // aliases of sparse blocks become sparse themselves
            for i in 0..d.blocks.len() {
                if let Some(a) = d.blocks[i].alias {
                    if d.blocks[a].sparse {
                        d.blocks[i].alias = None;
                        d.blocks[i].sparse = true;
                    }
                }
            }
        }
    }
    if spec.dirs.iter().all(|d| d.blocks.iter().all(|b| b.sparse)) {
        spec.dirs[0].blocks[0].sparse = false;
    }
    let jump = below(12) == 11;
    if jump {
        draw_jump(&mut spec);
    }
    let mut b = spec.build();
    let content = std::mem::replace(&mut b.content, Content::filler(0, 0));
    let src = SimSource::new(content, Knobs::quiet());
    let b = Rc::new(b);
    let first = b.first_data.unwrap();
    let st = Stack::draw(&src, !jump);
    let (b2, st2) = (b.clone(), st.clone());
    let size = block_on(async move {
        let mut r = match TiffMetadataReader::try_open(&st2.meta).await {
            Ok(r) => r,
            Err(e) => {
                violate("unexpected-error", text(&e));
                return 0;
            }
        };
        match r.read(&st2.meta).await {
            Ok(t) => {
                check_dirs("open", t.ifds(), &b2.dirs);
                t.header_byte_size()
            }
            Err(e) => {
                violate("unexpected-error", text(&e));
                0
            }
        }
    });
    if violated() {
        return;
    }
    let size = size.unwrap();
    check!(size == first, "header-size", "header_byte_size {size}, first image data at {first}");
    if !cog || size > 1 << 26 || violated() {
        return;
    }
    count("op.reopen");
    let inner = make_base(&src, pick(BASES));
    let log: CallLog = Default::default();
    let rec: Arc<dyn AsyncFileReader> = Arc::new(RecReader { inner, log: log.clone() });
    let cache = Meta::Cached(Arc::new(
        ReadaheadMetadataCache::new(rec).with_initial_size(size).with_multiplier(pick(&[2.0, 1.0, 4.0])),
    ));
    let mut ex = Exec::new();
    for _ in 0..1 + small(3) {
        let (m, b) = (cache.clone(), b.clone());
        let mode = below(4);
        ex.spawn(async move {
            if let Err(e) = read_metadata(mode, &m, &b).await {
                violate("unexpected-error", format!("reopening: {}", text(&e)));
            }
        });
    }
    ex.run();
    if violated() {
        return;
    }
    let calls = log.lock().unwrap().clone();
    check!(calls.len() == 1, "header-size", "reopening with initial size {size} took {} requests: {:?}", calls.len(), &calls[..calls.len().min(4)]);
}

// ---------------------------------------------------------------- geo keys

pub fn c17() {
    let n = 1 + small(2);
    let dirs: Vec<Dir> = (0..n)
        .map(|_| {
            let mut d = draw_opaque_dir(MetaOpts { max_vals: 6, rich: pick(&[0, 100]), geo: false });
            d.blocks.truncate(4);
            if d.tiled {
                d.tags.remove(&322);
                d.tags.remove(&323);
                d.set(322, Val::Long(vec![d.u(256).unwrap() as u32]));
                d.set(323, Val::Long(vec![d.u(257).unwrap() as u32]));
            }
            for t in [34735, 34736, 34737] {
                d.tags.remove(&t);
            }
            crate::geo::add_geo(&mut d);
            d
        })
        .collect();
    // The same logical content in two or three physical forms.
    let forms = 1 + below(3);
    let mut ex = Exec::new();
    for _ in 0..forms {
        let mut spec = FileSpec::draw(dirs.clone());
        for d in &mut spec.dirs {
            d.shuffled = coin();
        }
        spec.shuffle = coin();
        let jump = below(10) == 9;
        if jump {
            draw_jump(&mut spec);
        }
        let mut b = spec.build();
        let content = std::mem::replace(&mut b.content, Content::filler(0, 0));
        let src = SimSource::new(content, Knobs::quiet());
        let b = Rc::new(b);
        for _ in 0..1 + below(2) {
            let st = Stack::draw(&src, !jump);
            let b = b.clone();
            count("op.open_geo");
            ex.spawn(async move {
                match open_all(&st.meta).await {
                    Ok(o) => {
                        for (i, (g, d)) in o.ifds.iter().zip(&b.dirs).enumerate() {
                            match g.geo_key_directory() {
                                None => violate("geo-keys", format!("directory {i}: no geo keys reported")),
                                Some(k) => {
                                    if let Err(m) = crate::geo::check_geo(k, d) {
                                        violate("geo-keys", format!("directory {i}: {m}"));
                                    }
                                }
                            }
                        }
                        check!(o.ifds.len() == b.dirs.len(), "wrong-directories", "{} directories", o.ifds.len());
                    }
                    Err(e) => violate("unexpected-error", text(&e)),
                }
            });
        }
    }
    ex.run();
}
#[allow(unused)]
fn _t(_: Rc<RefCell<u8>>) {}
