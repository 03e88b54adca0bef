//! Whole-system workloads: C05 (failures) and C18 (independence, cancellation, progress).
use std::rc::Rc;
use std::sync::Arc;

use async_tiff::decoder::DecoderRegistry;
use async_tiff::error::AsyncTiffError;
use async_tiff::ImageFileDirectory;

use crate::c_meta::read_metadata;
use crate::c_tile::*;
use crate::checks::*;
use crate::codec::*;
use crate::core::*;
use crate::io::*;
use crate::stack::*;
use crate::tiff::*;

/// A metadata operation failed. With truncated responses about, any error will do.
fn meta_err(what: &str, e: &AsyncTiffError, src: &SimSource, f0: usize) {
    let cut = src.st.lock().unwrap().reqs.iter().any(|r| matches!(r.out, Outcome::Short(_)));
    if cut {
        count("op.failed_by_fault");
    } else {
        err_ok(what, e, src, f0);
    }
}

#[derive(Clone)]
struct Ctx {
    b: Rc<Built>,
    src: Arc<SimSource>,
    ifds: Rc<Vec<ImageFileDirectory>>,
}
async fn tile_op(c: &Ctx, st: &Stack, ifds: &[ImageFileDirectory]) {
    let i = below(c.b.dirs.len() as u64) as usize;
    let (d, ifd) = (&c.b.dirs[i], &ifds[i]);
    let f0 = c.src.fault_count();
    if coin() {
        let (x, y) = draw_xy(d, 50);
        let what = format!("fetch_tile({x},{y}) of directory {i} over {:?}", st.base);
        count("op.tile");
        match (ifd.fetch_tile(x, y, st.reader.as_ref()).await, model_tile(d, x, y)) {
            (Ok(t), _) => check_tile(&what, &t, d, x, y),
            (Err(_), None) => {}
            (Err(e), Some(_)) => err_ok(&what, &e, &c.src, f0),
        }
    } else {
        let list = draw_list(d, 50);
        if list.is_empty() {
            return;
        }
        let what = format!("fetch_tiles({list:?}) of directory {i} over {:?}", st.base);
        let ok = list.iter().all(|(x, y)| model_tile(d, *x, *y).is_some());
        count("op.batch");
        match ifd.fetch_tiles(&list, st.reader.as_ref()).await {
            Ok(v) => check_batch(&what, &v, d, &list),
            Err(_) if !ok => {}
            Err(e) => err_ok(&what, &e, &c.src, f0),
        }
    }
}

pub fn c05() {
    if below(10) == 9 {
        return crate::http::c05_http();
    }
    let short = below(4) == 3;
    let mut k = Knobs::faulty();
    if short {
        k.short = pick(&[20, 100]);
        k.fail = pick(&[0, 20]);
    }
    let jump = below(6) == 5;
    let Some(f) = draw_tile_file(3, jump, false, false, k) else { return };
    let c = Ctx { b: f.b, src: f.src, ifds: f.ifds };
    let stacks: Vec<Stack> = (0..1 + below(2)).map(|_| Stack::draw(&c.src, !jump)).collect();
    let cancel = pick(&[0, 0, 200]);
    let mut ex = Exec::new();
    for _ in 0..1 + small(3) {
        let (c, stacks) = (c.clone(), stacks.clone());
        ex.spawn(async move {
            for _ in 0..1 + small(4) {
                let st = pick(&stacks);
                let can = draw_cancel(cancel, 12);
                if short || coin() {
                    let mode = below(4);
                    count("op.metadata");
                    let f0 = c.src.fault_count();
                    if let Some(Err(e)) = cancellable(can, read_metadata(mode, &st.meta, &c.b)).await {
                        meta_err(&format!("reading metadata (mode {mode}) over {:?}", st.base), &e, &c.src, f0);
                    }
                } else {
                    cancellable(can, tile_op(&c, &st, &c.ifds)).await;
                }
                if violated() {
                    return;
                }
            }
        });
    }
    ex.run();
    if violated() {
        return;
    }
    // The storage works again: the same objects must work again.
    c.src.heal();
    let f1 = c.src.fault_count();
    let mut ex = Exec::new();
    for st in stacks {
        let c = c.clone();
        ex.spawn(async move {
            let mode = below(4);
            if let Err(e) = read_metadata(mode, &st.meta, &c.b).await {
                violate("not-recovered", format!("metadata (mode {mode}) over {:?} after the storage recovered: {}", st.base, text(&e)));
                return;
            }
            let o = match open_all(&st.meta).await {
                Ok(o) => o,
                Err(e) => {
                    violate("not-recovered", format!("opening over {:?} after the storage recovered: {}", st.base, text(&e)));
                    return;
                }
            };
            check_dirs("open after recovery", &o.ifds, &c.b.dirs);
            for _ in 0..2 {
                if violated() {
                    return;
                }
                tile_op(&c, &st, if coin() { &o.ifds } else { &c.ifds }).await;
            }
            if c.src.fault_count() > f1 {
                panic!("harness: fault after heal");
            }
        });
    }
    ex.run();
}

// ---------------------------------------------------------------- C18

#[derive(Clone)]
pub struct Mix {
    pub b: Rc<Built>,
    pub imgs: Rc<Vec<Image>>,
    pub ifds: Rc<Vec<ImageFileDirectory>>,
    pub reg: Arc<DecoderRegistry>,
}
pub async fn mixed_op(m: &Mix, st: &Stack) {
    let i = below(m.imgs.len() as u64) as usize;
    let (d, im) = (&m.b.dirs[i], &m.imgs[i]);
    let nx = d.grid().0;
    let fail = |what: &str, e: AsyncTiffError| violate("unexpected-error", format!("{what} over {:?}: {}", st.base, text(&e)));
    match below(4) {
        0 => {
            count("op.metadata");
            let mode = below(4);
            if let Err(e) = read_metadata(mode, &st.meta, &m.b).await {
                fail("metadata", e);
            }
        }
        1 => {
            count("op.tile");
            let (x, y) = draw_xy(d, 0);
            match m.ifds[i].fetch_tile(x, y, st.reader.as_ref()).await {
                Err(e) => fail("fetch_tile", e),
                Ok(t) => {
                    check_tile("fetch_tile", &t, d, x, y);
                    yield_now().await;
                    check_decoded(&format!("tile ({x},{y}) of image {i}"), im, decode(t, &m.reg), &im.tiles[y * nx + x]);
                }
            }
        }
        2 => {
            count("op.batch");
            let list = draw_list(d, 0);
            match m.ifds[i].fetch_tiles(&list, st.reader.as_ref()).await {
                Err(e) => fail("fetch_tiles", e),
                Ok(v) => {
                    check_batch("fetch_tiles", &v, d, &list);
                    if violated() {
                        return;
                    }
                    for (t, (x, y)) in v.into_iter().zip(list).take(3) {
                        yield_now().await;
                        check_decoded(&format!("tile ({x},{y}) of image {i}"), im, decode(t, &m.reg), &im.tiles[y * nx + x]);
                    }
                }
            }
        }
        _ => {
            count("op.open_fetch_decode");
            match open_all(&st.meta).await {
                Err(e) => fail("open", e),
                Ok(o) => {
                    check_dirs("open", &o.ifds, &m.b.dirs);
                    if violated() {
                        return;
                    }
                    let (x, y) = draw_xy(d, 0);
                    match o.ifds[i].fetch_tile(x, y, st.reader.as_ref()).await {
                        Err(e) => fail("fetch_tile", e),
                        Ok(t) => check_decoded(&format!("tile ({x},{y}) of image {i}"), im, decode(t, &m.reg), &im.tiles[y * nx + x]),
                    }
                }
            }
        }
    }
}

pub fn c18() {
    if below(12) == 11 {
        return crate::http::c18_http();
    }
    let o = ImgOpts { codecs: if below(4) == 3 { ALL_CODECS } else { BYTE_CODECS }, max_tile: pick(&[8, 20, 33]), max_grid: 3, meta: pick(&[0, 150]) };
    // Sometimes several files at a time, decoded with one registry.
    let files = [1, 1, 2 + small(2)][below(3) as usize];
    let reg = Arc::new(DecoderRegistry::default());
    let mut open: Vec<(Mix, Stack)> = vec![];
    let drawn: Vec<ImageFile> = if files > 1 && coin() {
        probe("probe.twin_files");
        let o = ImgOpts { codecs: if coin() { &[Codec::Raw] } else { o.codecs }, ..o };
        draw_twins(1 + small(1), o, Knobs::quiet()).into()
    } else {
        (0..files).map(|_| draw_image_file(1 + small(2), o, Knobs::quiet())).collect()
    };
    for f in drawn {
        if files > 1 {
            probe("probe.several_files");
        }
        let Some(ifds) = open_quiet(&f.src, false) else { return };
        check_dirs("open", &ifds, &f.b.dirs);
        if violated() {
            return;
        }
        let m = Mix { b: f.b, imgs: f.imgs, ifds, reg: reg.clone() };
        for _ in 0..1 + small(2) {
            open.push((m.clone(), Stack::draw(&f.src, true)));
        }
    }
    let cancel = pick(&[300, 0, 100, 700]);
    let mut ex = Exec::new();
    for _ in 0..2 + below(5) {
        let open = open.clone();
        ex.spawn(async move {
            let mut at = pick(&open);
            for _ in 0..1 + small(4) {
                if files > 1 {
                    at = pick(&open);
                }
                let (m, st) = &at;
                cancellable(draw_cancel(cancel, 15), mixed_op(m, st)).await;
                if violated() {
                    return;
                }
            }
        });
    }
    ex.run();
    if violated() {
        return;
    }
    // Whatever was abandoned, every shared object still works.
    let mut ex = Exec::new();
    for (m, st) in open {
        ex.spawn(async move {
            for _ in 0..2 {
                mixed_op(&m, &st).await;
            }
        });
    }
    ex.run();
}
