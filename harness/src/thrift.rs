//! What reading costs: memory held while iterating and after it (C20), bytes taken from the input by the seekable and
//! the sequential reader (C21). Files are much larger than the allowances, so that "everything" stands out.
use crate::equiv::*;
use crate::hostile::{held, metered};
use crate::http::{rtree_need, wide, Wide};
use crate::layout::{parse, Parsed};
use crate::lib_io::*;
use crate::rep::*;
use fcb_core::static_btree::Operator;
use fcb_core::{FcbReader, FixedStringKey, HttpFcbReader, KeyType};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::json;
use std::sync::Arc;

const KB: u64 = 1024;
const MB: u64 = 1024 * KB;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Way {
    Seek,
    Seq,
    Http,
}
impl Way {
    fn name(self) -> &'static str {
        match self {
            Way::Seek => "seek",
            Way::Seq => "seq",
            Way::Http => "http",
        }
    }
}
#[derive(Default, Debug, Clone)]
struct Cost {
    feats: u64,
    bytes: u64,
    reads: u64,
    requests: u64,
}

/// Opens, selects and reads everything which was selected. Each feature is visited, decoded if wanted, and dropped.
fn read(way: Way, data: &Arc<Vec<u8>>, sel: &Sel, decode: bool, visit: &mut dyn FnMut(&str)) -> Result<Cost, String> {
    let mut cost = Cost::default();
    let res = guard(|| -> Result<(), String> {
        let src = FaultReader::new(data.clone());
        let st = src.stats.clone();
        macro_rules! drain {
            ($it:expr) => {{
                let mut it = $it.map_err(|e| format!("select: {e}"))?;
                while let Some(f) = it.next().map_err(|e| format!("next: {e}"))? {
                    visit(f.cur_feature().id());
                    if decode {
                        f.cur_cj_feature().map_err(|e| format!("decode: {e}"))?;
                    }
                    cost.feats += 1;
                }
                for _ in 0..2 {
                    if it.next().map_err(|e| format!("next after the end: {e}"))?.is_some() {
                        return Err("feature after the end".into());
                    }
                }
            }};
        }
        match way {
            Way::Seek => {
                let rd = FcbReader::open(src).map_err(|e| format!("open: {e}"))?;
                match sel {
                    Sel::All => drain!(rd.select_all()),
                    Sel::Attr(q) => drain!(rd.select_attr_query(q.clone())),
                    s => drain!(rd.select_query(s.spatial().unwrap())),
                }
            }
            Way::Seq => {
                let rd = FcbReader::open(src).map_err(|e| format!("open: {e}"))?;
                match sel {
                    Sel::All => drain!(rd.select_all_seq()),
                    Sel::Attr(q) => drain!(rd.select_attr_query_seq(q.clone())),
                    s => drain!(rd.select_query_seq(s.spatial().unwrap())),
                }
            }
            Way::Http => {
                let m = MockHttp::new(data.clone());
                let r = block_on(async {
                    let rd = HttpFcbReader::new(m.buffered()).await.map_err(|e| format!("open: {e}"))?;
                    let mut it = match sel {
                        Sel::All => rd.select_all().await,
                        Sel::Attr(q) => rd.select_attr_query(q).await,
                        s => rd.select_query(s.spatial().unwrap()).await,
                    }
                    .map_err(|e| format!("select: {e}"))?;
                    while let Some(f) = it.next().await.map_err(|e| format!("next: {e}"))? {
                        visit(f.feature().id());
                        if decode {
                            f.cj_feature().map_err(|e| format!("decode: {e}"))?;
                        }
                        cost.feats += 1;
                    }
                    Ok::<(), String>(())
                });
                cost.requests = m.log.lock().unwrap().len() as u64;
                r?
            }
        }
        let st = st.lock().unwrap();
        (cost.bytes, cost.reads) = (st.bytes, st.reads);
        Ok(())
    });
    match res {
        Ok(Ok(())) => Ok(cost),
        Ok(Err(e)) => Err(e),
        Err(p) => Err(format!("panic {} {}", p.loc, p.msg)),
    }
}

/// positions and sizes of what was selected, in the order of the file
fn chosen(p: &Parsed, ids: &[String]) -> Vec<(u64, u64)> {
    let by_id: std::collections::HashMap<&str, usize> = p.feats.iter().enumerate().map(|(i, f)| (f.2.as_str(), i)).collect();
    let mut v: Vec<(u64, u64)> = ids.iter().map(|id| &p.feats[by_id[id.as_str()]]).map(|f| ((p.feats_begin + f.0) as u64, f.1 as u64)).collect();
    v.sort();
    v
}

fn queried<'a>(p: &'a Parsed, sel: &Sel) -> Vec<&'a crate::layout::AttrIdx> {
    let Sel::Attr(q) = sel else { return vec![] };
    p.attrs.iter().filter(|a| p.columns.iter().any(|c| c.0 == a.col && q.iter().any(|x| x.0 == c.1))).collect()
}
/// size of a key and the position next to it
fn entry_size(p: &Parsed, a: &crate::layout::AttrIdx) -> u64 {
    8 + match p.columns.iter().find(|c| c.0 == a.col).map(|c| c.2) {
        Some(0..=2) => 1,
        Some(3 | 4) => 2,
        Some(5 | 6 | 9) => 4,
        Some(7 | 8 | 10) => 8,
        Some(11) => 50,
        _ => 12,
    }
}

/// Memory: `p` and `b` describe the file, `ids` what was selected.
fn judge_memory(way: Way, b: &Arc<Vec<u8>>, p: &Parsed, sel: &Sel, decode: bool, rep: &mut Rep, desc: &str) {
    let mut ids: Vec<String> = vec![];
    match read(way, b, sel, false, &mut |id| ids.push(id.into())) {
        Ok(_) => {}
        Err(e) if e.starts_with("panic") => return rep.violate("panic", format!("{way:?} {}: {e}; {desc}", sel.show())),
        Err(_) => return rep.inc("not_answerable"),
    }
    let n = ids.len() as u64;
    let got = chosen(p, &ids);
    drop(ids);
    let largest = got.iter().map(|g| g.1).max().unwrap_or(0);
    // three times: what is left behind each time is leaked
    let mut left = [0isize; 3];
    let mut peak = 0;
    let mut cost = Cost::default();
    for l in &mut left {
        let before = held();
        let mut seen = 0u64;
        let (r, top) = metered(|| read(way, b, sel, decode, &mut |_| seen += 1));
        match r {
            Ok(c) => cost = c,
            Err(e) => return rep.violate("unstable", format!("{way:?} {} answered at first, then: {e}; {desc}", sel.show())),
        }
        *l = held() - before;
        peak = peak.max(top as u64);
    }
    if left[1] > 0 && left[2] > 0 {
        return rep.violate(format!("leak:{}", way.name()), format!("{left:?} bytes are not given back after three runs of {}; {n} features; {desc}", sel.show()));
    }
    let header = p.rtree.0 as u64;
    let page = 48 * p.node_size as u64 + queried(p, sel).iter().map(|a| a.bf as u64 * (entry_size(p, a) + 16)).max().unwrap_or(0);
    let index: u64 = queried(p, sel).iter().map(|a| a.len as u64).sum();
    let rtree = if sel.spatial().is_some() { p.rtree.1 as u64 } else { 0 };
    let allow = 128 * KB + 4 * header + 6 * largest + if decode { 200 * largest } else { 0 } + 64 * n + 16 * page
        + match way {
            // entries of one key are read as a whole, and looked up in another list
            Way::Seek => rtree / 4 + 2 * index,
            Way::Seq => 2 * rtree + 8 * index,
            Way::Http => rtree * 4 + 8 * index + 6 * MB + 256 * cost.requests,
        };
    rep.max(&format!("max_peak_{}_{}_{}", way.name(), sel.name(), b.len() / 1000), peak);
    rep.max("max_permille_of_allowance", peak * 1000 / allow);
    if peak > allow {
        return rep.violate(
            format!("memory:{}:{}", way.name(), sel.name()),
            format!("{peak} bytes were held at once, {allow} allowed: {n} features, the largest of {largest} bytes, header {header}, indexes {}; file {}; {}; {desc}", rtree + index, b.len(), sel.show()),
        );
    }
    if allow < b.len() as u64 / 2 {
        rep.inc("sessions_allowed_less_than_half_of_the_file");
    }
    rep.inc(&format!("sessions_{}_{}", way.name(), sel.name()));
    rep.eval((n > 1).then(|| h(&(way.name(), b.len(), sel.show(), decode, n))));
}

/// What has to be read of the indexes: bytes and pages.
fn index_need(b: &[u8], p: &Parsed, sel: &Sel) -> (u64, u64) {
    match sel {
        Sel::All => (0, 0),
        Sel::Attr(q) => {
            let (mut bytes, mut pages) = (0, 0);
            for (f, op, _) in q {
                for a in p.attrs.iter().filter(|a| p.columns.iter().any(|c| c.0 == a.col && c.1 == *f)) {
                    let e = entry_size(p, a);
                    let node = a.bf.max(2) as u64 - 1;
                    let levels = 1 + (2..64u32).find(|l| ((node + 1) as f64).powi(*l as i32) >= a.unique as f64).unwrap_or(64) as u64;
                    match op {
                        // one way down and the entries of one key
                        Operator::Eq => {
                            let entries: u64 = if a.unique == p.feats.len() { 0 } else { a.len as u64 - a.unique as u64 * e };
                            bytes += 2 * levels * node * e + entries;
                            pages += 2 * levels;
                        }
                        _ => {
                            bytes += a.len as u64;
                            pages += a.unique as u64 / node + 4 * levels;
                        }
                    }
                }
            }
            (bytes, pages)
        }
        x => rtree_need(b, p, x, 0),
    }
}

fn judge_bytes(b: &Arc<Vec<u8>>, p: &Parsed, sel: &Sel, rep: &mut Rep, desc: &str) {
    let mut ids: Vec<String> = vec![];
    let seek = match read(Way::Seek, b, sel, false, &mut |id| ids.push(id.into())) {
        Ok(c) => c,
        Err(e) if e.starts_with("panic") => return rep.violate("panic", format!("{}: {e}; {desc}", sel.show())),
        Err(_) => return rep.inc("not_answerable"),
    };
    let got = chosen(p, &ids);
    let n = got.len() as u64;
    let header = p.rtree.0 as u64;
    let feats: u64 = got.iter().map(|g| g.1).sum();
    let runs = 1 + got.windows(2).filter(|w| w[0].0 + w[0].1 != w[1].0).count() as u64;
    let (index, pages) = index_need(b, p, sel);
    // a buffer of a few KiB around each place which is visited is nothing to complain about
    let allow = header + 2 * index + feats + 8 * KB * (runs + pages) + 16 * KB;
    rep.add("bytes_read", seek.bytes);
    rep.add("bytes_of_files", b.len() as u64);
    if seek.bytes > allow {
        return rep.violate(
            format!("seek_bytes:{}", sel.name()),
            format!("{} bytes were read, {allow} allowed: header {header}, index {index} in {pages} pages, {n} features of {feats} bytes in {runs} runs; file {}; {}; {desc}", seek.bytes, b.len(), sel.show()),
        );
    }
    if matches!(sel, Sel::All) && seek.bytes < (b.len() - p.rtree.1 - p.attrs.iter().map(|a| a.len).sum::<usize>()) as u64 {
        return rep.violate("unread", format!("only {} bytes of {} were read; {desc}", seek.bytes, b.len()));
    }
    rep.max("max_permille_of_allowance", seek.bytes * 1000 / allow);
    if allow < b.len() as u64 / 2 {
        rep.inc("sessions_allowed_less_than_half_of_the_file");
    }
    rep.inc(&format!("sessions_seek_{}", sel.name()));
    rep.eval((n > 0 && n < p.feats.len() as u64).then(|| h(&("seek", b.len(), sel.show()))));
    // the sequential reader goes no further than the last feature it delivers
    let mut n_seq = 0u64;
    match read(Way::Seq, b, sel, false, &mut |_| n_seq += 1) {
        Ok(c) => {
            let end = got.last().map_or(p.feats_begin as u64 + 4, |g| g.0 + g.1);
            if n_seq != n {
                return rep.inc("readers_disagree"); // for C08
            }
            if c.bytes > end + 16 * KB {
                return rep.violate(format!("seq_bytes:{}", sel.name()), format!("{} bytes were read, the last of {n} features ends at {end}; file {}; {}; {desc}", c.bytes, b.len(), sel.show()));
            }
            rep.inc(&format!("sessions_seq_{}", sel.name()));
            rep.eval((n > 0 && n < p.feats.len() as u64).then(|| h(&("seq", b.len(), sel.show()))));
        }
        Err(e) if e.starts_with("panic") => rep.violate("panic", format!("{}: {e}; {desc}", sel.show())),
        Err(_) => rep.inc("not_answerable"),
    }
}

fn pick(r: &mut StdRng, w: &Wide) -> Sel {
    let m = (w.side * 10) as f64;
    let (x, y) = (r.gen_range(-5.0..m), r.gen_range(-5.0..m));
    let key = |r: &mut StdRng| KeyType::UInt32(r.gen_range(0..w.n as u32));
    let name = |r: &mut StdRng| KeyType::StringKey50(FixedStringKey::from_str(&format!("name-{:07}", r.gen_range(0..w.n))));
    let op = |r: &mut StdRng| *[Operator::Eq, Operator::Ne, Operator::Lt, Operator::Le, Operator::Gt, Operator::Ge].choose(r).unwrap();
    match r.gen_range(0..12) {
        0 => Sel::All,
        1 | 2 => Sel::Point(x, y),
        3 => Sel::Bbox(x, y, x + r.gen_range(0.0..m), y + r.gen_range(0.0..m)),
        4 => Sel::Bbox(x, -5.0, x + 1.0, m),
        5 => Sel::Bbox(x, y, x + 30.0, y + 20.0),
        6 => Sel::Nearest(x, y),
        7 => Sel::Attr(vec![("k".into(), Operator::Eq, key(r))]),
        8 => Sel::Attr(vec![("s".into(), Operator::Eq, name(r))]),
        9 => Sel::Attr(vec![("k".into(), op(r), key(r))]),
        10 => Sel::Attr(vec![("s".into(), op(r), name(r))]),
        _ => Sel::Attr(vec![("c".into(), Operator::Eq, KeyType::Int32(r.gen_range(0..6)))]),
    }
}

/// A file of many features, one of large ones, and one of a few very large ones.
fn files(ctx: &Ctx, rep: &mut Rep) -> Option<Vec<Wide>> {
    let sizes: [(i64, usize); 3] = if ctx.thorough { [(230, 700), (40, 20_000), (9, 1_000_000)] } else { [(110, 700), (20, 40_000), (5, 1_000_000)] };
    let mut v = vec![];
    for (i, (side, pad)) in sizes.into_iter().enumerate() {
        let mut r = ctx.rng("files", i as u64);
        match guard(|| wide(&mut r, side, pad)) {
            Ok(Ok(w)) => v.push(w),
            o => {
                rep.stage = "files".into();
                rep.violate("write", format!("{:?}", o.err().map(|p| p.msg)));
                return None;
            }
        }
    }
    rep.max("max_file_bytes", v.iter().map(|w| w.bytes.len()).max().unwrap() as u64);
    Some(v)
}

pub fn c20(ctx: &Ctx, rep: &mut Rep) {
    let Some(files) = files(ctx, rep) else { return };
    run_cases(ctx, rep, "large", ctx.n(450, 8000), |r, c, rep| {
        let w = &files[c as usize % files.len()];
        let sel = pick(r, w);
        let decode = r.gen_bool(0.3);
        for way in [Way::Seek, Way::Seq, Way::Http] {
            judge_memory(way, &w.bytes, &w.p, &sel, decode, rep, "large file");
        }
    });
    // nothing is left behind by any kind of dataset and selection
    run_cases(ctx, rep, "small", ctx.n(3000, 40_000), |r, _, rep| {
        let ds = match rich_any(r, 40, 4) {
            Ok(d) => d,
            Err(e) => return rep.violate("write", e),
        };
        let p = match parse(&ds.bytes) {
            Ok(p) => p,
            Err(e) => return rep.violate("parse", e),
        };
        for sel in &ds.sels {
            for way in [Way::Seek, Way::Seq, Way::Http] {
                judge_memory(way, &ds.bytes, &p, sel, r.gen_bool(0.5), rep, &ds.desc);
            }
        }
        rep.sample(|| json!({"dataset": ds.desc, "bytes": ds.bytes.len()}));
    });
}

pub fn c21(ctx: &Ctx, rep: &mut Rep) {
    let Some(files) = files(ctx, rep) else { return };
    run_cases(ctx, rep, "large", ctx.n(3000, 40_000), |r, c, rep| {
        let w = &files[c as usize % files.len()];
        let sel = pick(r, w);
        judge_bytes(&w.bytes, &w.p, &sel, rep, "large file");
    });
    run_cases(ctx, rep, "small", ctx.n(15_000, 150_000), |r, _, rep| {
        let ds = match rich_any(r, 60, 6) {
            Ok(d) => d,
            Err(e) => return rep.violate("write", e),
        };
        let p = match parse(&ds.bytes) {
            Ok(p) => p,
            Err(e) => return rep.violate("parse", e),
        };
        for sel in &ds.sels {
            judge_bytes(&ds.bytes, &p, sel, rep, &ds.desc);
        }
        rep.sample(|| json!({"dataset": ds.desc, "bytes": ds.bytes.len()}));
    });
}
