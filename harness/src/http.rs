//! Monitor of the range-request log of the HTTP reader (C17).
use crate::equiv::*;
use crate::gen::*;
use crate::layout::{parse, rtree_levels, Fb, Parsed};
use crate::lib_io::*;
use crate::rep::*;
use fcb_core::static_btree::Operator;
use fcb_core::{FixedStringKey, HttpFcbReader, KeyType};
use rand::{rngs::StdRng, Rng};
use serde_json::{json, Value};
use std::sync::Arc;

const KB: u64 = 1024;
const MB: u64 = 1024 * KB;
/// gap which may be fetched to save a request; the reader uses 256 KiB, twice that is tolerated
const GAP: u64 = 512 * KB;

pub struct Session {
    pub ids: Vec<String>,
    /// log length after opening, after selecting, after the last feature, after calling next() beyond the end
    pub marks: [usize; 4],
    pub log: Vec<Req>,
    pub problem: Option<String>,
}

fn session(m: &MockHttp, sel: &Sel) -> Session {
    let n = || m.log.lock().unwrap().len();
    let mut s = Session { ids: vec![], marks: [0; 4], log: vec![], problem: None };
    let res = guard(|| {
        block_on(async {
            let rd = HttpFcbReader::new(m.buffered()).await.map_err(|e| format!("open: {e}"))?;
            s.marks[0] = n();
            let mut it = match sel {
                Sel::All => rd.select_all().await,
                Sel::Attr(q) => rd.select_attr_query(q).await,
                x => rd.select_query(x.spatial().unwrap()).await,
            }
            .map_err(|e| format!("select: {e}"))?;
            s.marks[1] = n();
            while let Some(f) = it.next().await.map_err(|e| format!("next: {e}"))? {
                s.ids.push(f.feature().id().to_string());
                s.marks[2] = n();
                if s.ids.len() > 200_000 {
                    return Err("endless iteration".into());
                }
            }
            if s.ids.is_empty() {
                s.marks[2] = s.marks[1];
            }
            for _ in 0..3 {
                if it.next().await.map_err(|e| format!("next after the end: {e}"))?.is_some() {
                    return Err("feature after the end".into());
                }
            }
            s.marks[3] = n();
            Ok::<(), String>(())
        })
    });
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => s.problem = Some(e),
        Err(p) => s.problem = Some(format!("panic {} {}", p.loc, p.msg)),
    }
    s.log = m.log.lock().unwrap().clone();
    s
}

/// bytes covered by sorted ranges when gaps below `gap` are filled
fn covered(ranges: &[(u64, u64)], gap: u64) -> (u64, u64) {
    let (mut tot, mut runs) = (0, 0);
    let mut cur: Option<(u64, u64)> = None;
    for r in ranges {
        cur = Some(match cur {
            Some(c) if r.0 < c.1.saturating_add(gap) => (c.0, c.1.max(r.1)),
            Some(c) => {
                tot += c.1 - c.0;
                runs += 1;
                *r
            }
            None => {
                *r
            }
        });
    }
    if let Some(c) = cur {
        tot += c.1 - c.0;
        runs += 1;
    }
    (tot, runs)
}

/// index bytes and pages a box query has to look at, level by level, small gaps filled
pub fn rtree_need(b: &[u8], p: &Parsed, q: &Sel, gap: u64) -> (u64, u64) {
    let (x0, y0, x1, y1) = match q {
        Sel::Bbox(a, b, c, d) => (*a, *b, *c, *d),
        Sel::Point(x, y) => (*x, *y, *x, *y),
        _ => return (p.rtree.1 as u64, p.rtree.1 as u64 / 40),
    };
    let f = Fb(b);
    let bf = p.node_size as usize;
    let lv = rtree_levels(p.feats.len(), bf);
    let mut start = vec![0usize; lv.len()];
    for l in (0..lv.len() - 1).rev() {
        start[l] = start[l + 1] + lv[l + 1];
    }
    let (mut tot, mut pages) = (40, 1);
    let mut nodes = vec![0usize];
    for l in (1..lv.len()).rev() {
        let mut kids: Vec<(u64, u64)> = vec![];
        let mut next = vec![];
        for i in nodes {
            let at = p.rtree.0 + 40 * i;
            let g = |k: usize| f.f64(at + 8 * k).unwrap();
            if g(0) <= x1 && g(2) >= x0 && g(1) <= y1 && g(3) >= y0 {
                let first = f.u64(at + 32).unwrap() as usize;
                let end = (first + bf).min(start[l - 1] + lv[l - 1]);
                kids.push((40 * first as u64, 40 * (end as u64 + 1)));
                next.extend(first..end);
            }
        }
        pages += kids.len() as u64;
        tot += covered(&kids, gap).0;
        nodes = next;
    }
    (tot, pages)
}

/// Judges one session; returns what was observed.
fn judge(b: &[u8], p: &Parsed, sel: &Sel, s: &Session, rep: &mut Rep, desc: &str) {
    let len = b.len() as u64;
    let ctx = || {
        let l: Vec<String> = s.log.iter().take(12).map(|r| format!("{}+{}", r.begin, r.end.saturating_sub(r.begin) + 1)).collect();
        format!("{}; requests {:?}{}; file {len}, features from {}; {desc}", sel.show(), l, if s.log.len() > 12 { "..." } else { "" }, p.feats_begin)
    };
    // 1. every request is well-formed and starts inside the file
    for (i, r) in s.log.iter().enumerate() {
        if r.begin > r.end || r.end == u64::MAX || r.raw != format!("bytes={}-{}", r.begin, r.end) {
            return rep.violate("malformed", format!("request {i} is {:?}; {}", r.raw, ctx()));
        }
        if r.begin >= len {
            return rep.violate("outside", format!("request {i} ({}) starts behind the end of the file; {}", r.raw, ctx()));
        }
    }
    rep.add("requests", s.log.len() as u64);
    if let Some(e) = &s.problem {
        if e.starts_with("panic") {
            return rep.violate("panic", format!("{e}; {}", ctx()));
        }
        rep.inc("not_answerable");
        return;
    }
    // 2. nothing is requested once the last selected feature was delivered
    if s.marks[3] != s.marks[2] {
        return rep.violate("after_last", format!("{} requests after the last of {} features; {}", s.marks[3] - s.marks[2], s.ids.len(), ctx()));
    }
    // 3. what is needed
    let mut sel_ranges: Vec<(u64, u64)> = vec![];
    let by_id: std::collections::HashMap<&str, usize> = p.feats.iter().enumerate().map(|(i, f)| (f.2.as_str(), i)).collect();
    for id in &s.ids {
        let f = &p.feats[by_id[id.as_str()]];
        let st = (p.feats_begin + f.0) as u64;
        sel_ranges.push((st, st + f.1 as u64));
    }
    sel_ranges.sort();
    let max_sel = sel_ranges.iter().map(|r| r.1 - r.0).max().unwrap_or(0);
    let feat_reqs: Vec<&Req> = s.log[s.marks[1]..].iter().collect();
    let sel_reqs: Vec<&Req> = s.log[..s.marks[1]].iter().collect();
    // while iterating, requests start within a selected feature
    for r in &feat_reqs {
        let k = sel_ranges.partition_point(|x| x.0 <= r.begin);
        if k == 0 || r.begin >= sel_ranges[k - 1].1 {
            return rep.violate("unselected", format!("{} does not start within a selected feature; {}", r.raw, ctx()));
        }
    }
    // requests for the index start in front of the features
    for r in &sel_reqs {
        if r.begin >= p.feats_begin as u64 && p.feats_begin as u64 != 12 {
            return rep.violate("index_outside", format!("{} while selecting; {}", r.raw, ctx()));
        }
    }
    let got = |v: &[&Req]| v.iter().map(|r| r.got as u64).sum::<u64>();
    let header = p.rtree.0 as u64;
    let (idx, feats) = (got(&sel_reqs), got(&feat_reqs));
    let idx_need = match sel {
        Sel::All => 0,
        // a page is read with up to 1 MiB of read-ahead on each level, entries of equal keys with up to 4 MiB
        Sel::Attr(q) => {
            let names: Vec<&str> = q.iter().map(|c| c.0.as_str()).collect();
            let l: u64 = p.attrs.iter().filter(|a| p.columns.iter().any(|c| c.0 == a.col && names.contains(&c.1.as_str()))).map(|a| a.len as u64).sum();
            2 * l + 6 * MB * q.len() as u64
        }
        x => rtree_need(b, p, x, GAP).0,
    };
    if idx > header + idx_need + 32 * KB {
        return rep.violate(format!("index_bytes:{}", sel.name()), format!("{idx} bytes were fetched to open and select, the header has {header}, {idx_need} are needed of the index; {}", ctx()));
    }
    let (cov, runs) = match sel {
        // selected features are read one by one with up to 1 MiB of read-ahead each
        Sel::Attr(_) => {
            let r: Vec<(u64, u64)> = sel_ranges.iter().map(|r| (r.0, r.1 + MB)).collect();
            covered(&r, 0)
        }
        _ => covered(&sel_ranges, GAP),
    };
    let allow = match sel {
        Sel::Attr(_) => cov + feat_reqs.len() as u64 * max_sel + MB,
        _ => cov + feat_reqs.len() as u64 * max_sel + 64 * KB,
    };
    if feats > allow {
        return rep.violate(format!("feature_bytes:{}", sel.name()), format!("{feats} bytes were fetched for {} features which need {cov}, allowed {allow}; {}", s.ids.len(), ctx()));
    }
    let max_reqs = 2 * s.ids.len() as u64;
    if feat_reqs.len() as u64 > max_reqs {
        return rep.violate(format!("feature_requests:{}", sel.name()), format!("{} requests for {} features in {runs} runs; {}", feat_reqs.len(), s.ids.len(), ctx()));
    }
    rep.add("bytes_fetched", idx + feats);
    rep.add("bytes_of_files", len);
    rep.inc(&format!("sessions_{}", sel.name()));
    if idx + feats < len / 2 {
        rep.inc("sessions_below_half_of_the_file");
    }
    rep.eval((!s.ids.is_empty() && s.log.len() > 1).then(|| h(&(len, sel.show(), s.log.iter().map(|r| (r.begin, r.end)).collect::<Vec<_>>()))));
}

pub struct Wide {
    pub bytes: Arc<Vec<u8>>,
    pub p: Parsed,
    pub n: usize,
    pub side: i64,
}

/// features on a grid, each about 300 bytes and the padding
pub fn wide(r: &mut StdRng, side: i64, pad: usize) -> Result<Wide, String> {
    let n = (side * side) as usize;
    let cols = vec![("k".to_string(), K::UInt), ("c".to_string(), K::Int), ("s".to_string(), K::Str), ("pad".to_string(), K::Str)];
    let header_json = json!({"type":"CityJSON","version":"2.0","CityObjects":{},"vertices":[],"transform":{"scale":[1.0,1.0,1.0],"translate":[0.0,0.0,0.0]}});
    let pad = "x".repeat(pad);
    let mut order: Vec<usize> = (0..n).collect();
    rand::seq::SliceRandom::shuffle(&mut order[..], r);
    let feats_json: Vec<Value> = (0..n)
        .map(|i| {
            let id = format!("f{i}");
            let (x, y) = (i as i64 % side * 10, i as i64 / side * 10);
            json!({"type":"CityJSONFeature","id":id,"CityObjects":{id.clone():{"type":"Building","attributes":{"k": order[i], "c": (i % 5) as i64, "s": format!("name-{:07}", order[n - 1 - i]), "pad": pad}}},
                "vertices":[[x, y, 0], [x + 9, y + 9, 3]]})
        })
        .collect();
    let d = Dataset {
        header: parse_header(&header_json),
        header_json,
        feats: feats_json.iter().map(parse_feature).collect(),
        feats_json,
        schema: schema_of(&cols, r),
        sem_schema: None,
        opts: fcb_core::header_writer::HeaderWriterOptions {
            write_index: true,
            feature_count: n as u64,
            index_node_size: 16,
            attribute_indices: Some(vec![("k".into(), None), ("c".into(), None), ("s".into(), Some(16))]),
            geographical_extent: None,
        },
    };
    let bytes = Arc::new(write_ds(&d)?);
    let p = parse(&bytes)?;
    Ok(Wide { bytes, p, n, side })
}

pub fn c17(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "small", ctx.n(15_000, 300_000), |r, _, rep| {
        let ds = match rich_any(r, 60, 6) {
            Ok(d) => d,
            Err(e) => return rep.violate("write", e),
        };
        let p = match parse(&ds.bytes) {
            Ok(p) => p,
            Err(e) => return rep.violate("parse", e),
        };
        for sel in &ds.sels {
            let s = session(&MockHttp::new(ds.bytes.clone()), sel);
            judge(&ds.bytes, &p, sel, &s, rep, &ds.desc);
        }
        rep.sample(|| json!({"dataset": ds.desc, "bytes": ds.bytes.len()}));
    });
    let side = if ctx.thorough { 230 } else { 150 };
    let mut wr = ctx.rng("wide_data", 0);
    let w = match guard(|| wide(&mut wr, side, 700)) {
        Ok(Ok(w)) => w,
        o => {
            rep.stage = "wide".into();
            return rep.violate("write", format!("{:?}", o.err().map(|p| p.msg)));
        }
    };
    rep.max("max_file_bytes", w.bytes.len() as u64);
    rep.max("max_spatial_index_bytes", w.p.rtree.1 as u64);
    run_cases(ctx, rep, "wide", ctx.n(240, 20_000), |r, c, rep| {
        let m = (w.side * 10) as f64;
        let (x, y) = (r.gen_range(-5.0..m), r.gen_range(-5.0..m));
        let sel = if c == 0 {
            Sel::All
        } else {
            match r.gen_range(0..10) {
                0 | 1 => Sel::Point(x, y),
                2 => Sel::Bbox(x, y, x + 30.0, y + 20.0),
                3 => Sel::Bbox(x, -5.0, x + 1.0, m), // a thin line through many pages
                4 => Sel::Bbox(-5.0, y, m, y + 1.0),
                5 => Sel::Nearest(x, y),
                6 => Sel::Attr(vec![("k".into(), Operator::Eq, KeyType::UInt32(r.gen_range(0..w.n as u32)))]),
                7 => Sel::Attr(vec![("s".into(), Operator::Eq, KeyType::StringKey50(FixedStringKey::from_str(&format!("name-{:07}", r.gen_range(0..w.n)))))]),
                8 => {
                    let a = r.gen_range(0..w.n as u32);
                    Sel::Attr(vec![("k".into(), Operator::Ge, KeyType::UInt32(a)), ("k".into(), Operator::Lt, KeyType::UInt32(a + 4))])
                }
                _ => Sel::Attr(vec![("c".into(), Operator::Eq, KeyType::Int32(r.gen_range(0..5))), ("k".into(), Operator::Lt, KeyType::UInt32(r.gen_range(0..20)))]),
            }
        };
        let s = session(&MockHttp::new(w.bytes.clone()), &sel);
        if s.problem.is_some() {
            return rep.violate("error", format!("{:?}: {}", s.problem, sel.show()));
        }
        rep.max("max_requests", s.log.len() as u64);
        judge(&w.bytes, &w.p, &sel, &s, rep, "wide file");
        let t: u64 = s.log.iter().map(|r| r.got as u64).sum();
        if !matches!(sel, Sel::All) {
            rep.max(&format!("max_bytes_{}", sel.name()), t);
        }
    });
}
