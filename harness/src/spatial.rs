//! Spatial query monitors: C04 (bbox/point), C05 (nearest), C16 (the packed R-tree on its own).
use crate::gen::*;
use crate::lib_io::*;
use crate::rep::*;
use fcb_core::header_writer::HeaderWriterOptions;
use fcb_core::packed_rtree::{calc_extent, hilbert_sort, NodeItem, PackedRTree, Query};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Value};
use std::io::{Cursor, Seek, SeekFrom};
use std::sync::Arc;

pub fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return f64::from_bits(1);
    }
    let b = x.to_bits();
    f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}
pub fn next_down(x: f64) -> f64 {
    -next_up(-x)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Bx {
    pub x0: f64,
    pub y0: f64,
    pub x1: f64,
    pub y1: f64,
}
impl Bx {
    pub fn hits(&self, q: &Bx) -> bool {
        self.x0 <= q.x1 && self.x1 >= q.x0 && self.y0 <= q.y1 && self.y1 >= q.y0
    }
    pub fn cdist(&self, x: f64, y: f64) -> f64 {
        let dx = x - (self.x0 + self.x1) / 2.0;
        let dy = y - (self.y0 + self.y1) / 2.0;
        dx * dx + dy * dy
    }
}

/// integer coordinates of the features of one layout
fn layout(r: &mut StdRng, n: usize) -> (&'static str, Vec<Vec<[i64; 2]>>) {
    let kind = *["uniform", "cluster", "grid", "line", "same", "big", "wide", "vert"].choose(r).unwrap();
    let pt = |r: &mut StdRng, i: usize, centres: &[[i64; 2]]| -> Vec<[i64; 2]> {
        let k = r.gen_range(1..4);
        match kind {
            "uniform" => {
                let c = [r.gen_range(-100_000..100_000), r.gen_range(-100_000..100_000)];
                (0..k).map(|_| [c[0] + r.gen_range(-500..500), c[1] + r.gen_range(-500..500)]).collect()
            }
            "cluster" => {
                let c = centres.choose(r).unwrap();
                (0..k).map(|_| [c[0] + r.gen_range(-50..50), c[1] + r.gen_range(-50..50)]).collect()
            }
            "grid" => {
                let w = 10;
                let (gx, gy) = ((i as i64 % w) * 10, (i as i64 / w) * 10);
                vec![[gx, gy], [gx + 10, gy + 10]]
            }
            "line" => vec![[7, i as i64 * 3], [7, i as i64 * 3 + 2]],
            "same" => vec![[5, 5], [9, 12]],
            "big" => (0..2).map(|_| [r.gen_range(-100_000..100_000), r.gen_range(-100_000..100_000)]).collect(),
            "wide" => (0..k).map(|_| [*[i32::MIN as i64, i32::MAX as i64, 0, 1, -1].choose(r).unwrap(), r.gen_range(i32::MIN as i64..=i32::MAX as i64)]).collect(),
            _ => vec![[r.gen_range(-1000..1000), 0]],
        }
    };
    let centres: Vec<[i64; 2]> = (0..4).map(|_| [r.gen_range(-100_000..100_000), r.gen_range(-100_000..100_000)]).collect();
    (kind, (0..n).map(|i| pt(r, i, &centres)).collect())
}

pub struct SpatialDs {
    pub bytes: Arc<Vec<u8>>,
    pub boxes: Vec<Option<Bx>>,
    pub kind: &'static str,
    pub n: usize,
    pub node_size: u16,
}
impl SpatialDs {
    pub fn id(i: usize) -> String {
        format!("f{i}")
    }
    pub fn all(&self) -> Option<Bx> {
        let mut b: Option<Bx> = None;
        for x in self.boxes.iter().flatten() {
            b = Some(match b {
                None => *x,
                Some(c) => Bx { x0: c.x0.min(x.x0), y0: c.y0.min(x.y0), x1: c.x1.max(x.x1), y1: c.y1.max(x.y1) },
            });
        }
        b
    }
}

pub fn pick_n(r: &mut StdRng, thorough: bool) -> usize {
    match r.gen_range(0..12) {
        0 => 1,
        1 => *[2usize, 3, 15, 16, 17, 18, 31, 32, 33].choose(r).unwrap(),
        2 => *[255usize, 256, 257, 258, 271, 272, 273, 289].choose(r).unwrap(),
        3 if thorough && r.gen_bool(0.2) => *[4095usize, 4096, 4097, 4112, 4113].choose(r).unwrap(),
        4..=7 => r.gen_range(1..60),
        _ => r.gen_range(17..400),
    }
}

/// a dataset of `n` light features, its bytes and the model's boxes
pub fn spatial_ds(r: &mut StdRng, n: usize) -> Result<SpatialDs, String> {
    // the index of this library's writer, or one of another node size
    let ns: Option<u16> = r.gen_bool(0.3).then(|| *crate::layout::NODE_SIZES.choose(r).unwrap());
    let (kind, pts) = layout(r, n);
    let sc = |r: &mut StdRng| *[0.001, 0.01, 1.0, 0.5, 0.1, 3.7e-5].choose(r).unwrap();
    let mut s = [sc(r), sc(r)];
    if r.gen_bool(0.1) {
        s[r.gen_range(0..2)] *= -1.0;
    }
    let t = *[[0.0, 0.0], [84000.125, 446000.3], [-1e6, 1e7], [0.1, 0.2]].choose(r).unwrap();
    let header_json = json!({"type":"CityJSON","version":"2.0","CityObjects":{},"vertices":[],
        "transform":{"scale":[s[0],s[1],0.001],"translate":[t[0],t[1],0.0]}});
    let mut boxes = Vec::new();
    let mut feats_json: Vec<Value> = Vec::new();
    for (i, p) in pts.iter().enumerate() {
        let none = r.gen_bool(0.02);
        let p: Vec<[i64; 2]> = if none { vec![] } else { p.clone() };
        let id = SpatialDs::id(i);
        let mut o = json!({"type":"Building"});
        if !p.is_empty() && r.gen_bool(0.5) {
            o["geometry"] = json!([{"type":"MultiPoint","lod":"1","boundaries":[0]}]);
        }
        feats_json.push(json!({"type":"CityJSONFeature","id":id,"CityObjects":{id.clone():o},
            "vertices": p.iter().map(|v| json!([v[0],v[1],r.gen_range(-5..5)])).collect::<Vec<_>>()}));
        let mut b: Option<Bx> = None;
        for v in &p {
            let (x, y) = (v[0] as f64 * s[0] + t[0], v[1] as f64 * s[1] + t[1]);
            b = Some(match b {
                None => Bx { x0: x, y0: y, x1: x, y1: y },
                Some(c) => Bx { x0: c.x0.min(x), y0: c.y0.min(y), x1: c.x1.max(x), y1: c.y1.max(y) },
            });
        }
        boxes.push(b);
    }
    let d = Dataset {
        header: parse_header(&header_json),
        header_json,
        feats: feats_json.iter().map(parse_feature).collect(),
        feats_json,
        schema: Default::default(),
        sem_schema: None,
        opts: HeaderWriterOptions { write_index: ns.is_none(), feature_count: n as u64, index_node_size: *[16u16, 0, 1, 5, 300].choose(r).unwrap(), attribute_indices: None, geographical_extent: None },
    };
    let mut bytes = write_ds(&d)?;
    if let Some(k) = ns {
        bytes = crate::layout::renode(&bytes, k, s, t)?;
    }
    Ok(SpatialDs { bytes: Arc::new(bytes), boxes, kind, n, node_size: ns.unwrap_or(16) })
}

fn query_box(r: &mut StdRng, d: &SpatialDs) -> (&'static str, Bx) {
    let all = d.all().unwrap_or(Bx { x0: 0.0, y0: 0.0, x1: 1.0, y1: 1.0 });
    let some: Vec<&Bx> = d.boxes.iter().flatten().collect();
    let b = some.choose(r).map(|b| **b).unwrap_or(all);
    let (w, hh) = ((all.x1 - all.x0).max(1e-3), (all.y1 - all.y0).max(1e-3));
    match r.gen_range(0..10) {
        0 => ("everything", Bx { x0: -1e300, y0: -1e300, x1: 1e300, y1: 1e300 }),
        1 => ("extent", all),
        2 => ("own_box", b),
        3 => ("touch_left", Bx { x0: b.x0 - w, y0: b.y0, x1: b.x0, y1: b.y1 }),
        4 => ("miss_left", Bx { x0: b.x0 - w, y0: b.y0, x1: next_down(b.x0), y1: b.y1 }),
        5 => ("touch_top", Bx { x0: b.x0, y0: b.y1, x1: b.x1, y1: b.y1 + hh }),
        6 => ("miss_right", Bx { x0: next_up(b.x1), y0: b.y0, x1: b.x1 + w, y1: b.y1 }),
        7 => ("corner", Bx { x0: b.x1, y0: b.y1, x1: b.x1, y1: b.y1 }),
        _ => {
            let f = *[0.01, 0.1, 0.3, 0.7].choose(r).unwrap();
            let x = all.x0 - w * 0.1 + r.gen::<f64>() * w;
            let y = all.y0 - hh * 0.1 + r.gen::<f64>() * hh;
            ("random", Bx { x0: x, y0: y, x1: x + w * f, y1: y + hh * f })
        }
    }
}
fn query_point(r: &mut StdRng, d: &SpatialDs) -> (&'static str, f64, f64) {
    let (k, b) = query_box(r, d);
    let fin = |x: f64| if x.is_finite() { x } else { x.signum() * 1e12 };
    match k {
        "random" => {
            let some: Vec<&Bx> = d.boxes.iter().flatten().collect();
            if let Some(b) = some.choose(r).filter(|_| r.gen_bool(0.7)) {
                let t: f64 = r.gen();
                ("inside", b.x0 + (b.x1 - b.x0) * t, b.y0 + (b.y1 - b.y0) * r.gen::<f64>())
            } else {
                ("random", b.x0, b.y0)
            }
        }
        "miss_left" => ("miss_left", b.x1, b.y0),
        "miss_right" => ("miss_right", b.x0, b.y1),
        "own_box" => ("edge", if r.gen() { b.x0 } else { b.x1 }, if r.gen() { b.y0 } else { b.y1 }),
        k => (k, fin(b.x1), fin(b.y1)),
    }
}

/// ids delivered in the three modes
pub fn three(bytes: &Arc<Vec<u8>>, sel: &Sel) -> [(&'static str, Drained); 3] {
    [
        ("seek", drain_seek(Cursor::new(&bytes[..]), sel)),
        ("seq", drain_seq(&bytes[..], sel)),
        ("http", drain_http(&MockHttp::new(bytes.clone()), sel)),
    ]
}

pub fn c04(ctx: &Ctx, rep: &mut Rep) {
    let th = ctx.thorough;
    run_cases(ctx, rep, "query", ctx.n(24_000, 200_000), |r, c, rep| c04_case(r, c, rep, |r| pick_n(r, th), 10));
    // many features: four and five levels of the index
    run_cases(ctx, rep, "many", ctx.n(72, 800), |r, c, rep| c04_case(r, c, rep, pick_many, 6));
}
/// sizes around the widths of counters and the capacity of index levels
pub fn pick_many(r: &mut StdRng) -> usize {
    match r.gen_range(0..5) {
        0 => *[4095usize, 4096, 4097, 4112, 4113].choose(r).unwrap(),
        1 => *[32_767usize, 32_769, 65_535, 65_536, 65_537, 70_000].choose(r).unwrap(),
        _ => r.gen_range(1000..20_000),
    }
}
fn c04_case(r: &mut StdRng, c: u64, rep: &mut Rep, pick: impl Fn(&mut StdRng) -> usize, queries: usize) {
        let n = pick(r);
        let d = match spatial_ds(r, n) {
            Ok(d) => d,
            Err(e) => return rep.violate("write", e),
        };
        rep.max("max_features", n as u64);
        rep.inc(&format!("layout_{}", d.kind));
        rep.inc(&format!("node_size_{}", d.node_size));
        for _ in 0..queries {
            let (kind, sel, want): (_, Sel, Vec<usize>) = if r.gen_bool(0.65) {
                let (k, q) = query_box(r, &d);
                (k, Sel::Bbox(q.x0, q.y0, q.x1, q.y1), (0..n).filter(|i| d.boxes[*i].is_some_and(|b| b.hits(&q))).collect())
            } else {
                let (k, x, y) = query_point(r, &d);
                let q = Bx { x0: x, y0: y, x1: x, y1: y };
                (k, Sel::Point(x, y), (0..n).filter(|i| d.boxes[*i].is_some_and(|b| b.hits(&q))).collect())
            };
            let mut want: Vec<String> = want.into_iter().map(SpatialDs::id).collect();
            want.sort();
            for (mode, got) in three(&d.bytes, &sel) {
                if !got.ok() {
                    rep.violate(format!("{mode}:{}:problem", sel.name()), format!("{} n={n} node size {} {}: {}", d.kind, d.node_size, sel.show(), got.problem()));
                    continue;
                }
                let mut ids = got.ids();
                ids.sort();
                if ids != want {
                    let missing: Vec<_> = want.iter().filter(|w| ids.binary_search(w).is_err()).take(5).collect();
                    let extra: Vec<_> = ids.iter().filter(|w| want.binary_search(w).is_err()).take(5).collect();
                    let dup = ids.windows(2).any(|w| w[0] == w[1]);
                    rep.violate(
                        format!("{mode}:{}:wrong_set", sel.name()),
                        format!("{} n={n} node size {} {} ({kind}): missing {missing:?} extra {extra:?} duplicates {dup} want {} got {}", d.kind, d.node_size, sel.show(), want.len(), ids.len()),
                    );
                }
                rep.inc(&format!("queries_{mode}"));
                rep.add("features_delivered", ids.len() as u64);
            }
            rep.inc(&format!("query_{kind}"));
            let nontrivial = !want.is_empty() && want.len() < n || kind.starts_with("miss") || kind.starts_with("touch");
            rep.eval(if nontrivial { Some(h(&(c, sel.show()))) } else { None });
            rep.sample(|| json!({"layout": d.kind, "n": n, "node_size": d.node_size, "query": sel.show(), "matches": want.len()}));
        }
}

pub fn c05(ctx: &Ctx, rep: &mut Rep) {
    let th = ctx.thorough;
    run_cases(ctx, rep, "nearest", ctx.n(36_000, 300_000), |r, c, rep| c05_case(r, c, rep, |r| pick_n(r, th)));
    run_cases(ctx, rep, "many", ctx.n(144, 1200), |r, c, rep| c05_case(r, c, rep, pick_many));
}
fn c05_case(r: &mut StdRng, c: u64, rep: &mut Rep, pick: impl Fn(&mut StdRng) -> usize) {
        let n = pick(r);
        let d = match spatial_ds(r, n) {
            Ok(d) => d,
            Err(e) => return rep.violate("write", e),
        };
        rep.max("max_features", n as u64);
        rep.inc(&format!("layout_{}", d.kind));
        rep.inc(&format!("node_size_{}", d.node_size));
        for _ in 0..12 {
            let (kind, x, y) = match r.gen_range(0..5) {
                0 => match d.boxes.iter().flatten().collect::<Vec<_>>().choose(r) {
                    Some(b) => ("at_centre", (b.x0 + b.x1) / 2.0, (b.y0 + b.y1) / 2.0),
                    None => ("origin", 0.0, 0.0),
                },
                1 => {
                    let b = d.boxes.iter().flatten().collect::<Vec<_>>();
                    match (b.choose(r), b.choose(r)) {
                        (Some(a), Some(b)) => ("between", (a.x0 + b.x1) / 2.0, (a.y0 + b.y1) / 2.0),
                        _ => ("origin", 0.0, 0.0),
                    }
                }
                2 => ("far", r.gen_range(-1e8..1e8), r.gen_range(-1e8..1e8)),
                _ => query_point(r, &d),
            };
            let best = d.boxes.iter().flatten().map(|b| b.cdist(x, y)).fold(f64::INFINITY, f64::min);
            let mut dists = vec![];
            for (mode, got) in three(&d.bytes, &Sel::Nearest(x, y)) {
                if !got.ok() {
                    rep.violate(format!("{mode}:problem"), format!("{} n={n} nearest {x:?},{y:?}: {}", d.kind, got.problem()));
                    continue;
                }
                rep.inc(&format!("queries_{mode}"));
                if got.feats.len() != 1 {
                    rep.violate(format!("{mode}:count"), format!("{} n={n} nearest {x:?},{y:?}: {} features", d.kind, got.feats.len()));
                    continue;
                }
                let id = &got.feats[0].id;
                let Some(i) = id.strip_prefix('f').and_then(|s| s.parse::<usize>().ok()) else {
                    rep.violate(format!("{mode}:unknown"), format!("feature {id:?}"));
                    continue;
                };
                let dist = d.boxes[i].map(|b| b.cdist(x, y)).unwrap_or(f64::INFINITY);
                dists.push(dist);
                if dist > best + 1e-9 * (1.0 + best.abs()) {
                    rep.violate(format!("{mode}:not_nearest"), format!("{} n={n} at {x:?},{y:?}: got {id} at squared distance {dist}, nearest is at {best}", d.kind));
                }
            }
            if dists.windows(2).any(|w| w[0] != w[1] && (w[0] - w[1]).abs() > 1e-9 * (1.0 + w[0].abs())) {
                rep.violate("modes_disagree", format!("{} n={n} at {x:?},{y:?}: {dists:?}", d.kind));
            }
            rep.inc(&format!("query_{kind}"));
            rep.eval(if n > 1 { Some(h(&(c, x.to_bits(), y.to_bits()))) } else { None });
            rep.sample(|| json!({"layout": d.kind, "n": n, "node_size": d.node_size, "point": [x, y], "nearest_sq_distance": best}));
        }
}

fn node(b: &Bx, off: u64) -> NodeItem {
    let mut n = NodeItem::bounds(b.x0, b.y0, b.x1, b.y1);
    n.offset = off;
    n
}

pub fn c16(ctx: &Ctx, rep: &mut Rep) {
    let th = ctx.thorough;
    run_cases(ctx, rep, "tree", ctx.n(180_000, 1_500_000), |r, c, rep| c16_case(r, c, rep, |r| pick_n(r, th), &[2, 3, 4, 5, 8, 16, 17, 64, 1000, 65535]));
    // large trees, also with nodes of thousands of items
    run_cases(ctx, rep, "many", ctx.n(600, 5000), |r, c, rep| c16_case(r, c, rep, pick_many, &[2, 3, 16, 63, 256, 1000, 4095, 4096, 4097, 10_000, 32_767, 32_768, 65_535]));
}
fn c16_case(r: &mut StdRng, c: u64, rep: &mut Rep, pick: impl Fn(&mut StdRng) -> usize, node_sizes: &[u16]) {
        let n = pick(r);
        let (kind, pts) = layout(r, n);
        let sc = *[1.0, 0.001, 0.37].choose(r).unwrap();
        let boxes0: Vec<Bx> = pts
            .iter()
            .map(|p| {
                let mut b = Bx { x0: f64::INFINITY, y0: f64::INFINITY, x1: f64::NEG_INFINITY, y1: f64::NEG_INFINITY };
                for v in p {
                    let (x, y) = (v[0] as f64 * sc, v[1] as f64 * sc);
                    b = Bx { x0: b.x0.min(x), y0: b.y0.min(y), x1: b.x1.max(x), y1: b.y1.max(y) };
                }
                b
            })
            .collect();
        let ns = *node_sizes.choose(r).unwrap();
        let mut nodes: Vec<NodeItem> = boxes0.iter().enumerate().map(|(i, b)| node(b, i as u64)).collect();
        let ext = calc_extent(&nodes);
        let want_ext = boxes0.iter().skip(1).fold(boxes0[0], |c, x| Bx { x0: c.x0.min(x.x0), y0: c.y0.min(x.y0), x1: c.x1.max(x.x1), y1: c.y1.max(x.y1) });
        let as_bx = |n: &NodeItem| Bx { x0: n.min_x, y0: n.min_y, x1: n.max_x, y1: n.max_y };
        if as_bx(&ext) != want_ext {
            rep.violate("calc_extent", format!("{kind} n={n}: {ext:?} want {want_ext:?}"));
        }
        // sorting permutes and changes nothing
        hilbert_sort(&mut nodes, &ext);
        let mut seen = vec![false; n];
        let mut lost = nodes.len() != n;
        for x in &nodes {
            match seen.get_mut(x.offset as usize) {
                Some(s) if !*s && as_bx(x) == boxes0[x.offset as usize] => *s = true,
                _ => lost = true,
            }
        }
        if lost || seen.iter().any(|s| !s) {
            rep.violate("hilbert_sort", format!("{kind} n={n}: not a permutation of its input"));
            return;
        }
        // leaf offsets as in a file: cumulative, strictly increasing
        let mut off = 0u64;
        let mut boxes = vec![];
        let mut offs = vec![];
        for x in nodes.iter_mut() {
            x.offset = off;
            boxes.push(as_bx(x));
            offs.push(off as usize);
            off += r.gen_range(1..5000);
        }
        let tree = match PackedRTree::build(&nodes, &ext, ns) {
            Ok(t) => t,
            Err(e) => return rep.violate("build", format!("{kind} n={n} node size {ns}: {e}")),
        };
        let mut bytes = vec![];
        tree.stream_write(&mut bytes).unwrap();
        let announced = PackedRTree::index_size(n, ns);
        if bytes.len() != announced || tree.size() != announced {
            rep.violate("size", format!("{kind} n={n} node size {ns}: announced {announced} wrote {} size() {}", bytes.len(), tree.size()));
            return;
        }
        if as_bx(&tree.extent()) != want_ext {
            rep.violate("extent", format!("{kind} n={n} node size {ns}"));
        }
        let reloaded = match PackedRTree::from_buf(&bytes[..], n, ns) {
            Ok(t) => t,
            Err(e) => return rep.violate("from_buf", format!("{kind} n={n} node size {ns}: {e}")),
        };
        if as_bx(&reloaded.extent()) != want_ext {
            rep.violate("extent_reloaded", format!("{kind} n={n} node size {ns}: {:?} want {want_ext:?}", reloaded.extent()));
        }
        let mut again = vec![];
        reloaded.stream_write(&mut again).unwrap();
        if again != bytes {
            rep.violate("rewrite", format!("{kind} n={n} node size {ns}: reloaded tree serializes differently"));
        }
        // embedded at a non-zero position, as in a file
        let pre = r.gen_range(0..200usize);
        let attr = r.gen_range(0..300usize);
        let mut file = vec![0xAAu8; pre];
        file.extend(&bytes);
        file.extend(vec![0xBBu8; attr + 100 + off as usize]);
        let file = Arc::new(file);
        let http_tree = block_on(async {
            let m = MockHttp::new(file.clone());
            PackedRTree::from_http(&mut m.buffered(), pre, n, ns).await
        });
        let http_tree = match http_tree {
            Ok(t) => t,
            Err(e) => return rep.violate("from_http", format!("{kind} n={n} node size {ns}: {e}")),
        };
        rep.max("max_items", n as u64);
        rep.inc(&format!("layout_{kind}"));
        rep.inc(&format!("node_size_{ns}"));
        let d = SpatialDs { bytes: Arc::new(vec![]), boxes: boxes.iter().map(|b| Some(*b)).collect(), kind, n, node_size: ns };
        for qi in 0..8 {
            enum Q {
                Set(Query, Vec<usize>),
                Near(f64, f64),
            }
            let (name, q) = match r.gen_range(0..6) {
                0..=2 => {
                    let (_, q) = query_box(r, &d);
                    ("bbox", Q::Set(Query::BBox(q.x0, q.y0, q.x1, q.y1), (0..n).filter(|i| boxes[*i].hits(&q)).collect()))
                }
                3 | 4 => {
                    let (_, x, y) = query_point(r, &d);
                    let q = Bx { x0: x, y0: y, x1: x, y1: y };
                    ("point", Q::Set(Query::PointIntersects(x, y), (0..n).filter(|i| boxes[*i].hits(&q)).collect()))
                }
                _ => {
                    let (_, x, y) = query_point(r, &d);
                    ("nearest", Q::Near(x, y))
                }
            };
            let query = match &q {
                Q::Set(q, _) => *q,
                Q::Near(x, y) => Query::PointNearest(*x, *y),
            };
            let thr = *[0usize, 40, 4000, 256 * 1024].choose(r).unwrap();
            let feature_begin = pre + attr + bytes.len();
            let mut answers: Vec<(&str, Result<Vec<(usize, Option<usize>)>, String>)> = vec![];
            let conv = |v: Vec<fcb_core::packed_rtree::SearchResultItem>| v.into_iter().map(|x| (x.offset, Some(x.index))).collect::<Vec<_>>();
            answers.push(("memory", tree.search(query).map(conv).map_err(|e| e.to_string())));
            answers.push(("reloaded", reloaded.search(query).map(conv).map_err(|e| e.to_string())));
            answers.push(("http_loaded", http_tree.search(query).map(conv).map_err(|e| e.to_string())));
            let mut cur = Cursor::new(&file[..]);
            cur.seek(SeekFrom::Start(pre as u64)).unwrap();
            answers.push(("stream", PackedRTree::stream_search(&mut cur, n, ns, query).map(conv).map_err(|e| e.to_string())));
            if cur.position() != (pre + bytes.len()) as u64 {
                rep.violate("stream_position", format!("{kind} n={n} node size {ns} {name}: reader left at {} instead of the end of the index {}", cur.position(), pre + bytes.len()));
            }
            let m = MockHttp::new(file.clone());
            let hres = block_on(async {
                PackedRTree::http_stream_search(&mut m.buffered(), pre, attr, n, ns, query, thr).await
            });
            answers.push((
                "http",
                hres.map_err(|e| e.to_string()).map(|v| {
                    v.into_iter()
                        .map(|x| {
                            let s = x.range.start().wrapping_sub(feature_begin);
                            // the end of a range, when given, is the start of the next item
                            if let Some(e) = x.range.end() {
                                let i = offs.binary_search(&s).ok();
                                let ok = i.is_some_and(|i| offs.get(i + 1).map(|o| o + feature_begin) == Some(e));
                                if !ok {
                                    return (usize::MAX, None);
                                }
                            }
                            (s, None)
                        })
                        .collect()
                }),
            ));
            for (form, a) in answers {
                let a = match a {
                    Ok(a) => a,
                    Err(e) => {
                        rep.violate(format!("{form}:{name}:error"), format!("{kind} n={n} node size {ns} {query:?}: {e}"));
                        continue;
                    }
                };
                // the reported index designates the item whose offset is reported
                for (o, ix) in &a {
                    if let Some(ix) = ix {
                        if offs.get(*ix) != Some(o) {
                            rep.violate(format!("{form}:{name}:index"), format!("{kind} n={n} node size {ns}: item {ix} reported with offset {o}"));
                        }
                    }
                }
                match &q {
                    Q::Set(_, want) => {
                        let mut got: Vec<usize> = a.iter().map(|x| x.0).collect();
                        let sorted = got.windows(2).all(|w| w[0] < w[1]);
                        got.sort();
                        let want: Vec<usize> = want.iter().map(|i| offs[*i]).collect();
                        if got != want {
                            rep.violate(format!("{form}:{name}:wrong_set"), format!("{kind} n={n} node size {ns} {query:?} threshold {thr}: want {} items got {}", want.len(), got.len()));
                        } else if !sorted {
                            rep.violate(format!("{form}:{name}:order"), format!("{kind} n={n} node size {ns} {query:?}: results not in file order"));
                        }
                    }
                    Q::Near(x, y) => {
                        let best = boxes.iter().map(|b| b.cdist(*x, *y)).fold(f64::INFINITY, f64::min);
                        let ok = a.len() == 1 && offs.binary_search(&a[0].0).is_ok_and(|i| boxes[i].cdist(*x, *y) <= best + 1e-9 * (1.0 + best));
                        if !ok {
                            rep.violate(format!("{form}:{name}:wrong"), format!("{kind} n={n} node size {ns} {query:?}: {a:?}"));
                        }
                    }
                }
                rep.inc(&format!("searches_{form}"));
            }
            rep.inc(&format!("queries_{name}"));
            let nontrivial = match &q {
                Q::Set(_, w) => n > ns as usize && !w.is_empty() && w.len() < n,
                Q::Near(..) => n > 1,
            };
            rep.eval(if nontrivial { Some(h(&(c, qi))) } else { None });
        }
        rep.sample(|| json!({"layout": kind, "items": n, "node_size": ns, "first": format!("{:?}", boxes[0])}));
}
